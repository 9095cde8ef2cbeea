#!/usr/bin/env python3
"""Exhaustive search of spec/small.qnt: the specification with small constants,
translated to TLA+ and explored breadth first by TLC to a given number of commands.

mc.py [DEPTH [narrow|wide [DEFECT]]] runs it; DEFECT (see spec/params.qnt) is put
back into the specification first, which TLC then has to refute.

Quint's own translation to TLA+ prints LET without brackets, which TLC reads
differently; hence the printer in here, from Apalache's intermediate form."""
import json, os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# small constants, under the names of spec/params.qnt
SMALL = {'PREC': '12', 'DAY': '2', 'U64': '10000', 'U128': '100000000', 'CAP_M': '2', 'CAP_P': '3', 'CAP_H': '4',
         'MULT': 'Map("None" -> 0, "Flex" -> 1, "ThreeMonths" -> 2, "SixMonths" -> 3, "OneYear" -> 4)',
         'DAYS': 'Map("Flex" -> 1, "ThreeMonths" -> 1, "SixMonths" -> 2, "OneYear" -> 3)', 'RENT_M': '1', 'RENT_V': '1', 'POOL_LEN': '1'}
# fewer choices, so that longer histories can be searched
NARROW = {'AMOUNTS': 'Set(1)', 'ADDED': 'Set(1)', 'CHOSEN': 'Set("Flex", "SixMonths")', 'STEPS': 'Set(1, 4)', 'LATER': 'Set(1)', 'CLOSING': 'false'}


class Failed(Exception):
    pass


def put(text, names, where):
    for n, v in names.items():
        text, k = re.subn(r'(pure val %s\b[^=]*= ).*' % n, lambda m: m.group(1) + v, text)
        if k != 1:
            raise Failed('%s: %d definitions of %s' % (where, k, n))
    return text


BIN = {'AND': '/\\', 'OR': '\\/', 'EQ': '=', 'NE': '/=', 'GE': '>=', 'GT': '>', 'LE': '<=', 'LT': '<', 'IMPLIES': '=>', 'EQUIV': '<=>', 'PLUS': '+', 'MINUS': '-',
       'MULT': '*', 'DIV': '\\div', 'MOD': '%', 'SET_IN': '\\in', 'SET_NOT_IN': '\\notin', 'SUBSET_EQ': '\\subseteq', 'SET_MINUS': '\\', 'SET_UNION2': '\\union',
       'SET_INTERSECT': '\\intersect', 'SET_TIMES': '\\X', 'INT_RANGE': '..', 'Sequences!Concat': '\\o', 'Apalache!:=': '='}
PRE = {'NOT': '~', 'DOMAIN': 'DOMAIN ', 'SET_UNARY_UNION': 'UNION ', 'UNARY_MINUS': '-'}
HEAD = r'''EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
SetAsFun(S) == [x \in {q[1]: q \in S} |-> (CHOOSE q \in S: q[1] = x)[2]]
Variant(t, v) == [tag |-> t, value |-> v]
VariantTag(v) == v.tag
VariantGetUnsafe(t, v) == v.value
ApaFoldSeqLeft(op(_,_), b, s) == FoldLeft(op, b, s)
ApaFoldSet(op(_,_), b, S) == LET flip(x, y) == op(y, x) IN FoldSet(flip, b, S)
MkSeq(n, op(_)) == [i \in 1..n |-> op(i)]'''
KNOWN = {'Cardinality', 'Append', 'Len', 'SubSeq', 'Variant', 'VariantGetUnsafe', 'VariantTag', 'ApaFoldSeqLeft', 'ApaFoldSet', 'MkSeq', 'SetAsFun', 'Head', 'Tail'}


def name(n):
    n = n.replace('::', '_')
    return 'u' + n if re.fullmatch(r'[_\d]+', n) else n


def tla(e):
    """An expression of Apalache's intermediate form as TLA+ text, fully bracketed."""
    k = e['kind']
    if k == 'NameEx':
        return name(e['name'])
    if k == 'ValEx':
        v = e['value']
        if v['kind'] == 'TlaStr':
            return json.dumps(v['value'])
        if v['kind'] == 'TlaBool':
            return 'TRUE' if v['value'] else 'FALSE'
        x = v['value']['bigInt'] if isinstance(v['value'], dict) else v['value']
        return '(%s)' % x
    if k == 'LetInEx':
        ds = [d for d in e['decls'] if d['name'] != '_']
        if not ds:
            return tla(e['body'])
        if len(ds) == 1 and ds[0]['formalParams'] and e['body']['kind'] == 'NameEx' and e['body']['name'] == ds[0]['name']:
            return 'LAMBDA %s: %s' % (', '.join(name(q['name']) for q in ds[0]['formalParams']), tla(ds[0]['body']))
        return '(LET %s IN %s)' % (' '.join(map(decl, ds)), tla(e['body']))
    if k != 'OperEx':
        raise Failed('no translation of ' + k)
    o, a = e['oper'], e['args']
    if o == 'EXCEPT':
        if len(a) != 3 or a[1].get('oper') != 'TUPLE' or len(a[1]['args']) != 1:
            raise Failed('no translation of this EXCEPT')
        return '[%s EXCEPT ![%s] = %s]' % (tla(a[0]), tla(a[1]['args'][0]), tla(a[2]))
    p = [tla(x) for x in a]
    if o in BIN:
        return p[0] if len(p) == 1 else '(' + (' %s ' % BIN[o]).join(p) + ')'
    if o in PRE:
        return '(%s(%s))' % (PRE[o], p[0])
    if o.split('!')[-1] in KNOWN:
        return '%s(%s)' % (o.split('!')[-1], ', '.join(p))
    if o == 'OPER_APP':
        return p[0] if len(p) == 1 else '%s(%s)' % (p[0], ', '.join(p[1:]))
    if o == 'PRIME':
        return p[0] + "'"
    if o == 'TUPLE':
        return '<<' + ', '.join(p) + '>>'
    if o == 'SET_ENUM':
        return '{' + ', '.join(p) + '}'
    if o == 'RECORD':
        return '[' + ', '.join('%s |-> %s' % (json.loads(p[i]), p[i + 1]) for i in range(0, len(p), 2)) + ']'
    if o in ('CASE', 'CASE_OTHER'):
        s = len(p) % 2
        return '(CASE ' + ' [] '.join('%s -> %s' % (p[i], p[i + 1]) for i in range(s, len(p), 2)) + (' [] OTHER -> ' + p[0] if s else '') + ')'
    shape = {'FUN_APP': '(%s)[%s]', 'IF_THEN_ELSE': '(IF %s THEN %s ELSE %s)', 'EXISTS3': '(\\E %s \\in %s: %s)', 'FORALL3': '(\\A %s \\in %s: %s)',
             'SET_FILTER': '{%s \\in %s: %s}', 'SET_MAP': '{%s: %s \\in %s}'}.get(o)
    if shape:
        return shape % tuple(p)
    if o == 'FUN_CTOR':
        return '[%s \\in %s |-> %s]' % (p[1], p[2], p[0])
    raise Failed('no translation of ' + o)


def decl(d):
    ps = ['%s%s' % (name(q['name']), '(' + ','.join('_' * q['arity']) + ')' if q['arity'] else '') for q in d['formalParams']]
    return '%s%s == %s' % (name(d['name']), '(' + ', '.join(ps) + ')' if ps else '', tla(d['body']))


def translate(d, narrow, defect, depth):
    """Writes small.tla and small.cfg into d."""
    for f in ('types', 'cmds', 'rewards', 'ghost', 'small', 'params'):
        t = open('%s/spec/%s.qnt' % (VERIF, f)).read()
        if f == 'params':
            t = put(t, dict(SMALL, LEGACY='Set("%s")' % defect) if defect else SMALL, 'params.qnt')
        if f == 'small' and narrow:
            t = put(t, NARROW, 'small.qnt')
        open('%s/%s.qnt' % (d, f), 'w').write(t)
    env = dict(os.environ, JVM_ARGS='-Xmx3g -Xss64m')

    def sh(cmd, **kw):
        r = subprocess.run(cmd, cwd=d, env=env, stderr=subprocess.PIPE, text=True, timeout=300, **kw)
        if r.returncode:
            raise Failed(' '.join(cmd[:3]) + ': ' + (r.stderr or '')[-1500:])
    with open(d + '/small.qnt.json', 'w') as f:
        sh(['quint', 'compile', '--target=json', 'small.qnt', '--main', 'small', '--init', 'init', '--step', 'step', '--invariant', 'inv'], stdout=f)
    sh(['apalache-mc', 'parse', '--out-dir=' + d + '/apalache', '--output=' + d + '/ir.json', 'small.qnt.json'], stdout=subprocess.DEVNULL)
    out = ['---- MODULE small ----', HEAD]
    for x in json.load(open(d + '/ir.json'))['modules'][0]['declarations']:
        if x['kind'] == 'TlaVarDecl':
            out.append('VARIABLE ' + name(x['name']))
        else:      # TLC wants the initial values unprimed
            out.append(decl(x).replace("'", '') if x['name'] == 'init' else decl(x))
    # commands are counted by the length of the behaviour
    out += ['Depth == TLCGet("level") <= %d' % depth, '====']
    open(d + '/small.tla', 'w').write('\n'.join(out) + '\n')
    open(d + '/small.cfg', 'w').write('INIT q_init\nNEXT q_step\nINVARIANT q_inv\nCONSTRAINT Depth\nCHECK_DEADLOCK FALSE\n')


def search(depth, narrow=False, defect=None, workers=8, timeout=3000):
    """All histories of `depth` commands.  {generated, distinct, refuted, finished, text}"""
    d = tempfile.mkdtemp(prefix='mplx-mc-')
    try:
        translate(d, narrow, defect, depth)
        try:
            r = subprocess.run(['tlc', '-workers', str(workers), '-metadir', d + '/states', '-noTE', '-config', 'small.cfg', 'small.tla'], cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
            o = r.stdout
        except subprocess.TimeoutExpired as e:
            o = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else e.stdout or ''
        n = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct', o)
        g, s = [int(x.replace(',', '')) for x in n[-1]] if n else (0, 0)
        refuted = 'Invariant q_inv is violated' in o
        finished = 'Model checking completed. No error' in o
        if not refuted and 'Error:' in o:
            raise Failed('TLC: ' + o[-2500:])
        return {'generated': g, 'distinct': s, 'refuted': refuted, 'finished': finished, 'text': o[-6000:] if refuted else ''}
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    r = search(int(a[0]) if a else 4, a[1] == 'narrow' if len(a) > 1 else False, a[2] if len(a) > 2 else None)
    print(r.pop('text'))
    print(r)
