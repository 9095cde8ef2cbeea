#!/usr/bin/env python3
"""Print an ITF trace of the specification in a readable form: show.py FILE [--world]"""
import json, sys

def dec(v):
    if isinstance(v, dict):
        if '#bigint' in v: return int(v['#bigint'])
        if '#map' in v: return {key(dec(k)): dec(x) for k, x in v['#map']}
        if '#set' in v: return [dec(x) for x in v['#set']]
        if '#tup' in v: return tuple(dec(x) for x in v['#tup'])
        if set(v) == {'tag', 'value'}:
            x = dec(v['value'])
            return Tag(v['tag'], x)
        return {k: dec(x) for k, x in v.items() if not k.startswith('#')}
    if isinstance(v, list): return [dec(x) for x in v]
    return v

def key(k): return repr(k) if isinstance(k, (Tag, dict, list)) else k

class Tag(tuple):
    def __new__(cls, t, v): return tuple.__new__(cls, (t, v))
    def __repr__(self):
        t, v = self
        if isinstance(v, tuple) and not isinstance(v, Tag) and len(v) == 0: return t
        if t == 'Tx':
            ix = v['ix']
            return 'Tx %s [%s]' % (ix, ' '.join('%s%s%s' % (m['a'], '!' if m['s'] else '', '' if m['w'] else '-') for m in v['metas']))
        if t.startswith('A') and isinstance(v, str): return '%s:%s' % (t[1:].lower(), v)
        if t.startswith('A') and isinstance(v, tuple): return '%s:%s/%s' % (t[1:].lower(), v[0], v[1])
        if isinstance(v, dict): return '%s(%s)' % (t, ', '.join('%s=%r' % kv for kv in v.items()))
        return '%s(%r)' % (t, v)

def main():
    f = [a for a in sys.argv[1:] if not a.startswith('-')][0]
    tr = json.load(open(f))
    for i, s in enumerate(tr['states']):
        d = dec({k: s[k] for k in s if k in ('cmd', 'out', 'w', 'wf', 'clean', 'pen', 'led')})
        o = d['out']
        r = 'ok' if o['ok'] else 'REJECTED ' + o['why']
        print('%3d t=%d %r -> %s%s%s' % (i, d['w']['now'], d['cmd'], r, '' if o['ret'] < 0 else ' ret=%d' % o['ret'],
              '' if d.get('wf', True) else '  (not wf)'))
        if '--world' in sys.argv:
            for part in ('pools', 'minings', 'vaults'):
                for k, x in d['w'][part].items(): print('        ', part, k, x)
            if 'led' in d: print('         led', d['led'])

if __name__ == '__main__': main()
