#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's working tree.

Exit 0: it held on everything explored; 1: VIOLATION; 2: the check failed."""
import hashlib, json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, engine, mc
from engine import Job, ToolError, log

RIVAL, SIMPLE = 'RIVAL', 'SIMPLE'
INIT = {'Life': 'initRaw', 'Wide': 'initWide'}

# properties -> what is proved for all integers
CORE = {**{p: ['core'] for p in ('C01', 'C02', 'C08', 'C13', 'C22')}, **{p: ['weights'] for p in ('C04', 'C05', 'C06', 'C07', 'C09', 'C10', 'C15', 'C18')},
        'C03': ['core', 'schedule'], 'C11': ['schedule'], 'C12': ['schedule']}

# property -> behaviours explored: (profile, share of the work), probes (else the scripts),
# and the invariants evaluated on the specification itself along the way
PROPS = {
    'C01': dict(mix={'Economy': 2, 'Deleg': 1, 'Penal': 1, 'Schedule': 1, 'All': 1, 'Sloppy': 1, 'Life': 1, 'Wide': 1}, inv=['solvent', 'backed', 'booked'], small=True),
    'C02': dict(mix={'Economy': 2, 'Lock': 1, 'Deleg': 2, 'Penal': 1, 'Schedule': 1, 'All': 1, 'Wide': 1}, inv=['entitled'], small=True),
    'C03': dict(mix={'Economy': 1, 'Lock': 2, 'Deleg': 1, 'Schedule': 2, 'Penal': 1, 'All': 1}, inv=['entitled'], small=True),
    'C04': dict(mix={'Economy': 1, 'Lock': 2, 'Deleg': 1, 'Penal': 2, 'Life': 1, 'All': 1}, inv=['total'], small=True),
    'C05': dict(mix={'Lock': 4, 'Economy': 1, 'Sloppy': 1, 'Big': 1, 'All': 1}, inv=['weights', 'ledgerAgrees'], small=True),
    'C06': dict(mix={'Lock': 4, 'Deleg': 1, 'Penal': 1, 'Sloppy': 1, 'All': 1}, inv=['weights', 'ledgerAgrees'], small=True),
    'C07': dict(mix={'Economy': 2, 'Lock': 1, 'Life': 2, 'Deleg': 1, 'Sloppy': 1, 'Big': 1}, inv=['weights', 'ledgerAgrees']),
    'C08': dict(mix={'Deleg': 5, 'Life': 1, 'Crooked': 1, 'All': 1}, inv=['weights', 'entitled'], small=True),
    'C09': dict(mix={'Penal': 5, 'Sloppy': 1, 'Big': 1, 'All': 1}, inv=['weights', 'total'], small=True),
    'C10': dict(mix={'Penal': 5, 'Sloppy': 2, 'All': 1}, inv=['weights', 'total'], small=True),
    'C11': dict(mix={'Schedule': 5, 'Economy': 1, 'Big': 1, 'All': 1, 'Wide': 1}, inv=['booked', 'index'], small=True),
    'C12': dict(mix={'Schedule': 4, 'Crooked': 1, 'Sloppy': 1, 'Big': 1, 'Economy': 1}, inv=['booked', 'solvent'], small=True),
    'C13': dict(mix={'Economy': 3, 'Life': 1, 'Crooked': 2, 'Schedule': 1, 'All': 1, 'Wide': 1}, inv=['solvent', 'entitled']),
    'C14': dict(mix={'Crooked': 3}, probes=[RIVAL], inv=[]),
    'C15': dict(mix={'Crooked': 1, 'Deleg': 1, 'All': 1}, probes=[SIMPLE], inv=[]),
    'C16': dict(mix={'Life': 7, 'Crooked': 1}, inv=['total', 'solvent']),
    'C17': dict(mix={'Life': 6, 'Crooked': 2}, inv=['bounds']),
    'C18': dict(mix={'Economy': 1, 'Lock': 1, 'Deleg': 1, 'Penal': 1, 'Schedule': 1, 'Life': 2, 'All': 1, 'Wide': 1}, inv=['live']),
    'C19': dict(mix={'Big': 6, 'Sloppy': 2, 'Wide': 2}, inv=['bounds', 'solvent']),
    'C21': dict(mix={'Lock': 3, 'Schedule': 2}, inv=['bounds']),
    'C22': dict(mix={'Economy': 1, 'Deleg': 1, 'Penal': 2, 'Schedule': 1, 'Lock': 1, 'Sloppy': 1, 'All': 1}, inv=['entitled'], small=True),
}
SPECIAL = {
    'C20': dict(technique='Quint specification of the interface: instructions generated by its simulator are built with every builder and client (Rust, JavaScript) and '
                          'compared byte for byte; accounts written in replayed behaviours are decoded by every reader; the interface description is interpreted',
                note='Every instruction the specification generates (arguments over a set of boundary values) is built in all the ways the crate, the Rust client and the JavaScript '
                     'client offer, and compared with the specified bytes and account list. Trusts stand-ins for the umi library, which is not installed here, and the TypeScript compiler.'),
}
STEPS = 80
SCRIPTS = ['LongRun', 'FullMining', 'FullPool', 'FullHistory']


def jobs_for(prop, tier, seed):
    p = PROPS[prop]
    quick = tier == 'quick'
    jobs = []

    def seed_of(name):      # Quint's generator is a counter: far-apart seeds do not overlap
        return int.from_bytes(hashlib.sha256(('%s %s %s %d' % (prop, tier, name, seed)).encode()).digest()[:7], 'big')

    def add(name, init, step, samples, steps, invs=()):
        jobs.append(Job(name, init, step, samples, steps, seed_of(name), invs))

    for s in [] if p.get('probes') else SCRIPTS:
        add('script' + s, 'init' + s, 'stepScript', 1, 1000)
    for u in p.get('probes', []) if quick else ([RIVAL, SIMPLE] if p.get('probes') else []):
        for i in range(8):
            add('probe%s%d' % (u, i), 'initProbe(%d, %s)' % (i, u), 'any { bootStep, probeStep(8) }', 1, 2860)
    total = sum(p['mix'].values())
    budget = 1200 if quick else 40000          # behaviours
    if p.get('probes'):
        budget = budget // 4
    chunk = 10 if quick else 50
    for prof, share in sorted(p['mix'].items()):
        n = budget * share // total
        for k in range(-(-n // chunk)):
            # in one job out of eight the properties are also evaluated on every state of the specification
            long = not quick and k % 4 == 3
            add('%s%d' % (prof, k), INIT.get(prof, 'init'), 'step' + prof, min(chunk, n - k * chunk) // (2 if long else 1) or 1,
                2 * STEPS if long else STEPS, p['inv'] if k % 8 == 1 else ())
        # and a few go on for long
        for k in range(share if quick else 8 * share):
            add('%sLong%d' % (prof, k), INIT.get(prof, 'init'), 'step' + prof, 1, 500)
    return jobs


for _p in PROPS:
    for _j in jobs_for(_p, 'thorough', 1):
        engine.EXPRS += [x for x in [_j.init, _j.step] + _j.invs if x not in engine.EXPRS]
for _u in (RIVAL, SIMPLE):
    engine.EXPRS += [x for x in ['initProbe(%d, %s)' % (i, _u) for i in range(8)] if x not in engine.EXPRS]


def small_instance():
    """spec/small.qnt by TLC: every history of the given number of commands."""
    r = []
    for depth, narrow in ((4, False), (6, True)):
        try:
            x = mc.search(depth, narrow)
        except mc.Failed as e:
            raise ToolError(str(e))
        if x['refuted']:
            raise ToolError('the specification breaks its own invariants in the small instance:\n' + x['text'])
        r.append({'commands': depth, 'choice': 'narrow' if narrow else 'wide', 'states_generated': x['generated'], 'distinct_states': x['distinct'], 'finished': x['finished']})
    return r


def unbounded_core(modules):
    """spec/core.qnt, spec/weights.qnt, spec/schedule.qnt by Apalache: the bookkeeping for arbitrary integers."""
    try:
        return [x for m in modules for x in core.check(m)]
    except AssertionError as e:
        raise ToolError('the core of the specification does not keep its invariants: %s' % e)
    except core.Failed as e:
        log('# the core of the specification could not be checked here: %s' % str(e)[:300])
        return None


def evidence(prop, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(engine.VERIF + '/evidence', exist_ok=True)
    f = '%s/evidence/%s.json' % (engine.VERIF, prop)
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage, 'assumptions': assumptions,
               'wall_s': round(wall, 1), 'violations': violations}, open(f + '.tmp', 'w'), indent=1)
    os.replace(f + '.tmp', f)


ASSUME = [
    'the emulation of the Solana runtime in harness/src/rt.rs (account ownership, privileges, CPI to the system and token programs, atomic transactions)',
    'the SPL token program (spl-token 4.0) as shipped',
    'addresses derived from different seeds differ',
]


def sample_lines(f, n=12):
    import show
    st = json.load(open(f))['states']
    out = []
    for s in st[8:8 + n]:
        o = s['out']
        out.append('%s -> %s' % (engine.pretty(s['cmd']), 'accepted' if o['ok'] else 'refused: ' + o['why']))
    return out


def interface(work, tier, seed):
    """C20: see iface.qnt, iface.rs, iface.js."""
    prop, quick = 'C20', tier == 'quick'

    def job(name, step, samples, steps, invs, hide):
        n = int.from_bytes(hashlib.sha256(('%s %s %s %d' % (prop, tier, name, seed)).encode()).digest()[:7], 'big')
        return {'name': name, 'init': 'initRaw' if step == 'stepLife' else 'init', 'step': step, 'samples': samples, 'steps': steps, 'seed': str(n), 'invs': invs, 'invSamples': samples if invs else 0, 'hide': hide}

    def gen(main, exprs, jobs):
        d = work + '/gen-' + main
        os.makedirs(d)
        r = engine.simulate(main, {'exprs': exprs, 'jobs': jobs}, d, 700 if quick else 5000, 4)
        for b in (b for x in r.values() for b in x['broken']):
            raise ToolError('the specification of the interface is ill formed: %s' % b)
        return sorted(f for x in r.values() for f in x['files']), sum(x['evaluated'] for x in r.values())

    k = 2 if quick else 40
    with engine.cf.ThreadPoolExecutor(3) as ex:
        a = ex.submit(gen, 'iface', [], [job('iface%d' % i, 'step', k, 100, ['wellFormed'], []) for i in range(8)])
        b = ex.submit(gen, 'mbt', engine.EXPRS, [job('%s%d' % (s, i), 'step' + s, k, STEPS, [], engine.HIDE) for s in ('All', 'Life', 'Lock') for i in range(2)])
        c = ex.submit(engine.build, work, True)
        (specs, evaluated), (replays, _), (bin_, unfit) = a.result(), b.result(), c.result()
    out = work + '/cases.json'
    r1 = engine.run([bin_, out] + specs + ['--'] + replays, env=dict(os.environ, RUST_BACKTRACE='0'), timeout=3000)
    r2 = engine.run(['node', engine.VERIF + '/checks/iface.js', '/opt/veriftools/node/node_modules/typescript', engine.REPO, out], env=engine.quint_env(), timeout=3000) if r1.returncode == 0 else None
    found, counts = [{'who': 'Rust client', 'what': 'it does not take the accounts and arguments the specification lists: ' + e} for e in unfit], []
    for r in (r1, r2):
        if r is None:
            continue
        if r.returncode:
            raise ToolError('comparing interfaces: ' + (r.stdout + r.stderr)[-2500:])
        l = [json.loads(x) for x in r.stdout.splitlines()]
        found += l[:-1]
        counts.append(l[-1])
    compared = {k: v for c in counts for k, v in c['compared'].items()}
    cov = {'states': counts[0]['cases'] + counts[0]['accounts'], 'transitions': sum(counts[0]['kinds'].values()),
           'traces_validated_against_impl': len(specs) + len(replays) if not found else 0, 'worlds_decoded': counts[0]['worlds'],
           'invariant_evaluations': evaluated, 'comparisons': compared, 'instructions': counts[0]['kinds'],
           'samples': [json.dumps({'name': i['name'], 'args': i['args'], 'slots': i['slots'], 'data': i['data']}) for i in json.load(open(out))['instructions'][::37][:12]],
           'rule': 'states are the distinct instructions (with all their arguments and accounts) and account contents compared; transitions the instructions generated'}
    if found:
        keep = engine.VERIF + '/evidence/replay'
        os.makedirs(keep, exist_ok=True)
        json.dump({'discrepancies': found, 'cases': json.load(open(out))}, open(keep + '/C20.json', 'w'), indent=1)
    return found, cov


def main_interface(tier, seed):
    prop, t0 = 'C20', time.time()
    work = tempfile.mkdtemp(prefix='mplx-%s-' % prop)
    try:
        found, cov = interface(work, tier, seed)
        evidence(prop, tier, seed, 'model_checking', cov, time.time() - t0, len(found), ASSUME[2:] + ['the stand-ins for the umi library in checks/iface.js'])
        for x in found[:20]:
            log('# %s: %s' % (x['who'], x['what'][:500]))
        log('# %s %s: %d instructions, %d discrepancies, %.0fs' % (prop, tier, cov['transitions'], len(found), time.time() - t0))
        if found:
            log('VIOLATION property=%s replay=%s' % (prop, engine.VERIF + '/evidence/replay/C20.json'))
            return 1
        return 0
    except ToolError as e:
        log('# check failed: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def p_inv(prop):
    return PROPS[prop]['inv']


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if prop in SPECIAL:
        return main_interface(tier, seed)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='mplx-%s-' % prop)
    try:
        jobs = jobs_for(prop, tier, seed)
        r = engine.explore(prop, jobs, work, tier, engine.VERIF + '/evidence/replay')
        if r['files'] == 0 or r['steps'] == 0 and not r['violations']:
            raise ToolError('nothing was explored')
        exhaustive = small_instance() if tier != 'quick' and PROPS[prop].get('small') else None
        proved = unbounded_core(CORE[prop]) if tier != 'quick' and prop in CORE else None
        for k in sorted({v['text'].split(' at step')[0] for v in r['known']}):
            log('KNOWN-FINDING: property=%s %s' % (prop, k))
        for o in r['other'][:5]:
            log('# differs from the specification, but not in what %s is about: %s (%s)' % (prop, o['text'][:300], ' '.join(o['blamed']) or 'no property'))
        if r.get('differ') and not r['other'] and not r['violations'] and not r['known']:
            log('# %d recorded executions differ from the specification in nothing any property is about' % r['differ'])
        for v in r['violations'][:8]:
            log('# ' + v['text'][:600])
        cov = {
            'states': r['seen'].get('worlds', 0), 'transitions': r['seen'].get('transitions', 0),
            'traces_validated_against_impl': r['agree'], 'traces_that_differ': r.get('differ', 0),
            'effective_transitions': r['seen'].get('effective', 0), 'steps_replayed': r['steps'],
            'accepted': sum(n for k, n in r['stats'].items() if k.endswith(':ok')),
            'outcomes': dict(sorted(r['stats'].items())),
            'invariants_of_the_specification': p_inv(prop), 'invariant_evaluations': r['evaluated'],
            'exhaustive_small_instance': exhaustive,
            'proved_for_all_integers': proved,
            'jobs': ['%s: %d x %d steps of %s from %s, seed %d%s' % (j.name, j.samples, j.steps, j.step, j.init, j.seed,
                                                                     ', checking ' + ' '.join(j.invs) if j.invs else '') for j in jobs],
            'samples': sample_lines(r['sample_file']) if r.get('sample_file') else [],
            'rule': 'states and transitions are the distinct ones of the specification visited by the generated behaviours, each of '
                    'which was executed on the program and compared in full',
        }
        evidence(prop, tier, seed, 'model_checking', cov, time.time() - t0, len(r['violations']), ASSUME)
        log('# %s %s: %d behaviours, %d steps (%d accepted), %d distinct worlds, %d distinct transitions, %.0fs'
            % (prop, tier, r['files'], r['steps'], cov['accepted'], cov['states'], cov['transitions'], time.time() - t0))
        if r['violations']:
            v = r['violations'][0]
            log('VIOLATION property=%s replay=%s' % (prop, v.get('replay', v['file'])))
            return 1
        return 0
    except ToolError as e:
        log('# check failed: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
