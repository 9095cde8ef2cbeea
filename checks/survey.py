#!/usr/bin/env python3
"""survey.py corpus DIR | survey.py judge DIR : development tool.  `corpus` generates
behaviours of every profile, probe and script once; `judge` builds the program
from /repo as it is and prints which properties the differences are blamed on."""
import os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, engine
from collections import Counter

cmd, d = sys.argv[1:3]
if cmd == 'corpus':
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 100
    jobs = []
    for prof in ('Economy', 'Lock', 'Deleg', 'Penal', 'Schedule', 'Life', 'Crooked', 'Sloppy', 'Big', 'Wide', 'All'):
        jobs += [engine.Job('%s%d' % (prof, k), check.INIT.get(prof, 'init'), 'step' + prof, 10, 80, 77000003 * k + hash(prof) % 10**9) for k in range(n // 10)]
    for u in ('RIVAL', 'SIMPLE'):
        jobs += [engine.Job('probe%s%d' % (u, i), 'initProbe(%d, %s)' % (i, u), 'any { bootStep, probeStep(8) }', 1, 2860, 5) for i in range(8)]
    jobs += [engine.Job('script' + s, 'init' + s, 'stepScript', 1, 1000, 5) for s in ('LongRun', 'FullMining', 'FullPool', 'FullHistory')]
    os.makedirs(d)
    engine.generate(jobs[::-1], d, 3600)
else:
    work = tempfile.mkdtemp(prefix='survey-')
    try:
        t = time.time()
        files = sorted(d + '/gen/' + f for f in os.listdir(d + '/gen'))
        b = engine.build(work)
        t1 = time.time()
        reps, seen, findings = engine.compare(b, files, work, 600)
        bad = [r for r in reps if r['diff'] or r['broken']]
        print({k: n for k, n in sum((Counter(r['stats']) for r in reps), Counter()).items() if 'PANIC' in k})
        print('%d of %d behaviours differ (%s); build %.0fs, rest %.0fs' % (
            len(bad), len(reps), dict(Counter(os.path.basename(r['file']).split('_')[0].rstrip('0123456789') for r in bad)), t1 - t, time.time() - t1))
        c = Counter(p for x in findings for p in x['blamed'])
        print('blamed:', dict(sorted(c.items())), 'cases judged:', len({x['file'] for x in findings}))
        shown = set()
        for x in findings:
            k = str(x['tags'])
            if k not in shown and len(shown) < 12:
                shown.add(k)
                print('  ', ' '.join(x['blamed']) or '-', ':', os.path.basename(x['file']), x['text'][:330])
    finally:
        shutil.rmtree(work, ignore_errors=True)
