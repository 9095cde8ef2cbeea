#!/usr/bin/env python3
"""spec/core.qnt, spec/weights.qnt and spec/schedule.qnt by Apalache (quint verify): the
bookkeeping of rewards, of weights and end dates, and of days, for arbitrary integers.  Each action, taken
from any state in which the invariants hold, keeps them; each of the wrong actions
is refuted.

core.py [core|weights|schedule [ACTION...]]"""
import os, re, shutil, socket, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# module -> actions, what each of them keeps, what follows, wrong actions
MODULES = {
    'core': (['swap', 'turn', 'fill', 'distribute', 'runOut', 'change', 'redelegate', 'forfeit', 'runDown', 'claim', 'touch'], ['Inv', 'Kept'], 'Solvent',
             ['badChange', 'badRedelegate', 'badRunOut', 'badClaim', 'badDistribute']),
    'weights': (['swap', 'tick', 'roll', 'touch', 'deposit', 'withdraw', 'extend', 'redelegate', 'slash', 'penalty', 'close'], ['Inv', 'Others'], 'Positive',
                ['badDeposit', 'badExtend', 'badSlash', 'badTouch', 'badPenalty']),
    'schedule': (['tick', 'fill', 'distribute'], ['Sound'], 'Exhausted', ['badAgain', 'badDays', 'badRoundUp', 'badMissed', 'badDate', 'badEnd', 'badLookup']),
}


class Failed(Exception):
    pass


def port():
    with socket.socket() as s:
        s.bind(('127.0.0.1', 0))
        return s.getsockname()[1]


def prove(job):
    mod, act, inv, steps, init, expect = job
    d = tempfile.mkdtemp(prefix='core-')
    try:
        src = open(VERIF + '/spec/%s.qnt' % mod).read()
        text, n = re.subn(r'\n  action step = any \{[^\n]*', '\n  action step = %s' % act, src)
        if n != 1:
            raise Failed('%s.qnt: %d definitions of step' % (mod, n))
        open(d + '/%s.qnt' % mod, 'w').write(text)
        t0 = time.time()
        r = subprocess.run(['quint', 'verify', mod + '.qnt', '--init', init, '--invariant', inv, '--max-steps', str(steps), '--server-endpoint', 'localhost:%d' % port()],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
        m = re.search(r'\[(ok|violation)\]', r.stdout)
        if not m:
            raise Failed('%s, %s: %s' % (act, inv, r.stdout[-600:]))
        if m.group(1) != expect:
            raise AssertionError('%s, %s: %s instead of %s' % (act, inv, m.group(1), expect))
        return '%s from %s keeps %s' % (act, init, inv) if expect == 'ok' and steps else '%s in %s' % (inv, init) if expect == 'ok' else '%s refuted' % act, time.time() - t0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(mod, actions=None):
    """What has been proved, as text.  AssertionError if it is not so, Failed if it cannot be told."""
    every, keeps, follows, wrong = MODULES[mod]
    jobs = [(mod, a, i, 1, 'anywhere', 'ok') for a in actions or every for i in keeps]
    jobs += [(mod, every[0], keeps[0], 0, 'init', 'ok'), (mod, every[0], follows, 0, 'anywhere', 'ok')]
    if not actions:
        jobs += [(mod, a, keeps[0], 1, 'anywhere', 'violation') for a in wrong]
    jobs.sort(key=lambda j: j[1] != 'distribute')
    with ThreadPoolExecutor(4) as p:
        try:
            return [x for x, _ in p.map(prove, jobs)]
        except (OSError, subprocess.TimeoutExpired) as e:
            raise Failed(str(e))


if __name__ == '__main__':
    t = time.time()
    for m in sys.argv[1:2] or MODULES:
        print('\n'.join(check(m, sys.argv[2:])))
    print('%.0fs' % (time.time() - t))
