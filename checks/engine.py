"""Shared machinery of the checks: build the program from /repo's working tree,
let Quint generate behaviours of the specification, replay them on the program,
and have the specification judge every step on which the two differ."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
NCPU = os.cpu_count() or 4
CACHE = VERIF + '/work/cache'


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def cargo_env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='1.78.0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
             CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    for k in ('BPF_OUT_DIR', 'SBF_OUT_DIR', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build(out, iface=False):
    """The harness, linked with the program as it is in /repo now.  The quick way
    reuses the dependencies that the repository's own build left in /repo/target
    (git-ignored); if anything about that fails, cargo builds all of it apart."""
    why = []
    try:
        return build_quick(out, iface)
    except ToolError as e:
        why.append(str(e))
    env = cargo_env()
    r = run(['cargo', 'build', '--offline', '--locked', '--target-dir', VERIF + '/harness/target'] + (['--features', 'iface'] if iface else []), cwd=VERIF + '/harness', env=env, timeout=800)
    if r.returncode:
        raise ToolError('cannot build the harness: %s\n%s' % ('; '.join(why), r.stderr[-3000:]))
    b = VERIF + '/harness/target/debug/'
    return (b + 'iface', []) if iface else b + 'mplxh'


FAST = [x for p in ('curve25519-dalek', 'sha2', 'subtle', 'digest', 'block-buffer', 'serde_json', 'serde', 'itoa', 'memchr') for x in ('--config', 'profile.dev.package.%s.opt-level=3' % p)]


def build_quick(out, iface=False):
    env = cargo_env()
    r = run(['cargo', 'build', '--workspace', '--lib', '--examples', '--features', 'rewards/test-sbf', '--offline', '--locked',
             '--message-format=json'] + FAST, cwd=REPO, env=env, timeout=800)
    if r.returncode:
        raise ToolError('cargo build in /repo: ' + r.stderr[-2000:])
    libs = {}
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('reason') != 'compiler-artifact' or d['profile']['test']:
            continue
        n = d['target']['name'].replace('-', '_')
        rl = [f for f in d['filenames'] if f.endswith('.rlib')]
        if rl:
            libs.setdefault(n, []).append(rl[0])
    ext = []
    for n in ('mplx_rewards', 'solana_program', 'spl_token', 'serde_json') + (('rewards', 'num_traits', 'sokoban') if iface else ()):
        if len(libs.get(n, [])) != 1:
            raise ToolError('artifacts of %s: %s' % (n, libs.get(n)))
        ext += ['--extern', '%s=%s' % (n, libs[n][0])]
    deps = ['-L', 'dependency=' + REPO + '/target/debug/deps', '-L', 'dependency=' + REPO + '/target/debug']
    flags = ['--edition', '2021', '-C', 'opt-level=2', '-C', 'overflow-checks=on', '-A', 'warnings']
    h = VERIF + '/harness/src/'
    own = ['--extern', 'mplxh=' + out + '/libmplxh.rlib']
    for cmd in (['rustc', '--crate-name', 'mplxh', '--crate-type', 'rlib', h + 'lib.rs', '--out-dir', out],
                ['rustc', '--crate-name', 'mplxh_bin', h + 'main.rs', '-o', out + '/mplxh'] + own):
        r = run(cmd + flags + deps + ext, env=env, timeout=600)
        if r.returncode:
            raise ToolError('rustc: ' + r.stderr[-2000:])
    if iface:      # without the Rust client if the client does not fit
        cmd = ['rustc', '--crate-name', 'iface', h + 'iface.rs', '-o', out + '/iface'] + own + flags + deps + ext
        r = run(cmd, env=env, timeout=600)
        if r.returncode:
            if run(cmd + ['--cfg', 'noclient'], env=env, timeout=600).returncode:
                raise ToolError('rustc: ' + r.stderr[-2000:])
            return out + '/iface', [l for l in r.stderr.splitlines() if l.startswith('error')][:8]
        return out + '/iface', []
    return out + '/mplxh'


# ---------------------------------------------------------------- generation
class Job:
    """One run of the Quint simulator."""
    def __init__(self, name, init, step, samples, steps, seed, invs=()):
        self.name, self.init, self.step, self.samples, self.steps, self.seed, self.invs = name, init, step, samples, steps, seed, list(invs)


def quint_env():
    e = dict(os.environ)
    e['QUINT_RETRY_NONDET_SMALLER_THAN'] = '0'
    e['NODE_OPTIONS'] = ''
    return e


def quint_package():
    for p in (os.path.expanduser('/opt/veriftools/quint/node_modules/@informalsystems/quint'),):
        if os.path.isdir(p):
            return p
    raise ToolError('the Quint package is not installed where expected')


EXPRS = []    # all the expressions any job uses, so that one cache serves every check
HIDE = ['g', 'led', 'boot', 'pen', 'setup', 'ctr']


def simulate(main, what, out, timeout, threads):
    """Runs sim.js; returns its answer for every job."""
    jf = out + '/jobs.json'
    with open(jf, 'w') as f:
        json.dump(what, f)
    try:
        r = run(['node', VERIF + '/checks/sim.js', quint_package(), '%s/spec/%s.qnt' % (VERIF, main), main, jf, out, str(threads), CACHE],
                env=quint_env(), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('simulation: timeout')
    os.remove(jf)
    res = {}
    for l in r.stdout.splitlines():
        d = json.loads(l)
        if 'error' in d:
            raise ToolError('simulation of %s: %s' % (d['name'], d['error'][:1500]))
        res[d['name']] = d
    if r.returncode or set(res) != {j['name'] for j in what['jobs']}:
        raise ToolError('simulation (exit %d): %s' % (r.returncode, (r.stdout + r.stderr)[-2500:]))
    return res


def generate(jobs, work, timeout, threads=NCPU, hide=HIDE):
    """Runs Quint's simulator on all the jobs (see sim.js).  Returns the files of
    the behaviours, the number of invariant evaluations, and the behaviours on
    which an invariant of the specification fails."""
    out = work + '/gen'
    os.makedirs(out)
    res = simulate('mbt', {'exprs': EXPRS, 'jobs': [
        {'name': j.name, 'init': j.init, 'step': j.step, 'samples': j.samples, 'steps': j.steps, 'seed': str(j.seed), 'invs': j.invs,
         'invSamples': j.samples if j.invs else 0, 'hide': hide} for j in jobs]}, out, timeout, threads)
    return (sorted(f for d in res.values() for f in d['files']), sum(d['evaluated'] for d in res.values()),
            [b for d in res.values() for b in d['broken']])


# -------------------------------------------------------------------- replay
class Hang(Exception):
    pass


def replay(bin_, files, dump, timeout):
    os.makedirs(dump, exist_ok=True)
    env = dict(os.environ, RUST_BACKTRACE='0')

    def go(fs, t):
        with tempfile.TemporaryFile('w+') as o:
            p = subprocess.Popen([bin_, 'replay', '--dump', dump] + fs, stdout=o, stderr=subprocess.DEVNULL, env=env)
            try:
                rc = p.wait(t)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'hang'
            o.seek(0)
            return rc, [json.loads(l) for l in o if l.startswith('{') and l.endswith('}\n')]

    rc, lines = go(files, timeout)
    if rc == 0:
        return [x for x in lines if 'file' in x], [x for x in lines if 'worlds' in x][0]
    if rc in ('hang', -signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL):
        done = {x['file'] for x in lines if 'file' in x}
        for f in files:
            if f not in done:
                rc1, _ = go([f], 20)
                if rc1 == rc:
                    raise Hang('%s|%s' % (f, 'does not return' if rc == 'hang' else 'crashes the process'))
    raise ToolError('replay: exit %s' % rc)


# ------------------------------------------------------------------ judging
def num(v):
    return int(v['#bigint']) if isinstance(v, dict) else int(v)


KINDLESS = {'Tick', 'Fund', 'Donate', 'Nop', 'Daily', 'Garbled', 'Bundle'}


def kind(c):
    if c['tag'] == 'Bundle':
        return '+'.join(t['ix']['tag'] for t in c['value']['ixs'])
    return c['value']['ix']['tag'] if c['tag'] == 'Tx' else c['tag']


def pretty(c):
    import show
    return repr(show.dec(c))


def first_diff(rep):
    s = [x['step'] for x in (rep['diff'], rep['broken']) if x]
    return min(s) if s else None


def paths(a, b, p=''):
    """Where two ITF values differ (coarsely)."""
    if a == b:
        return set()
    if isinstance(a, dict) and isinstance(b, dict):
        if '#map' in a and '#map' in b:
            da = {json.dumps(k): v for k, v in a['#map']}
            db = {json.dumps(k): v for k, v in b['#map']}
            if p.endswith('sched') or p.endswith('cum'):
                return {p} if da != db else set()
            r = set()
            for k in set(da) | set(db):
                if k not in da or k not in db:
                    r.add(p + '!')
                else:
                    r |= paths(da[k], db[k], p)
            return r
        if '#bigint' in a or '#bigint' in b:
            return {p} if num(a) != num(b) else set()
        if set(a) == set(b):
            r = set()
            for k in a:
                r |= paths(a[k], b[k], p + '.' + k)
            return r
    if isinstance(a, (int, dict)) and isinstance(b, (int, dict)) and not isinstance(a, bool):
        try:
            return {p} if num(a) != num(b) else set()
        except (KeyError, TypeError, ValueError):
            pass
    return {p}


def signature(itf, obs, i):
    s, o = itf['states'][i], obs['steps'][i - 1]
    exp = s['out']
    what = ()
    if 'w' in o and o['ok'] and exp['ok']:
        what = tuple(sorted(paths(s['w'], o['w'])))
    return (kind(s['cmd']), exp['ok'], exp['why'], o['ok'], o['panic'], 'broken' in o, num(o['ret']) == num(exp['ret']), what)


AFTER = 100   # recorded steps judged after the first difference


def recorded(itf, obs, i):
    """What validate.qnt reads: `i` is the index of the first differing step."""
    st = itf['states']
    steps = []
    for j in range(i, min(i + (AFTER if len(st) > 2000 or len(st) == 81 else 1200), len(obs['steps']) + 1)):
        s, o = st[j], obs['steps'][j - 1]
        broken = 'broken' in o
        steps.append({'c': s['cmd'], 'honest': s['cmd']['tag'] != 'Garbled', 'wf': s['wf'], 'clean': s['clean'], 'ok': o['ok'],
                      'ret': num(o['ret']), 'panic': o['panic'], 'broken': broken, 'w': st[0]['w'] if broken else o['w']})
    return {'genesis': st[0]['w'], 'pre': [s['cmd'] for s in st[1:i]], 'obs': steps}


OWN = {'DepositMining': 'C05', 'WithdrawMining': 'C07', 'ExtendStake': 'C06', 'ChangeDelegate': 'C08', 'Slash': 'C09', 'DecreaseRewards': 'C10',
       'DistributeRewards': 'C11', 'Daily': 'C11', 'FillVault': 'C12', 'Claim': 'C13', 'CloseMining': 'C16', 'InitializePool': 'C17',
       'InitializeMining': 'C17', 'Garbled': 'C14'}


def judge(chosen, work, timeout=400):
    """chosen: list of (file, itf, obs, first differing step).
    Returns {file: [(position, tags, blamed)]}."""
    d = tempfile.mkdtemp(prefix='judge', dir=work)
    n = min(NCPU, len(chosen))
    batches = [chosen[k::n] for k in range(n)]
    jobs = []
    for k, b in enumerate(batches):
        t = '%s/traces%d.json' % (d, k)
        json.dump([recorded(itf, obs, i) for _, itf, obs, i in b], open(t, 'w'))
        jobs.append({'name': str(k), 'init': 'init', 'step': 'step', 'samples': 1, 'steps': 0, 'seed': '1', 'invs': [], 'invSamples': 0,
                     'hide': ['w', 'g', 't', 'sound', 'past'], 'traces': t, 'define': 'TRACES'})
    res = {}
    for name, m in simulate('validate', {'exprs': [], 'jobs': jobs}, d, timeout, NCPU).items():
        for (f, itf, obs, i), j in zip(batches[int(name)], m['judged']):
            r = res.setdefault(f, [])
            for s in j['states']:
                r.append((num(s['i']), sorted((x['kind'], x['what'], x['more']) for x in s['tags']['#set']), sorted(s['blamed']['#set'])))
            if j['error'] and not any(tags for _, tags, _ in r):
                # the recorded worlds are too odd to evaluate
                pos = max([p for p, _, _ in r], default=0) + 1
                kd = kind(itf['states'][i + pos - 1]['cmd'])
                r.append((pos, [(kd, 'a state the specification cannot even evaluate', '')], [OWN[kd]] if kd in OWN else []))
    shutil.rmtree(d, ignore_errors=True)
    return res


# ------------------------------------------------------------ known findings
def known_findings(prop):
    """Lines `finding: property=<id> kind=.. what=.. more=.. | text` of known-findings.txt
    (`fixed:` lines suppress nothing)."""
    out = []
    p = VERIF + '/known-findings.txt'
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) kind="([^"]*)" what="([^"]*)" more="([^"]*)" *(.*)', l.strip())
        if m and m.group(1) == prop:
            out.append({'tag': (m.group(2), m.group(3), m.group(4)), 'text': m.group(5)})
    return out


# ----------------------------------------------------------------- the check
def compare(bin_, files, work, timeout, prop=None, patience=0):
    """Replays the behaviours on the program and has the specification judge every
    kind of difference, and, as long as that does not concern `prop`, more cases of
    each kind for `patience` seconds.  Returns (replies, distinct counts, findings),
    a finding being a recorded step that breaks something: {file, step, tags, blamed, text}."""
    reps, seen = replay(bin_, files, work + '/obs', timeout)
    bad = [r for r in reps if r['diff'] or r['broken']]
    cases = {}
    for r in sorted((r for r in bad if 'obs' in r), key=lambda r: (not os.path.basename(r['file']).startswith('script'), first_diff(r))):
        itf, obs, i = json.load(open(r['file'])), json.load(open(r['obs'])), first_diff(r)
        script = [b for b in [os.path.basename(r['file'])] if b.startswith('script')]
        cases.setdefault(signature(itf, obs, i) + tuple(script), []).append((r, itf, obs, i))
    # at first up to three cases of each kind of difference, 32 in all
    queue = [l[rank] for rank in range(max(map(len, cases.values()), default=0)) for l in cases.values() if rank < len(l)]
    first = min(32, sum(min(3, len(l)) for l in cases.values()))
    findings, t0, n = [], time.time(), first
    while queue:
        chosen, queue = queue[:n], queue[n:]
        results = judge([(r['file'], itf, obs, i) for r, itf, obs, i in chosen], work)
        for r, itf, obs, i in chosen:
            for pos, tags, blamed in results.get(r['file'], []):
                if tags:
                    step = i + pos - 1
                    findings.append({'file': r['file'], 'step': step, 'tags': tags, 'blamed': blamed,
                                     'text': '%s at step %d: %s' % (pretty(itf['states'][step]['cmd']), step,
                                                                    '; '.join(' '.join(x for x in t[1:] if x) for t in tags))})
        n = 32
        if time.time() - t0 > patience or any(prop in x['blamed'] for x in findings):
            break
    return reps, seen, findings


def explore(prop, jobs, work, tier, keep, extra=None):
    """Generates, replays, judges.  Returns a dict with counts and violations."""
    t0 = time.time()
    gen_timeout = 700 if tier == 'quick' else 5 * 3600
    with cf.ThreadPoolExecutor(NCPU + 2) as ex:
        fb = ex.submit(build, work)
        fg = ex.submit(generate, jobs, work, gen_timeout)
        extras = [ex.submit(f, work) for f in (extra or [])]
        bin_ = fb.result()
        t1 = time.time()
        files, evaluated, unsound = fg.result()
        notes = [x.result() for x in extras]
    t2 = time.time()
    if unsound:      # the specification itself does not have the property: nothing the program does can be judged by it
        raise ToolError('the specification breaks its own invariant %s at step %d of %s' % (unsound[0]['inv'], unsound[0]['step'], unsound[0]['file']))
    try:
        reps, seen, findings = compare(bin_, files, work, 300 if tier == 'quick' else 3000, prop, 100 if tier == 'quick' else 1000)
    except Hang as h:
        f, what = str(h).split('|')
        findings, reps, seen = [{'text': 'the program %s on %s' % (what, f), 'file': f, 'step': None, 'tags': [('Hang', what, '')],
                                 'blamed': [prop]}], [], {}
    t3 = time.time()
    stats = {}
    for r in reps:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
    bad = [r for r in reps if r['diff'] or r['broken']]
    violations, known, other = [], [], []
    kf = known_findings(prop)
    for x in findings:
        if prop not in x['blamed']:
            other.append(x)
        elif kf and all(any(t == k['tag'] for k in kf) for t in x['tags']):
            known.append(x)
        else:
            violations.append(x)
    for v in violations[:1]:
        os.makedirs(keep, exist_ok=True)
        itf = json.load(open(v['file']))
        itf['states'] = itf['states'][:(v['step'] or len(itf['states'])) + 1]
        p = '%s/%s.itf.json' % (keep, prop)
        json.dump(itf, open(p, 'w'))
        v['replay'] = p
    log('# build %.0fs, generation %.0fs (both at once), replay and judging %.0fs' % (t1 - t0, t2 - t0, t3 - t2))
    return {'violations': violations, 'known': known, 'other': other, 'files': len(files), 'agree': len(reps) - len(bad), 'differ': len(bad),
            'stats': stats, 'evaluated': evaluated, 'steps': sum(stats.values()), 'seen': seen, 'extra': notes, 'sample_file': files[0]}
