"""link.py DEMO.rs OUT: builds the program from the current directory and a demonstration against it."""
import json, os, subprocess, sys
src, out = sys.argv[1:3]
repo = os.getcwd()
e = dict(os.environ)
e.update(HOME='/root', RUSTUP_TOOLCHAIN='1.78.0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
         CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
for k in ('BPF_OUT_DIR', 'SBF_OUT_DIR', 'CARGO_TARGET_DIR'):
    e.pop(k, None)
p = subprocess.run(['cargo', 'build', '--workspace', '--lib', '--examples', '--features', 'rewards/test-sbf', '--offline', '--locked', '--message-format=json'],
                   cwd=repo, env=e, stdout=subprocess.PIPE, text=True)
if p.returncode:
    sys.exit(3)
libs = {}
for l in p.stdout.splitlines():
    try:
        d = json.loads(l)
    except ValueError:
        continue
    if d.get('reason') == 'compiler-artifact' and not d['profile']['test']:
        for f in d['filenames']:
            if f.endswith('.rlib'):
                libs[d['target']['name'].replace('-', '_')] = f
cmd = ['rustc', '--edition', '2021', '-A', 'warnings', '-C', 'overflow-checks=on', '--crate-name', 'demo', src, '-o', out,
       '-L', 'dependency=' + repo + '/target/debug/deps', '-L', 'dependency=' + repo + '/target/debug']
for n in ('mplx_rewards', 'solana_program', 'spl_token', 'rewards'):
    if n in libs:
        cmd += ['--extern', n + '=' + libs[n]]
sys.exit(subprocess.run(cmd, env=e, cwd=repo).returncode and 3)
