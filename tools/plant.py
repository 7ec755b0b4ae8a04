#!/usr/bin/env python3
"""plant.py ID...: confirms planted bugs in a scratch copy of /repo.

Applies /verif/seeded/ID/patch.diff in a copy, builds it, runs the stable tests and the demonstration
there, and the demonstration in an unchanged copy. `plant.py --diff ID FILE <<< 'old===new'` makes the patch."""
import json, os, re, shutil, subprocess, sys, tempfile
SEEDED = '/verif/seeded'
SCRATCH = '/tmp/plant'
ENV = {'HOME': '/root', 'USER': 'root', 'LANG': 'C.UTF-8', 'PATH': '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
       'RUSTUP_TOOLCHAIN': 'stable', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'CARGO_INCREMENTAL': '1',
       'CARGO_PROFILE_DEV_DEBUG': 'line-tables-only', 'RUST_BACKTRACE': '0'}

def run(cmd, cwd, timeout=600, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')

def copy(name):
    d = f'{SCRATCH}/{name}/repo'
    os.makedirs(os.path.dirname(d), exist_ok=True)
    if not os.path.exists(d):
        subprocess.check_call(['cp', '-a', '/repo', d])
    subprocess.check_call(['git', '-C', d, 'checkout', '-q', '--', '.'])
    subprocess.check_call(['git', '-C', d, 'fetch', '-q', '/repo', 'HEAD'])
    subprocess.check_call(['git', '-C', d, 'checkout', '-q', '-f', 'FETCH_HEAD'])
    return d

def build(d):
    for c in ('cargo build --workspace --offline --locked', 'cargo test --workspace --no-run --offline --locked'):
        r = run(c.split(), d)
        if r.returncode:
            return r.stdout[-3000:]

def tests(d):
    tmp = tempfile.mkdtemp()
    r = run('cargo nextest run --workspace --offline --locked --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp'.split(), d, env=dict(ENV, TMPDIR=tmp))
    subprocess.call(['pkill', '-9', '-f', d + '/target/debug/ced'])
    shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode, r.stdout

def demo(d, bug):
    tmp = tempfile.mkdtemp()
    where = tmp + '/demo'
    shutil.copytree(f'{SEEDED}/{bug}', where, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    env = {k: v for k, v in ENV.items()}
    r = run(['bash', where + '/demo.sh'], d, timeout=300, env=env)
    left = run(['git', 'status', '--short'], d).stdout
    shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode, r.stdout, left

def original_lines(d, bug):
    """The changed lines which are not of the original repository."""
    base = '7cf36e4'
    bad = []
    p = open(f'{SEEDED}/{bug}/patch.diff').read()
    f, line = None, 0
    removed = 0
    for l in p.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif l.startswith('-') and not l.startswith('---'):
            line += 1
            removed += 1
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', f'{line},{line}', f], capture_output=True, text=True).stdout
            if not b.startswith('^' + base) and not b.startswith(base):
                bad.append(l)
        elif l.startswith(' '):
            line += 1
    return removed, bad

def main():
    if sys.argv[1] == '--diff':
        bug, f = sys.argv[2:4]
        old, new = sys.stdin.read().split('\n===\n')
        new = new.rstrip('\n'); old = old.rstrip('\n')
        d = copy('diff')
        s = open(f'{d}/{f}').read()
        assert s.count(old) == 1, f'{s.count(old)} occurrences'
        open(f'{d}/{f}', 'w').write(s.replace(old, new))
        os.makedirs(f'{SEEDED}/{bug}', exist_ok=True)
        diff = run(['git', 'diff'], d).stdout
        open(f'{SEEDED}/{bug}/patch.diff', 'a' if '--more' in sys.argv else 'w').write(diff)
        print(original_lines(d, bug))
        return
    clean = copy('clean')
    assert not build(clean)
    d = copy('bug')
    for bug in sys.argv[1:]:
        run(['git', 'checkout', '-q', '--', '.'], d)
        print(bug, 'changed lines, not original:', original_lines(d, bug))
        rc, out, left = demo(clean, bug)
        print('  demo unchanged:', rc, left)
        if rc:
            print(out[-2000:])
        r = run(['git', 'apply', f'{SEEDED}/{bug}/patch.diff'], d)
        assert r.returncode == 0, r.stdout
        e = build(d)
        if e:
            print('  DOES NOT BUILD', e)
            continue
        rc, out, left = demo(d, bug)
        print('  demo changed:', rc, left, '\n    ' + '\n    '.join(out.strip().splitlines()[-4:]))
        rc, out = tests(d)
        print('  tests:', rc, [l for l in out.splitlines() if 'tests run' in l or 'FAIL' in l][:6])
        run(['git', 'checkout', '-q', '--', '.'], d)

main()
