"""seed.py: validates a planted bug in a scratch copy and stores it under seeded/<id>.
usage: seed.py FILE.py [id ...]   FILE.py defines SEEDS = {id: dict(prop, edits=[(file, old, new)], demo='rust source' or sh='...', files={name: text}, needs, breaks)}"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw/repo'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
LIB_SH = r'''#!/bin/bash
# builds demo.rs against the library in the current directory and runs it
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rusty-chromaprint = { path = "$repo/chromaprint" }
[workspace]
EOF
CARGO_TARGET_DIR="$repo/target" cargo build --offline -q --manifest-path "$work/Cargo.toml" --bin demo || exit 3
cp "$repo/target/debug/demo" "$work/demo"
(cd "$work" && timeout 250 ./demo)
'''
CLI_SH = r'''#!/bin/bash
# builds the command line tools of the current directory and runs demo.py with their paths
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cargo build --offline -q -p fpcalc -p compare || exit 3
cp "$here/demo.py" "$work/demo.py"
cp "$repo/target/debug/fpcalc" "$repo/target/debug/compare" "$work/"
(cd "$work" && timeout 250 python3 demo.py ./fpcalc ./compare)
'''


def sh(cmd, cwd=W, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def tests():
    r = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline'])
    ok = set(re.findall(r'^test (\S+).* \.\.\. ok', r.stdout, re.M))
    bad = set(re.findall(r'^test (\S+).* \.\.\. FAILED', r.stdout, re.M))
    return len(re.findall(r'^test .* \.\.\. ok', r.stdout, re.M)), bad, r


def put(f, s):
    open(f, 'w').write(s)


def one(id, s):
    if not os.path.exists(W):
        os.makedirs(os.path.dirname(W), exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', W])
    sh(['git', 'fetch', '-q', '/repo'])
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
    sh(['git', 'checkout', '-q', '-f', head])
    d = '/tmp/seedw/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if 'demo' in s:
        put(d + '/demo.rs', s['demo'])
        put(d + '/demo.sh', LIB_SH)
    elif 'py' in s:
        put(d + '/demo.py', s['py'])
        put(d + '/demo.sh', CLI_SH)
    if 'sh' in s:
        put(d + '/demo.sh', s['sh'])
        if os.path.exists(d + '/demo.rs'):
            os.remove(d + '/demo.rs')
    os.chmod(d + '/demo.sh', 0o755)
    if '@@EXPECT@@' in s.get('demo', ''):
        put(d + '/demo.rs', s['demo'].replace('@@EXPECT@@', ''))
        g = subprocess.run(['bash', d + '/demo.sh'], cwd=W, env=dict(ENV, GEN='1'), capture_output=True, text=True)
        put(d + '/demo.rs', s['demo'].replace('@@EXPECT@@', g.stdout.strip()))
    a = sh(['bash', d + '/demo.sh'])
    if a.returncode:
        print(id, 'DEMO FAILS ON UNCHANGED', a.stdout[-600:], a.stderr[-1500:])
        return False
    base = a.stdout
    for f, x, y in s['edits']:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(x) < 1:
            print(id, 'EDIT NOT FOUND', f, x[:80])
            return False
        put(p, t.replace(x, y, 1))
    try:
        n, bad, r = tests()
        if bad or n < 48:
            print(id, 'TESTS FAIL', n, sorted(bad)[:5], r.stderr[-800:] if not n else '')
            return False
        b = sh(['bash', d + '/demo.sh'])
        if b.returncode in (0, 3):
            print(id, 'DEMO DOES NOT FAIL', b.returncode, base[-300:], b.stdout[-300:], b.stderr[-600:])
            return False
        diff = sh(['git', 'diff']).stdout
        # the change must touch lines of the original repository
        old = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        orig = {l for f, _, _ in s['edits'] for l in sh(['git', 'show', '5c0669f:' + f]).stdout.splitlines()}
        if not any(l in orig for l in old):
            print(id, 'WARNING: no removed line is of the original repository')
        put(d + '/patch.diff', diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        dst = ROOT + '/seeded/' + id
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(id, 'OK', (b.stdout + b.stderr).strip()[-160:].replace('\n', ' | '))
        return True
    finally:
        sh(['git', 'checkout', '-q', '-f', head])


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for id in sys.argv[2:] or ns['SEEDS']:
        one(id, ns['SEEDS'][id])
