"""Make and confirm planted bugs:  python3 selftest/mkseed.py [-k substr]   (definitions in seeds.py)
Writes /verif/seeded/<id>/ only when the change builds, passes the tests, and the demo tells it from the original."""
import argparse, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDS = []
CP = '/tmp/seedcopy'
DEMO = '''#!/bin/bash
# cwd: the repository. Builds demo.rs against the crate and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cp "$repo/rust-toolchain" "$work/rust-toolchain"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo-seed"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ozz-animation-rs = { path = "$repo" }
glam = "0.29"
glam-ext = "0.2"
serde_json = "1.0"
serde = "1.0"
rkyv = { version = "0.7", features = ["validation"] }
EOF
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-12-01 RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
cd "$work" || exit 3
cargo build --offline >"$work/log" 2>&1 || { tail -40 "$work/log"; exit 3; }
cd "$repo" && timeout 100 "$work/target/debug/demo-seed" || exit 1
if [ -f "$here/bad.rs" ]; then
    # a program the compiler has to refuse
    cp "$here/bad.rs" "$work/src/main.rs"
    cd "$work"
    if cargo build --offline >"$work/log" 2>&1; then echo "the misuse in bad.rs compiles"; exit 1; fi
    grep -q '^error\\[E05\|^error\\[E0277\|^error: lifetime\|^error\\[E0597\|^error\\[E0499' "$work/log" || { tail -40 "$work/log"; exit 3; }
fi
'''


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append((id, prop, needs, breaks, edits, demo))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def make(s, check):
    id, prop, needs, breaks, edits, demo = s
    sh('git checkout -q -- . && git clean -fdq', CP)
    d = '/tmp/seedwork/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    demo, *bad = demo if isinstance(demo, tuple) else (demo,)
    open(d + '/demo.rs', 'w').write(demo)
    for x in bad:
        open(d + '/bad.rs', 'w').write(x)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = sh(['bash', d + '/demo.sh'], CP)
    if r.returncode != 0:
        return 'demo fails on the original: ' + (r.stdout + r.stderr)[-1500:]
    for f, old, new in edits:
        p = os.path.join(CP, 'src', f)
        t = open(p).read()
        if old not in t:
            return 'edit does not apply: ' + old[:80]
        open(p, 'w').write(t.replace(old, new, 1))
    open(d + '/patch.diff', 'w').write(sh(['git', 'diff'], CP).stdout)
    r = sh(['bash', d + '/demo.sh'], CP)
    if r.returncode in (0, 3):
        return 'demo exit %d with the change: %s' % (r.returncode, (r.stdout + r.stderr)[-1500:])
    msg = (r.stdout + r.stderr).strip().split('\n')[-1][:150]
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    r = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seedcopy/target; cargo test --workspace --offline --no-fail-fast 2>&1 | grep -E "^test |error|panicked"', CP, env=env)
    bad = [l for l in r.stdout.split('\n') if 'FAILED' in l or l.startswith('error')]
    n = sum(1 for l in r.stdout.split('\n') if l.endswith('... ok'))
    if bad or n < 111:
        return 'tests: %d ok, %s' % (n, bad[:5])
    r = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seedcopy/target; cargo check --target wasm32-unknown-unknown --features "wasm nodejs" --offline 2>&1', CP, env=env)
    if r.returncode:
        return 'wasm does not build'
    out = os.path.join(VERIF, 'seeded', id)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    res = ''
    if check and os.path.exists(os.path.join(VERIF, 'checks', prop.lower() + '.py')):
        r = sh([sys.executable, os.path.join(VERIF, 'check.py'), prop], VERIF, env=dict(os.environ, VERIF_REPO=CP, VERIF_BUILD='/tmp/vst/b1', VERIF_OUT='/tmp/seedwork'))
        res = 'CAUGHT' if 'VIOLATION property=' + prop in r.stdout and 'cannot compile' not in r.stdout else 'MISSED\n' + r.stdout[-600:]
        res += '\n' + '\n'.join('    ' + l[:200] for l in r.stdout.split('\n') if l.startswith('  '))[:400]
    return 'kept (%s) %s' % (msg, res)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-k'); ap.add_argument('-n', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    sys.modules['mkseed'] = sys.modules['__main__']
    import seeds
    if not os.path.exists(CP):
        sh(['cp', '-a', '/repo', CP], '/')
    else:
        sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', CP)
    for s in SEEDS:
        if a.k and a.k not in s[0]:
            continue
        if not a.k and os.path.exists(os.path.join(VERIF, 'seeded', s[0])):
            continue
        print(s[0], make(s, not a.n), flush=True)
