#!/usr/bin/env python3
"""mkseed.py <id> <property>: (re)creates patch.diff of /verif/seeded/<id> from the edits in edits.py-style
stdin JSON {"needs":..., "what":..., "edits":[[file, old, new]...], "demo": rust source}, and validates it in a scratch copy:
the patch builds, the stable tests pass, the demonstration passes without and fails with it."""
import json, os, subprocess, sys, tempfile, shutil
sid, prop = sys.argv[1:3]
d = json.load(sys.stdin)
dst = '/verif/seeded/' + sid
os.makedirs(dst, exist_ok=True)
tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
wt = tmp + '/repo'
subprocess.run(['cp', '-a', '/repo', wt], check=True)
subprocess.run(['git', '-C', wt, 'checkout', '-q', '--', '.'], check=True)
for f, old, new in d['edits']:
    p = os.path.join(wt, f)
    s = open(p).read()
    n = s.count(old)
    if n != 1: sys.exit('edit matches %d times in %s: %r' % (n, f, old[:80]))
    open(p, 'w').write(s.replace(old, new))
patch = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
open(dst + '/patch.diff', 'w').write(patch)
open(dst + '/demo.rs', 'w').write(d['demo'])
open(dst + '/demo.sh', 'w').write('''#!/bin/bash
# Builds demo.rs against the hash-trie crate in the current directory and runs it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hash-trie = { path = "$repo" }
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo build --offline -q 2> build.log || { rm -f Cargo.lock; cargo build --offline -q 2> build.log || { cat build.log; exit 3; }; }
( ulimit -v 8000000; timeout 60 ./target/debug/* 2>/dev/null ) || timeout 60 ./target/debug/demo
''')
json.dump({'property': prop, 'needs': d['needs'], 'what_it_breaks': d['what']}, open(dst + '/meta.json', 'w'), indent=1)
s = open(dst + '/demo.sh').read()
s = s[:s.rindex('( ulimit')] + 'ulimit -v 8000000\ntimeout 60 ./target/debug/demo\n'
open(dst + '/demo.sh', 'w').write(s)
os.chmod(dst + '/demo.sh', 0o755)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = sh('git -C %s apply --check %s/patch.diff' % ('/repo', dst)); print('applies', base.returncode, base.stderr[:300])
e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=tmp + '/target')
r = sh('cargo test --offline 2>&1 | grep -E "^test |test result|^error" ', cwd=wt, env=e)
failed = [l for l in r.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
passed = [l for l in r.stdout.splitlines() if l.startswith('test ') and '... ok' in l]
print('tests: %d ok, failed %s' % (len(passed), failed), [l for l in r.stdout.splitlines() if l.startswith('error')][:3])
a = sh('bash %s/demo.sh' % dst, cwd=wt); print('demo with patch: rc', a.returncode, (a.stdout + a.stderr)[-300:])
b = sh('bash %s/demo.sh' % dst, cwd='/repo'); print('demo without: rc', b.returncode, (b.stdout + b.stderr)[-300:])
shutil.rmtree(tmp)
good = base.returncode == 0 and not failed and len(passed) >= 22 and a.returncode != 0 and b.returncode == 0
print('GOOD' if good else 'BAD', sid)
