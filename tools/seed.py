#!/usr/bin/env python3
"""Makes and confirms planted bugs (kept in /verif/seeded). Usage: seed.py SPEC.py [ID...]
SPEC.py defines BUGS: id -> dict(property, needs, breaks, edits=[(file, old, new)...], demo=rust main, profile).
A bug is kept only if it applies, builds in both configurations, passes every existing test, and its
demonstration passes on the unchanged tree and fails on the changed one."""
import json, os, subprocess, sys, shutil, runpy
OUT = '/verif/seeded'
W = '/tmp/seed/work'
DEMO = '''#!/bin/bash
# Run with cwd = the repository. Exit 0 if the library behaves, nonzero otherwise.
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 9
trap 'rm -r "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
fuel-merkle = { path = "$repo"FEATURES }
fuel-storage = "0.3"
sha2 = "0.10"
[profile.release]
overflow-checks = false
TOML
cd "$d" || exit 9
cargo build --offline --quiet PROFILE 2>"$d/log" || { cat "$d/log"; exit 9; }
ulimit -v 8000000
timeout 120 "$d"/target/DIR/demo
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
env = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:' + os.environ['PATH'], CARGO_NET_OFFLINE='true')
def fresh():
    if not os.path.isdir(W):
        os.makedirs('/tmp/seed', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', W])
    head = subprocess.check_output(['git', 'rev-parse', 'HEAD'], cwd='/repo', text=True).strip()
    subprocess.check_call('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git checkout -q -- .', cwd=W, shell=True)
    assert subprocess.check_output(['git', 'rev-parse', 'HEAD'], cwd=W, text=True).strip() == head
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:] or list(bugs)
    for b in ids:
        s = bugs[b]
        fresh()
        try:
            for f, old, new in s['edits']:
                p = os.path.join(W, f)
                t = open(p).read()
                # only outside the test module
                cut = t.find('#[cfg(test)]')
                head, tail = (t, '') if cut < 0 else (t[:cut], t[cut:])
                assert head.count(old) == 1, f'{f}: {head.count(old)} matches of {old[:60]!r}'
                open(p, 'w').write(head.replace(old, new) + tail)
        except AssertionError as e:
            print(b, 'EDIT', e); continue
        patch = subprocess.check_output(['git', 'diff'], cwd=W, text=True)
        d = '/tmp/seed/stage-' + b
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        rel = s.get('profile', 'debug') == 'release'
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.sh', 'w').write(DEMO.replace('FEATURES', ', default-features = false' if s.get('nostd') else '').replace('PROFILE', '--release' if rel else '').replace('DIR', 'release' if rel else 'debug'))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('cargo test -p fuel-merkle -p fuel-merkle-test-helpers --no-fail-fast --offline 2>&1 | grep -E "^error|FAILED|failed|panicked|warning: unused" | head -12; cargo check -q --no-default-features --offline 2>&1 | grep -E "^error" -A5', W, env=env)
        bad = [l for l in r.stdout.splitlines() if 'FAILED' in l or l.startswith('error') or 'panicked' in l]
        if bad:
            print(b, 'TESTS', '\n   '.join(bad[:8])); continue
        r1 = sh(['bash', d + '/demo.sh'], W)
        fresh()
        r0 = sh(['bash', d + '/demo.sh'], W)
        if r0.returncode != 0 or r1.returncode in ((0,) if s.get('nobuild') else (0, 9)):
            print(b, f'DEMO unchanged {r0.returncode} changed {r1.returncode}\n', r0.stdout[-500:], r1.stdout[-500:]); continue
        shutil.rmtree(f'{OUT}/{b}', ignore_errors=True)
        shutil.copytree(d, f'{OUT}/{b}')
        print(b, 'kept:', r1.stdout.strip().splitlines()[:3])
main()
