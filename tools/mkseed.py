#!/usr/bin/env python3
"""Makes and confirms planted bugs: mkseed.py <spec.py> [ids...].  The spec lists SEEDS = [dict(id, property, edits=[(file, old, new)],
main (Rust source of the demonstration) or script (bash), deps=[crate dirs], needs, breaks)].  Everything happens in a scratch copy."""
import sys, os, subprocess, json, importlib.util, tempfile, shutil
spec = importlib.util.spec_from_file_location('e', sys.argv[1]); e = importlib.util.module_from_spec(spec); spec.loader.exec_module(e)
only = sys.argv[2:]
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
W = os.environ.get('SEEDW', '/tmp/w')
DEMO = '''#!/bin/bash
# runs a small program against the crates in the current directory (the repository)
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 3
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
%s
[workspace]
T
(cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline -q)
rc=$?
find "$d" -delete
exit $rc
'''
EXTRA = {'unic-langid': 'unic-langid = "0.9"'}
os.makedirs(W, exist_ok=True)
env = dict(os.environ, CARGO_TARGET_DIR=W + '/tgt')
for s in e.SEEDS:
    if only and s['id'] not in only: continue
    shutil.rmtree(W + '/seed', ignore_errors=True); subprocess.run(['cp', '-a', '/repo', W + '/seed'])
    bad = False
    for f, old, new in s['edits']:
        p = W + '/seed/' + f; t = open(p).read()
        if t.count(old) < 1: print(s['id'], 'text not found:', old[:80]); bad = True; continue
        if t.count(old) > 1 and not s.get('multi'): print(s['id'], 'text not unique (%d)' % t.count(old), old[:80]); bad = True; continue
        open(p, 'w').write(t.replace(old, new, 1))
    if bad: continue
    subprocess.run('find . -name "*.rs" -not -path "./target/*" -exec touch {} +', shell=True, cwd=W + '/seed')
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', 'diff'], cwd=W + '/seed', capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    if 'main' in s:
        deps = '\n'.join(EXTRA[x] if x in EXTRA else '%s = { path = "$repo/%s" }' % (x, x) for x in s['deps'])
        open(d + '/demo.sh', 'w').write(DEMO % deps); open(d + '/main.rs', 'w').write(s['main'])
    else: open(d + '/demo.sh', 'w').write(s['script'])
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run('cargo test --offline --workspace --no-fail-fast 2>&1 | grep -E "^test .*FAILED|^error|could not compile" | head', shell=True, cwd=W + '/seed', env=env, capture_output=True, text=True)
    ok_tests = not r.stdout.strip()
    e2 = {k: v for k, v in os.environ.items() if k != 'CARGO_TARGET_DIR'}
    a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', env=e2, capture_output=True, text=True)
    b = subprocess.run(['bash', d + '/demo.sh'], cwd=W + '/seed', env=e2, capture_output=True, text=True)
    why = [l for l in b.stderr.split('\n') if 'panicked' in l or 'error' in l or 'assert' in l or 'left' in l or 'right' in l]
    c = subprocess.run([V + '/check.sh', s['property']], env=dict(os.environ, PR_REPO=W + '/seed', PR_BUILD=W + '/build', VERIF_EV=W + '/ev'), capture_output=True, text=True)
    cl = [l for l in c.stdout.split('\n') if l and not l.startswith('KNOWN')]
    print('%-14s tests:%s clean:%d patched:%d check:%d | %s | %s' % (s['id'], 'ok' if ok_tests else r.stdout.strip()[:200], a.returncode, b.returncode, c.returncode, ' '.join(why)[:160], (cl[0] if cl else c.stderr[-200:])[:200]))
    if a.returncode: print('   CLEAN DEMO FAILS', a.stderr[-600:])
