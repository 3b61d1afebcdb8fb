#!/usr/bin/env python3
"""plant.py new ID PROPERTY DEMO.rs NEEDS BREAKS   make seeded/ID from the difference between /tmp/plant and /repo
   plant.py verify ID...            confirm in a scratch copy: applies, builds, passes the stable tests, demo 0 / non-zero
   plant.py try ID... [-- PROP...]  run the check(s) of its property against a scratch copy which has the change"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
CARGO = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
strict_types = { path = "@REPO@", features = ["all"] }
strict_encoding = "~2.9.1"
amplify = "~4.9.0"
serde_json = "1.0"
serde_yaml = "0.9"
indexmap = "2.6.0"
ascii-armor = "0.9.0"
'''
SH = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken; run in the repository's root
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
. /opt/vp/env.sh
t=$(mktemp -d /tmp/strict-types-demo.XXXXXX); mkdir -p $t/src
trap 'rm -rf "$t"' EXIT
cp "$here/main.rs" $t/src/main.rs
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > $t/Cargo.toml
cp "$here/Cargo.lock" $t/Cargo.lock
cd $t && CARGO_TARGET_DIR=$t/target timeout 250 cargo run -q --offline
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def new(i, prop, demo, needs, breaks):
    d = os.path.join(S, i); os.makedirs(d, exist_ok=True)
    r = sh('git -C /tmp/plant diff'); assert r.stdout.strip(), 'no change'
    open(d + '/patch.diff', 'w').write(r.stdout)
    shutil.copy(demo, d + '/main.rs')
    open(d + '/Cargo.toml.in', 'w').write(CARGO)
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(os.path.join(S, 'Cargo.lock') if os.path.exists(os.path.join(S, 'Cargo.lock')) else V + '/harness/Cargo.lock', d + '/Cargo.lock')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
def scratch():
    if not os.path.exists('/tmp/plant'): sh('cp -a /repo /tmp/plant')
    sh('cd /tmp/plant && git fetch -q %s HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq' % os.environ.get('PLANT_SRC', '/repo'))
def stable():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
def verify(i):
    d = os.path.join(S, i)
    scratch()
    env = '. /opt/vp/env.sh; cd /tmp/plant; '
    a = sh('cd /tmp/plant && timeout 290 %s/demo.sh' % d)
    if a.returncode: return 'demo fails on the unchanged tree\n' + a.stdout[-1500:]
    r = sh('cd /tmp/plant && git apply --check %s/patch.diff && git apply %s/patch.diff' % (d, d))
    if r.returncode: return 'does not apply ' + r.stdout
    t = sh('bash -c "%s cargo test --workspace --all-features --no-fail-fast --offline 2>&1"' % env)
    ok = t.stdout.count('test result: ok'); bad = t.returncode
    b = sh('cd /tmp/plant && timeout 290 %s/demo.sh' % d)
    sh('cd /tmp/plant && git checkout -q -f .')
    if bad: return 'tests fail\n' + '\n'.join(x for x in t.stdout.split('\n') if 'FAILED' in x or 'error' in x or 'panicked' in x)[:1500]
    if b.returncode == 0: return 'demo passes with the patch'
    return 'ok (demo with patch: %s)' % (b.stdout.strip().split('\n')[-1][:150])
def attempt(i, props):
    """in a copy of the machinery bound to the scratch copy of the repository"""
    d = os.path.join(S, i)
    m = json.load(open(d + '/meta.json'))
    scratch()
    sh('mkdir -p /tmp/wt && rsync -a --delete --exclude .build --exclude .git --exclude replays --exclude evidence --exclude seeded %s/ /tmp/wt/' % V)
    sh("sed -i 's#\"/repo\"#\"/tmp/plant\"#' /tmp/wt/harness/Cargo.toml; sed -i \"s#^REPO = .*#REPO = '/tmp/plant'#\" /tmp/wt/bin/check")
    r = sh('cd /tmp/plant && git apply %s/patch.diff' % d)
    assert not r.returncode, r.stdout
    out = []
    try:
        for p in props or [m['property']]:
            r = sh('cd /tmp/wt && bin/check %s quick' % p)
            v = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION') or x.startswith('  ') or x.startswith('ERROR')]
            out.append('%s: rc=%d %s' % (p, r.returncode, ' '.join(v[:2])[:400] if v else r.stdout[-300:]))
    finally:
        sh('cd /tmp/plant && git checkout -q -- .')
    return ' | '.join(out)
a = sys.argv[1:]
if a[0] == 'new': new(*a[1:])
elif a[0] == 'scratch': scratch()
elif a[0] == 'verify':
    for i in a[1:]: print(i, verify(i), flush=True)
else:
    k = a.index('--') if '--' in a else len(a)
    for i in a[1:k]: print(i, attempt(i, a[k + 1:]), flush=True)
