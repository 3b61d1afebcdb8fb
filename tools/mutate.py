#!/usr/bin/env python3
"""mutate.py N SEED [FILE-REGEX]: small source changes, kept when they compile and pass the existing tests, against all suites.

Works in /tmp/mt (a copy of the repository and of the machinery); /repo is not touched.  The design models are explored once (their
scenarios do not depend on the code).  Prints one line per change: killed by the tests, caught (suite, property), or SURVIVED."""
import importlib.machinery, importlib.util, json, os, pickle, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mt'
def sh(c, t=600):
    try:
        return subprocess.run(c, shell=True, executable='/bin/bash', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 99, 'timeout', '')
OPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ 1\b', ' + 2'), (r' - 1\b', ' - 0'), (r'\+= 1\b', '+= 2'), (r'-= 1\b', '-= 2'), (r'saturating_add\(1\)', 'saturating_add(2)'),
       (r'if !', 'if '), (r'\bif (?!let\b)(?!!)([a-z])', r'if !\1'), (r'\bu8::MAX', 'u16::MAX'), (r'\bu16::MAX', 'u8::MAX'), (r'\bu24::MAX', 'u16::MAX'), (r'\bu32::MAX', 'u16::MAX'),
       (r'\b1 => ', '2 => '), (r'\b0x([0-9a-fA-F]+)\b', r'0x1\1'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'to_le_bytes', 'to_be_bytes'),
       (r'\.insert\(', '.get('), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.is_empty\(\)', '.is_empty() == false'), (r'Some\(', 'None.or(Some('),
       (r'\.min\(', '.max('), (r'\.contains_key\(', '.is_empty() || !m('), (r'\bfirst\b', 'rest'), (r'\bmin\b', 'max'), (r'\bkey\b', 'val'), (r'fields\[0\]', 'fields[1]'), (r'fields\[1\]', 'fields[0]'),
       (r'"none"', '"some"'), (r'"\."', '""'), (r'"\("', '"["'), (r'", "', '","'), (r'\bSet\b', 'List'), (r'\bList\b', 'Set'), (r'\bMapKey\b', 'MapValue'), (r'\bMapValue\b', 'MapKey'),
       (r'\.rev\(\)', ''), (r'\.filter\(\|', '.filter(|_| true).filter(|'), (r'\?;$', '.ok();'), (r'^(\s+)([a-z_.]+\(.*\);)$', r'\1'), (r'^(\s+)(self\.[a-z_.]+\(.*\)\??;)$', r'\1'), (r'^(\s+)(hasher\..*;)$', r'\1'),
       (r'^(\s+)(.*\.push\(.*\)\??;)$', r'\1'), (r'^(\s+)(.*= .*;)$', r'\1'), (r'^(\s+)write!?.*;$', r'\1'), (r'sem_id_named', 'sem_id_unnamed'), (r'continue;', 'break;'), (r'Uint', 'Int'), (r'tag', 'pos'), (r'pos', 'tag')]
AFF = [('value/path', ['path']), ('ast/path', ['path']), ('value/', ['val', 'form', 'part', 'path']), ('layout/', ['layout']), ('typesys/iter', ['layout']), ('typesys/', ['sys', 'art', 'text', 'list']),
       ('typelib/serialize', ['art', 'list']), ('typelib/id', ['id', 'build', 'text']), ('typelib/type_lib', ['ext', 'build', 'list', 'art']), ('typelib/', ['build', 'sym', 'ext']), ('ast/', ['id', 'query', 'own', 'build', 'list', 'layout', 'path', 'art']), ('', [])]
def candidates(rx):
    out = []
    for root, _, files in os.walk(W + '/repo/src'):
        for f in files:
            p = os.path.join(root, f); rel = os.path.relpath(p, W + '/repo')
            if 'bin/' in rel or rel.endswith(('src/stl.rs', 'macros.rs', 'lib.rs')) or not re.search(rx, rel): continue
            for n, line in enumerate(open(p).read().split('\n')):
                s = line.strip()
                if s.startswith('#[cfg(test)]'): break
                if not s or s.startswith(('//', '#', 'use ', 'pub use', '*', 'mod ', 'pub mod', 'impl', '}', 'panic!', 'assert')): continue
                for k, (a, b) in enumerate(OPS):
                    for m in re.finditer(a, line):
                        new = line[:m.start()] + m.expand(b) + line[m.end():]
                        if b.count('(') > b.count(')') and 'None.or' in b: continue
                        if new != line: out.append((rel, n, line, new))
    return sorted(set(out))
def main():
    N, seed, rx = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else '.'
    shutil.rmtree(W + '/repo', ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh('git clone -q /repo %s/repo; mkdir -p %s/verif && rsync -a --delete --exclude .build --exclude .git --exclude replays --exclude evidence --exclude seeded %s/ %s/verif/' % (W, W, V, W))
    sh("sed -i 's#\"/repo\"#\"%s/repo\"#' %s/verif/harness/Cargo.toml; sed -i \"s#^REPO = .*#REPO = '%s/repo'#\" %s/verif/bin/check" % (W, W, W, W))
    src = open(W + '/verif/bin/check').read().replace('sys.exit(main())', '')
    sys.path.insert(0, W + '/verif/bin')
    G = {'__file__': W + '/verif/bin/check', '__name__': 'chk'}
    exec(compile(src, 'check', 'exec'), G)
    print(sh('cd %s/verif && bin/check build' % W).stdout)
    work = W + '/work'; os.makedirs(work, exist_ok=True)
    scn = {}
    for s, S in G['SUITES'].items():
        c = '%s/%s.scn.pickle' % (W, s)
        if os.path.exists(c): scn[s] = pickle.load(open(c, 'rb')); continue
        q = list(G['corpus'](s))
        for m in S['mc']:
            q += G['MC_SCN'][m](G['run_mc'](m, 'quick', work)[2], 'quick', 1)
        random.Random(3).shuffle(q)
        scn[s] = q + G['generate'](s, 1, S['n']['quick'])
        pickle.dump(scn[s], open(c, 'wb'))
        print(s, len(scn[s]), flush=True)
    kf = G['known']()
    def bads(s):
        res = G['execute'](s, scn[s], work)
        return [b for b in res['bad'] if not any(G['matches'](f, dict(b, prop=p)) for f in kf for p in b['prop'].split(','))]
    if os.environ.get('BASE'):
        for s in scn:
            t = time.time(); b = bads(s); print('base', s, len(b), round(time.time() - t, 1), flush=True)
    cand = candidates(rx)
    random.Random(seed).shuffle(cand)
    print(len(cand), 'candidates', flush=True)
    done = killed = 0
    env = '. /opt/vp/env.sh; '
    log = open(W + '/results.ndjson', 'a')
    seen = set()
    for rel, n, old, new in cand:
        if done >= N: break
        if (rel, n) in seen: continue
        p = W + '/repo/' + rel
        L = open(p).read().split('\n'); assert L[n] == old
        L[n] = new; open(p, 'w').write('\n'.join(L))
        try:
            r = sh(env + 'cd %s/repo && CARGO_TARGET_DIR=%s/target cargo test --workspace --all-features --no-fail-fast --offline 2>&1' % (W, W), 300)
            if 'could not compile' in r.stdout: continue
            seen.add((rel, n))
            if r.returncode: killed += 1; continue
            done += 1
            b = sh('cd %s/verif && bin/check build' % W, 900)
            if b.returncode:
                print('NOBUILD %s:%d %s' % (rel, n + 1, new.strip()), b.stdout[-300:], flush=True); continue
            order = next(a for k, a in AFF if k in rel)
            order = order + [s for s in scn if s not in order]
            out = 'SURVIVED'
            for s in order:
                try:
                    x = bads(s)
                except G['ToolError'] as e:
                    out = 'TOOLERROR %s %s' % (s, str(e)[-600:]); break
                if x:
                    out = 'caught %s %s: %s' % (s, x[0]['prop'], x[0]['what']); break
            print('%s:%d | %s | %s | %s' % (rel, n + 1, old.strip(), new.strip(), out), flush=True)
            log.write(json.dumps(dict(file=rel, line=n + 1, old=old, new=new, out=out)) + '\n'); log.flush()
        finally:
            sh('cd %s/repo && git checkout -q -- .' % W)
    print('killed by the tests: %d, tried: %d' % (killed, done))
main()
