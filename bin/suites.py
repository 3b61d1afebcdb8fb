"""Which specification decides which property, and how much is run."""
import random

def build_scn(mscn, tier, seed):
    """histories of the model, grouped by program"""
    by = {}
    for s in sorted(mscn, key=str):
        by.setdefault(str(s['u']), (s['u'], []))[1].append(s)
    out = []
    for k, (u, hs) in enumerate(by.values()):
        alpha = [i + 1 for i, d in enumerate(u) if d['l'] == 'Alpha']
        runs = [dict(lib='Alpha', adds=alpha, deps=[], keep=True)]
        for h in hs:
            deps = [] if h['mode'] == 'absent' else [dict(name='Alpha', mode=h['mode'])]
            runs.append(dict(lib='Beta', adds=h['adds'], deps=deps, pick=len(runs)))
        out.append(dict(u=u, runs=runs, pick=k))
    if tier == 'quick':
        random.Random(seed).shuffle(out)
        out = out[:80]
    return out

def sys_scn(mscn, tier, seed):
    by = {}
    for s in sorted(mscn, key=str):
        by.setdefault(str(s['u']), (s['u'], []))[1].append(s['imports'])
    # number of imported libraries is that of the model; all histories of one program share a scenario
    return [dict(u=u, mods=[], imports=h[k:k + 30], pick=k) for u, h in by.values() for k in range(0, len(h), 30)]

def val_scn(mscn, tier, seed):
    out = []
    for s in sorted(mscn, key=str):
        v, b = s['vals'], s['bytes']
        for k in range(0, len(v), 80):
            out.append(dict(ty=s['ty'], vals=v[k:k + 80], bytes=[], pick=k))
        for k in range(0, len(b), 150):
            out.append(dict(ty=s['ty'], vals=[], bytes=b[k:k + 150], pick=k))
    random.Random(seed).shuffle(out)
    return out

def path_scn(mscn, tier, seed):
    s, out = mscn[0], []
    n = 2 if tier == 'quick' else 3
    for k, roots, steps in (('v', s['vals'], s['vsteps']), ('t', s['tys'], s['tsteps'])):
        out += [dict(k=k, roots=roots[i:i + 25], steps=steps, n=n, pick=i) for i in range(0, len(roots), 25)]
    return out

def way_scn(mscn, tier, seed):
    import itertools
    out = []
    for k in 'vt':
        ps = [list(p) for n in range(3 if tier == 'quick' else 4) for p in itertools.product(mscn[0][k], repeat=n)]
        out += [dict(k=k, paths=ps[i:i + 50], pick=seed + i) for i in range(0, len(ps), 50)]
    random.Random(seed).shuffle(out)
    return out

def ver_scn(mscn, tier, seed):
    import itertools
    s, frags = mscn[0], lambda x, n: [list(p) for k in range(n + 1) for p in itertools.product(x, repeat=k)]
    vs = [dict(v=v, pre=[], build=[]) for v in itertools.product(s['nums'], repeat=3)]
    n = 1 if tier == 'quick' else 2
    vs += [dict(v=[s['nums'][0]] * 3, pre=p, build=b) for p in frags(s['pre'], n) for b in frags(s['build'], 2)]
    random.Random(seed).shuffle(vs)
    words = ['stl', 'sta', 'sty', '--stl', '--sta', '--sty', '-stl', 'stl--', 'STL', 's', '', '--']
    args = [[]] + [[w] for w in words] + [[w, d] for w in words for d in ('stl', 'x', '--sta', '')] + [[w, 'd', 'e'] for w in words[:6]] + [['--stl', 'a', 'b', 'c']]
    return ([dict(vers=vs[i:i + 60], pick=seed + i) for i in range(0, len(vs), 60)]
            + [dict(args=args[i:i + 9]) for i in range(0, len(args), 9)] + [dict(formats=words + ['st', 'stll', ' stl', 'sty ', 'Sty', 'armored', 'binary', 'source'])])

def ext_scn(mscn, tier, seed):
    """one scenario per starting library and history (the outcomes are those of the code)"""
    seen = {}
    for s in mscn:
        ops = [{k: v for k, v in o.items() if k != 'k'} for o in s['ops']]
        seen.setdefault(str((s['lib'], ops)), dict(lib=s['lib'], ops=ops))
    return [seen[k] for k in sorted(seen)]

def each(mscn, tier, seed):
    return sorted(mscn, key=str)

def text_scn(mscn, tier, seed):
    return [dict(id=s['id'], mut=60, seed=seed + k, all=True) for k, s in enumerate(sorted(mscn, key=str))]

def art_scn(mscn, tier, seed):
    q = sorted(mscn, key=str)
    random.Random(seed).shuffle(q)
    if tier == 'quick':
        q = q[:12000]
    return [dict(bytes=q[k:k + 300]) for k in range(0, len(q), 300)]

def list_scn(mscn, tier, seed):
    q = sorted(mscn, key=str)
    random.Random(seed).shuffle(q)
    q = q[:3000 if tier == 'quick' else 20000]
    base = [dict(n=n, ty=dict(c='prim', p=1)) for n in 'AB']
    return [dict(sym=dict(name='L', deps=[], ext=[], types=base + [dict(n='T%03d' % i, ty=t) for i, t in enumerate(q[k:k + 60])]))
            for k in range(0, len(q), 60)]

def layout_scn(mscn, tier, seed):
    """many small systems put together; only their roots are listed"""
    q = sorted(mscn, key=str)
    random.Random(seed).shuffle(q)
    q, out = q[:1841 if tier == 'quick' else 12000], []
    for k in range(0, len(q), 60):
        part = q[k:k + 60]
        types = {t['id']: t for s in part for t in s['types']}
        syms = {(t['id'], t['lib'], t['name']): t for s in part for t in s['syms']}
        out.append(dict(sys=dict(types=[types[i] for i in sorted(types)], syms=[syms[i] for i in sorted(syms)]),
                        roots=sorted(set(s['root'] for s in part))))
    return out

def form_scn(mscn, tier, seed):
    docs = sorted((s['doc'] for s in mscn if 'doc' in s), key=str)
    vals = sorted((s for s in mscn if 'ty' in s), key=str)
    random.Random(seed).shuffle(vals)
    out, left = [], 12000 if tier == 'quick' else 150000
    for s in vals:
        v = sorted(s['vals'], key=str)
        random.Random(seed).shuffle(v)
        v = v[:60 if tier == 'quick' else 200]
        if left > 0:
            out.append(dict(ty=s['ty'], vals=v))
        left -= len(v)
    return out + [dict(docs=docs[k:k + 40]) for k in range(0, len(docs), 40)]

def query_scn(mscn, tier, seed):
    q = sorted(mscn, key=str)
    random.Random(seed).shuffle(q)
    q = q[:3000 if tier == 'quick' else 20000]
    return [dict(kind='sym', tys=q[k:k + 60], names=['none', 'some', 'a', 'zz']) for k in range(0, len(q), 60)]

def part_scn(mscn, tier, seed):
    q = sorted(mscn, key=str)
    rng = random.Random(seed)
    rng.shuffle(q)
    q = q[:9400 if tier == 'quick' else 60000]
    return [dict(vals=q[k:k + 60], keys=q[k:k + 60:20] + [dict(v='unit'), dict(v='str', b=[97])], nums=[], constants=k == 0)
            for k in range(0, len(q), 60)]

def own_scn(mscn, tier, seed):
    q = sorted(mscn, key=str)
    random.Random(seed).shuffle(q)
    if tier == 'quick':
        q = q[:12000]
    return [dict(raw=q[k:k + 300]) for k in range(0, len(q), 300)] + [dict(stl=1, pick=seed)]

MC_SCN = {'MC_Ver': ver_scn, 'MC_Way': way_scn, 'MC_Own': own_scn, 'MC_Query': query_scn, 'MC_Part': part_scn, 'MC_Form': form_scn, 'MC_Layout': layout_scn, 'MC_List': list_scn, 'MC_Art': art_scn, 'MC_Text': text_scn, 'MC_Sym': each, 'MC_Ext': ext_scn, 'MC_Path': path_scn, 'MC_Val': val_scn, 'MC_Build': build_scn, 'MC_Sys': sys_scn, 'MC_Id': lambda m, t, s: []}

SUITES = {
    'build': dict(trace='T_Build', mc=['MC_Build'], n=dict(quick=300, thorough=2000)),
    'sys': dict(trace='T_Sys', mc=['MC_Sys'], n=dict(quick=300, thorough=2000)),
    'id': dict(trace='T_Id', mc=['MC_Id'], n=dict(quick=400, thorough=3000)),
    'val': dict(trace='T_Val', mc=['MC_Val'], n=dict(quick=900, thorough=3000)),
    'path': dict(trace='T_Path', mc=['MC_Path'], n=dict(quick=300, thorough=1500)),
    'way': dict(trace='T_Way', mc=['MC_Way'], n=dict(quick=300, thorough=2000)),
    'ver': dict(trace='T_Ver', mc=['MC_Ver'], n=dict(quick=300, thorough=2000)),
    'ext': dict(trace='T_Ext', mc=['MC_Ext'], n=dict(quick=600, thorough=3000)),
    'sym': dict(trace='T_Sym', mc=['MC_Sym'], n=dict(quick=800, thorough=4000)),
    'text': dict(trace='T_Text', mc=['MC_Text'], n=dict(quick=400, thorough=2000)),
    'art': dict(trace='T_Art', mc=['MC_Art'], n=dict(quick=250, thorough=1500)),
    'form': dict(trace='T_Form', mc=['MC_Form'], n=dict(quick=800, thorough=6000)),
    'layout': dict(trace='T_Layout', mc=['MC_Layout'], n=dict(quick=800, thorough=5000)),
    'query': dict(trace='T_Query', mc=['MC_Query'], n=dict(quick=1000, thorough=6000)),
    'part': dict(trace='T_Part', mc=['MC_Part'], n=dict(quick=300, thorough=2000)),
    'own': dict(trace='T_Own', mc=['MC_Own'], n=dict(quick=250, thorough=2000)),
    'list': dict(trace='T_List', mc=['MC_List'], n=dict(quick=400, thorough=3000)),
}
PROPS = {
    'C01': dict(suites=['build'], must=['add', 'compile']),
    'C02': dict(suites=['build', 'id'], must=['compile', 'def', 'pair', 'lib', 'libpair', 'sysid']),
    'C03': dict(suites=['build', 'sym'], must=['compile']),
    'C04': dict(suites=['build', 'sym'], must=['tosym', 'recompile', 'damaged']),
    'C05': dict(suites=['sys'], must=['finalize']),
    'C06': dict(suites=['sys'], must=['extract', 'extend']),
    'C07': dict(suites=['sys'], must=['finalize', 'resolve', 'lookup']),
    'C08': dict(suites=['val'], must=['typify']),
    'C09': dict(suites=['val'], must=['encode', 'decode', 'native', 'stream'],
                assume=['numbers of at most 1024 bits', 'no floating-point numbers (not implemented, refused)']),
    'C10': dict(suites=['val'], must=['decode', 'stream'],
                assume=['lists of items without any encoding (unit) are tried with upper bounds up to 256 only: their cost is that of the bound']),
    'C11': dict(suites=['form'], must=['ston', 'trip', 'doc'], assume=['structure fields print in the order in which the value keeps them']),
    'C12': dict(suites=['path'], must=['vpath']),
    'C13': dict(suites=['path'], must=['tpath']),
    'C23': dict(suites=['way'], must=['way', 'wayload']),
    'C24': dict(suites=['ver'], must=['ver', 'verload', 'urn', 'format', 'args']),
    'C14': dict(suites=['layout'], must=['layout', 'byname'], assume=['at most 255 wrappers around one entry']),
    'C15': dict(suites=['art'], must=['obj', 'load', 'cut', 'altered', 'armor', 'file', 'deep']),
    'C16': dict(suites=['ext'], must=['import', 'populate', 'count']),
    'C18': dict(suites=['list', 'art'], must=['listing', 'file']),
    'C19': dict(suites=['sym'], must=['symcompile', 'symcount']),
    'C20': dict(suites=['query'], must=['ty', 'at', 'tag', 'name', 'ref']),
    'C21': dict(suites=['part'], must=['val', 'part', 'eq', 'from']),
    'C22': dict(suites=['own'], must=['own', 'stored', 'bytes']),
    'C17': dict(suites=['text'], must=['idtext', 'idparse']),
}
