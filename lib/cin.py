"""The cinereus properties C01..C14."""
import itertools, json, random
import cingen as g, run
J = lambda x: json.dumps(x, separators=(',', ':'))

GUM = ('GumTrace', ['CaseOf <- TheCase'])
EDIT = ('EditTrace', ['EA <- CaseA', 'EB <- CaseB', 'EM <- CaseM'])

def fallback_run(c):
    return lambda i, why: J(dict(id=c[i]['id'], panic=why, pairs=[], fwd=[], bwd=[], ca=[], cb=[], len=0, emp=True, ops=[], ops2=[], pairs2=[]))
def fallback_hist(c):
    return lambda i, why: J(dict(id=c[i]['id'], panic=why, steps=[]))

def record(binary, cases, line, fallback, shards=run.JOBS, timeout=60):
    """-> [(cases, traces)] per shard, recorded in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    parts = run.shard(cases, shards)
    for p in parts:
        for i, c in enumerate(p): c['id'] = i + 1
    with ThreadPoolExecutor(run.JOBS) as ex:
        outs = list(ex.map(lambda p: run.drive(binary, [line(c) for c in p], timeout, fallback(p)), parts))
    return parts, outs

# alphabets for the exhaustive parts: (kind, text, opaque, props)
K2 = [(1, 0, 0, ()), (2, 0, 0, ())]
OPQ = [(1, 0, 0, ()), (1, 0, 1, ())]
PRP = [(1, 0, 0, ((1, 1),)), (1, 0, 0, ((1, 2),)), (1, 0, 0, ())]
TXT = [(1, 0, 0, ()), (9, 1, 0, ()), (9, 2, 0, ())]

def no_text_parents(t):
    return all(not (x[0] == 9 and x[4]) for x, _ in g.walk(t))
def exhaustive(nmax, alphabet, cfgs, hp, r=None, limit=None):
    ts = [t for t in g.all_trees(nmax, alphabet) if no_text_parents(t)]
    prs = [(a, b) for a in ts for b in ts]
    full = len(prs) * len(cfgs)
    combos = itertools.product(prs, cfgs)
    if limit and full > limit:
        idx = set(r.sample(range(full), limit)); combos = (c for i, c in enumerate(combos) if i in idx)
    return [g.case(a, b, th, mh, hp=hp) for (a, b), (th, mh) in combos], full, limit is None or full <= limit
CFG9 = [(th, mh) for th in (0, 50, 100) for mh in (0, 1, 2)]
# arenas that hold other nodes as well: arena indices that are powers of two apart
ROOMS = [0, 127, 255, 511, 1023, 4095, 32767, 65534, 65535, 70000, 131071]
CFG4 = [(50, 1), (0, 0), (100, 2), (25, 3)]

def layouts(r, cs, reps=(1, 1, 2)):
    for c in cs:
        if r.random() < .5: c['la'], c['lb'] = r.randint(1, 10**6), r.randint(1, 10**6)
        c['hm'] = r.choice([0, 1, 2, 3, 4])
        c['ra'], c['rb'] = r.choice(reps), r.choice(reps)
        if r.random() < .02: c['rma'], c['rmb'] = r.choice(ROOMS), r.choice(ROOMS)
        if r.random() < .3: c['ra'] = c['rb'] = 0        # plain Tree (if no node is opaque)
        if len(c['a']['par']) > 250 and r.random() < .7: c['ra'] = c['rb'] = 2
    return cs

def matching_cases(ck, r):
    """inputs for the properties of the matching"""
    q = ck.quick
    out, ex = [], []
    for name, nmax, al, cfgs, hp, lim in [
        ('kinds', 3, K2, CFG9, True, 2500 if q else None),
        ('kinds4', 4, K2, CFG4, True, 800 if q else 40000),
        ('opaque', 3, OPQ, CFG4, True, 1200 if q else None),
        ('props', 3, PRP, CFG4, False, 1200 if q else 20000),
        ('texts', 3, TXT, CFG4, True, 800 if q else None),
        ('shapes', 5, K2[:1], CFG4, True, 1200 if q else None)]:
        cs, full, complete = exhaustive(nmax, al, cfgs, hp, r, lim)
        ex.append(dict(space=f'all pairs of trees with at most {nmax} nodes over {len(al)} labels ({name}) x {len(cfgs)} configurations', size=full, covered=len(cs), complete=complete))
        out += cs
    k = 1 if q else 8
    few = 2 if ck.prop == 'C03' else 1
    out += [g.rcase(r, 8) for _ in range(1500 * k)]
    out += [g.rcase(r, 16, 6) for _ in range(1200 * k)]
    out += [g.rcase(r, 40, 15) for _ in range(250 * k)]
    out += [g.html(r, r.randint(16, 90)) for _ in range(200 * k)]
    out += [g.wide(r, r.randint(60, 90)) for _ in range(4 * k)]
    out += [g.deep(r, r.randint(30, 60)) for _ in range(8 * k)]
    out += [g.rcase(r, 130, 100) for _ in range(8 * k)]
    for _ in range(2 * k): out += [g.wide(r, r.randint(260, 300)), g.deep(r, r.randint(260, 300))]
    out += [g.sections(r, r.choice([20, 40, 80])) for _ in range(16 * k)]
    out += [g.sections(r, r.randint(110, 140)) for _ in range(few * k)] + [g.sections(r, r.randint(290, 340)) for _ in range((2 * few - 1) * k)]
    out += [g.shifted(r, r.choice([10, 20, 40])) for _ in range(16 * k)]
    out += [g.shifted(r, r.randint(140, 160)) for _ in range((2 * few - 2) * k)]
    out += [g.boxed(r, r.randint(20, 60)) for _ in range(40 * k)]
    ck.cov['exhaustive_parts'] = ex
    return layouts(r, out)

def identical_cases(ck, r):
    q = ck.quick
    out = []
    for al, nmax in ((K2, 4), (OPQ, 4), (PRP, 3), (TXT, 4)):
        for t in g.all_trees(nmax, al):
            if no_text_parents(t):
                for th, mh in (CFG9 if not q else r.sample(CFG9, 3)): out.append(g.case(t, t, th, mh, hp=r.random() < .5))
    k = 1 if q else 8
    for _ in range(2500 * k):
        s = g.Style(r)
        t = g.rtree(r, s, r.choice([5, 10, 20, 40]), [])
        out.append(g.case(t, t, *g.rcfg(r), hp=r.random() < .5))
    for _ in range(10 * k):
        c = g.wide(r, r.randint(60, 140)); c['b'] = c['a']; out.append(c)
        c = g.deep(r, r.randint(40, 90)); c['b'] = c['a']; out.append(c)
    for _ in range(2 * k):
        c = g.wide(r, r.randint(260, 300)); c['b'] = c['a']; out.append(c)
        c = g.deep(r, r.randint(260, 300)); c['b'] = c['a']; out.append(c)
    for _ in range(10 * k):
        s = g.Style(r); t = g.rtree(r, s, 300, []); out.append(g.case(t, t, *g.rcfg(r)))
    for c in out: c['th'] = min(c['th'], 100)       # a similarity of more than 1 does not exist
    return layouts(r, out)

def script_cases(ck, r, kinds, root, respect, only_given=False):
    """inputs for the properties of the script: computed and arbitrary matchings"""
    q = ck.quick
    k = 1 if q else 10
    out = []
    for n, lo, hi in ((2500, 2, 7), (1500, 5, 14), (300, 15, 40), (8, 90, 130)):
        for i in range(n * k):
            c = g.rcase(r, hi, lo)
            if only_given or r.random() < .6: g.given(r, c, kinds, root, respect)
            out.append(c)
    for _ in range(4 * k):
        for c in (g.wide(r, r.randint(60, 90)), g.deep(r, r.randint(30, 50))):
            if r.random() < .5: g.given(r, c, kinds, root, respect)
            out.append(c)
    for _ in range(3 * k):
        for c in (g.wide(r, r.randint(260, 300)), g.wide(r, r.randint(260, 300)), g.deep(r, r.randint(260, 300))):
            if only_given or r.random() < .5: g.given(r, c, kinds, root, respect)
            out.append(c)
    out += [g.html(r, r.randint(16, 90)) for _ in range(150 * k)]
    for _ in range(8 * k):
        for c in (g.sections(r, r.choice([10, 30, 60])), g.shifted(r, r.choice([10, 20, 40])), g.boxed(r, r.randint(20, 60)), g.boxed(r, r.randint(20, 60))):
            if only_given or r.random() < .5: g.given(r, c, kinds, root, respect)
            out.append(c)
    # every one-to-one matching between small trees
    ts = [t for t in g.all_trees(3, K2[:1] if root else OPQ)]
    small = []
    for a in ts:
        for b in ts:
            na, nb = g.size(a), g.size(b)
            for f in itertools.product(range(nb + 1), repeat=na):
                u = [y for y in f if y]
                if len(set(u)) != len(u) or (root and f[0] != 1): continue
                small.append((a, b, f))
    full = len(small)
    lim = 2500 if q else 60000
    if full > lim: small = r.sample(small, lim)
    for a, b, f in small:
        c = g.case(a, b, 50, 1); c['mode'] = 1; c['given'] = [(i + 1, y) for i, y in enumerate(f) if y]
        if respect and not respected(c): continue
        out.append(c)
    ck.cov['exhaustive_parts'] = [dict(space='all one-to-one matchings between trees of at most 3 nodes', size=full, covered=len(small), complete=full <= lim)]
    return layouts(r, out)
def respected(c):
    def opd(t):
        o = [False] * len(t['par'])
        for i in range(1, len(o)): o[i] = o[t['par'][i] - 1] or t['opq'][t['par'][i] - 1]
        return o
    a, b = opd(c['a']), opd(c['b'])
    return not any(a[x - 1] or b[y - 1] for x, y in c['given'])

def liar_cases(ck, r):
    k = 1 if ck.quick else 10
    out = []
    for n, lo, hi in ((3000, 2, 8), (1200, 6, 16), (150, 15, 40)):
        for _ in range(n * k):
            s = g.Style(r)
            a = g.rtree(r, s, r.randint(lo, hi), [])
            b = g.mutate(r, s, a, r.choice([1, 2, 4])) if r.random() < .7 else g.rtree(r, s, r.randint(lo, hi), None)
            out.append(g.case(a, b, *g.rcfg(r), liar=r))
    for a in g.all_trees(3, K2[:1]):
        for b in g.all_trees(3, K2[:1]):
            na, nb = g.size(a), g.size(b)
            for hs in itertools.product((1, 2), repeat=na + nb):
                c = g.case(a, b, *r.choice(CFG9), liar=r)
                c['a']['hash'], c['b']['hash'] = list(hs[:na]), list(hs[na:]); out.append(c)
    return layouts(r, out)

def nontrivial(c):
    return c['a']['par'] != c['b']['par'] or c['a']['kind'] != c['b']['kind'] or c['a']['prp'] != c['b']['prp'] or c['a']['txt'] != c['b']['txt']

def summarize(ck, cs):
    ck.cov['inputs'] = len(cs)
    ck.cov['inputs_with_differing_trees'] = sum(map(nontrivial, cs))
    ck.cov['inputs_with_opaque_nodes'] = sum(any(c['a']['opq']) or any(c['b']['opq']) for c in cs)
    ck.cov['largest_tree'] = max(max(len(c['a']['par']), len(c['b']['par'])) for c in cs)
    ck.cov['given_matchings'] = sum(c['mode'] == 1 for c in cs)

KEEP = ('id', 'a', 'b', 'th', 'mh', 'merkle', 'mode')
def finish_runs(ck, mods, cs, limit=None):
    binary = run.cargo('cin', 'cin-harness')
    parts, outs = record(binary, cs, g.line, fallback_run)
    ck.cov['samples'] = [dict(line=g.line(parts[0][0]), trace=outs[0][0][:600])]
    shards = [([J({k: c[k] for k in KEEP}) for c in p], o) for p, o in zip(parts, outs)]
    ck.validate(mods, shards)
    if ck.violation: attach(ck, parts, outs, g.line)
    return ck.finish()
def attach(ck, parts, outs, line):
    what, info = ck.violation
    s, i = info['shard'], info['case']
    if i is not None and 1 <= i <= len(parts[s]):
        info['input'] = {k: v for k, v in parts[s][i - 1].items()}
        info['line'] = line(parts[s][i - 1])
        info['trace'] = outs[s][i - 1]
        info['summary'] = f'input: {info["line"][:200]}'

def gum(inv, design):
    return (*GUM, ['InputsOk', *design, *inv], set(inv))
def edit(inv):
    return (*EDIT, ['InputsOk', *inv], set(inv))
def r_of(ck): return random.Random(f'{ck.seed}-{ck.prop}')
EDIT_INV = ['WellFormedInputs', 'Referable', 'Progress', 'Reproduces', 'AsideIsTemporary', 'Rooted']
def edit_design(ck):
    base = ['EA <- CaseEA', 'EB <- CaseEB', 'EM <- CaseEM']
    ck.design('EditMC', EDIT_INV, base + ['NA = 3', 'NB = 4', 'Kinds = {1}'], name='EditMC1')
    if not ck.quick:
        ck.design('EditMC', EDIT_INV, base + ['NA = 4', 'NB = 4', 'Kinds = {1, 2}'], name='EditMC2', timeout=3000)
        ck.design('EditMC', EDIT_INV, base + ['NA = 5', 'NB = 4', 'Kinds = {1}'], name='EditMC3', timeout=3000)

ASSUME_M = ['hashes honour the Merkle contract', 'similarity is the one of the harness property type (shared pairs over the larger set, 0 on differing tags)',
            'trees are well formed', 'thresholds are multiples of 1/4 or of 1/100 (a comparison is one correctly rounded division, so rationals decide it exactly)']
def C01(ck):
    ck.assumptions = ASSUME_M
    cs = matching_cases(ck, r_of(ck)); summarize(ck, cs)
    return finish_runs(ck, [gum(['C01'], ['C01Design'])], cs)
def C02(ck):
    cs = identical_cases(ck, r_of(ck)); summarize(ck, cs)
    return finish_runs(ck, [gum(['C02'], ['C02Design'])], cs)
def C03(ck):
    ck.assumptions = ASSUME_M
    cs = matching_cases(ck, r_of(ck)); summarize(ck, cs)
    return finish_runs(ck, [gum(['C03'], ['C01Design'])], cs)
def C04(ck):
    ck.assumptions = ASSUME_M
    cs = matching_cases(ck, r_of(ck)); summarize(ck, cs)
    return finish_runs(ck, [gum(['C04'], ['C04Design'])], cs)
def C05(ck):
    r = r_of(ck)
    k = 1 if ck.quick else 8
    cs = []
    for n, lo, hi in ((2500, 2, 8), (1500, 6, 16), (200, 15, 40)):
        for _ in range(n * k):
            s = g.Style(r); s.opq_p = r.choice([.1, .25, .5])
            a = g.rtree(r, s, r.randint(lo, hi), [])
            b = g.mutate(r, s, a, r.choice([1, 2, 4])) if r.random() < .8 else g.rtree(r, s, r.randint(lo, hi))
            cs.append(g.case(a, b, *g.rcfg(r), hp=r.random() < .5))
    ex, full, complete = exhaustive(3, OPQ, CFG4, True, r, 2500 if ck.quick else None)
    ck.cov['exhaustive_parts'] = [dict(space='all pairs of trees of at most 3 nodes, any nodes opaque, x 4 configurations', size=full, covered=len(ex), complete=complete)]
    cs = layouts(r, cs + ex)
    summarize(ck, cs)
    binary = run.cargo('cin', 'cin-harness')
    extra = []
    for c in cs[:len(cs) // 2]:
        d = json.loads(J(c)); g.given(r, d, False, r.random() < .5, False); extra.append(d)
    for name, mods, set_ in (('g', [gum(['C05'], ['C05Design']), edit(['C05'])], cs), ('e', [edit(['C05'])], extra)):
        parts, outs = record(binary, set_, g.line, fallback_run)
        ck.cov['samples'].append(dict(line=g.line(parts[0][0]), trace=outs[0][0][:600]))
        ck.validate(mods, [([J({k: c[k] for k in KEEP}) for c in p], o) for p, o in zip(parts, outs)], name=name)
        if ck.violation: attach(ck, parts, outs, g.line); break
    return ck.finish()
def script(inv, kinds=False, root=False, respect=False):
    def f(ck):
        edit_design(ck)
        cs = script_cases(ck, r_of(ck), kinds, root, respect); summarize(ck, cs)
        return finish_runs(ck, [edit([inv])], cs)
    return f
C06, C07, C08, C09 = (script(i) for i in ('C06', 'C07', 'C08', 'C09'))
C10 = script('C10', True, True, True)
def C14(ck):
    cs = liar_cases(ck, r_of(ck)); summarize(ck, cs)
    return finish_runs(ck, [gum(['C14'], ['C14Design']), edit(['C14'])], cs)

def C11(ck):
    r = r_of(ck)
    n = 220 if ck.quick else 2500
    def session(k):
        reqs = []
        for i in range(k):
            c = g.rcase(r, r.choice([6, 10, 20, 40]), 2)
            key = i + 1
            c['hm'] = r.choice([0, 1, 2, 3, 4])
            for v in range(5):
                d = dict(c, key=key)
                d['la'], d['lb'] = (0, 0) if v == 0 else (r.randint(1, 10**9), r.randint(1, 10**9))
                if r.random() < .03: d['rma'], d['rmb'] = r.choice(ROOMS), r.choice(ROOMS)
                d['ra'], d['rb'] = r.choice([0, 1, 2]), r.choice([0, 1, 2])
                if v in (1, 2): d['mode'] = 2; d['rb'] = d['ra'] = r.choice([0, 0, 1, 2])
                if d['mode'] == 2 and d['ra'] == 0 and any(c['a']['opq']) != any(c['b']['opq']): d['ra'] = d['rb'] = 1
                reqs.append(d)
        r.shuffle(reqs)
        return reqs
    def units(reqs):
        """some requests in pairs that take turns, each for a number of tree queries"""
        out, i = [], 0
        while i < len(reqs):
            if i + 1 < len(reqs) and r.random() < .15:
                k = r.choice([1, 2, 5, 20, 60, 200])
                out.append(([reqs[i], reqs[i + 1]], r.choice([(k, k), (k, 10**9), (k, 7), (r.randint(1, 300), r.randint(1, 300))]))); i += 2
            else: out.append(([reqs[i]], None)); i += 1
        return out
    sessions = [session(n) for _ in range(run.JOBS)]
    binary = run.cargo('cin', 'cin-harness')
    from concurrent.futures import ThreadPoolExecutor
    alls, todo = [], []
    for s in sessions:
        both = [dict(d) for d in s] + [dict(d) for d in r.sample(s, len(s) // 2)]   # second half: another process
        for i, d in enumerate(both): d['id'] = i + 1
        alls.append(both); todo.append(units(both))
    def uline(u): return g.line(u[0][0]) if u[1] is None else f'Q {u[1][0]} {u[1][1]} {g.line(u[0][0])} {g.line(u[0][1])}'
    def rec(us):
        m = len(us) * 2 // 3
        out = []
        for part in (us[:m], us[m:]):
            def lost(i, why):
                o = [fallback_run(part[i][0])(j, why) for j in range(len(part[i][0]))]
                return o[0] if len(o) == 1 else '{"two":[' + ','.join(o) + ']}'
            for l in run.drive(binary, [uline(u) for u in part], 60, lost):
                out += [J(x) for x in json.loads(l)['two']] if l.startswith('{"two":') else [l]
        return out
    with ThreadPoolExecutor(run.JOBS) as ex: outs = list(ex.map(rec, todo))
    ck.cov['overlapping_requests'] = sum(2 for us in todo for u in us if u[1])
    ck.cov['requests'] = sum(map(len, alls)); ck.cov['contents'] = n * run.JOBS
    ck.cov['samples'] = [dict(line=g.line(alls[0][0]), trace=outs[0][0][:600])]
    ck.validate([('Session', [], ['InputsOk', 'C11'], {'C11'})],
                [([J(dict(id=d['id'], key=d['key'], mode=d['mode'])) for d in a], o) for a, o in zip(alls, outs)])
    if ck.violation: attach(ck, alls, outs, g.line)
    return ck.finish()

# ------------------------------------------------------------------ histories
def store_history(r, n, mutate):
    made, dead, par, kids = 1, set(), {1: 0}, {1: []}
    ops = []
    def sub(x):
        o = [x]
        for k in kids[x]: o += sub(k)
        return o
    def out(x):
        if par[x]: kids[par[x]].remove(x)
        par[x] = 0
    for _ in range(n):
        live = [x for x in par if x not in dead]
        z = r.random() if mutate else 0
        if z < .5 or len(live) < 3:
            p = r.choice(live) if r.random() < .7 else live[-1]
            made += 1; par[made] = p; kids[made] = []; kids[p].append(made); ops.append(['add', p, 0]); continue
        if z < .56:
            made += 1; par[made] = 0; kids[made] = []; ops.append(['new', 0, 0]); continue
        x = r.choice([v for v in live if v != 1])
        if z < .62: out(x); ops.append(['det', x, 0])
        elif z < .66:
            s = sub(x); out(x); dead.update(s); ops.append(['rms', x, 0])
        elif z < .70:
            p = par[x]
            if not p: continue
            i = kids[p].index(x); kids[p][i:i + 1] = kids[x]
            for k in kids[x]: par[k] = p
            kids[x] = []; par[x] = 0; dead.add(x); ops.append(['rm', x, 0])
        else:
            sx = set(sub(x))
            t = [v for v in live if v not in sx]
            p = r.choice(t)
            # indextree panics when asked to put a node where it already is; that is not the code under test
            if par[x] and par[x] in (p, par[p]): out(x); ops.append(['det', x, 0])
            if z < .8: out(x); kids[p].append(x); par[x] = p; ops.append(['app', p, x])
            elif z < .88: out(x); kids[p].insert(0, x); par[x] = p; ops.append(['pre', p, x])
            elif par[p]:
                out(x); i = kids[par[p]].index(p) + (z >= .94); kids[par[p]].insert(i, x); par[x] = par[p]
                ops.append(['bef' if z < .94 else 'aft', p, x])
    return dict(id=0, ops=ops)
def store_line(c): return f'S {c["id"]} {int(c["last"])} {c.get("room", 0)} {len(c["ops"])} ' + ' '.join(f'{a} {b} {d}' for a, b, d in c['ops'])
def C12(ck):
    r = r_of(ck)
    q = ck.quick
    k = 1 if ck.quick else 12
    cs = []
    # every order of adding up to 5 (6) children: all recursive trees
    top = 5 if ck.quick else 7
    for n in range(1, top + 1):
        for ps in itertools.product(*[range(1, i + 2) for i in range(n)]): cs.append(dict(id=0, ops=[['add', p, 0] for p in ps]))
    ck.cov['exhaustive_parts'] = [dict(space=f'all add_child histories of at most {top} additions', size=len(cs), covered=len(cs), complete=True)]
    for _ in range(400 * k): cs.append(store_history(r, r.randint(5, 14), True))
    for _ in range(40 * k): cs.append(store_history(r, r.randint(20, 50), True))
    for _ in range(10 * k): cs.append(store_history(r, 40, False))
    cs = [dict(c, last=False, room=r.choice(ROOMS) if r.random() < .03 else 0) for c in cs if c['ops']]
    # large trees, observed once
    for _ in range(1 if q else 4):
        for shape in ('deep', 'wide', 'any'):
            n = r.randint(257, 280)
            cs.append(dict(id=0, last=True, ops=[['add', i if shape == 'deep' else 1 if shape == 'wide' else max(1, i - r.choice([0, 0, 1, 3, 20])), 0] for i in range(1, n)]))
    binary = run.cargo('cin', 'cin-harness')
    parts, outs = record(binary, cs, store_line, fallback_hist)
    ck.cov['histories'] = len(cs); ck.cov['operations'] = sum(len(c['ops']) for c in cs)
    ck.cov['samples'] = [dict(line=store_line(parts[0][-1]), trace=outs[0][-1][:400])]
    ck.validate([('TreeStoreTrace', [], ['InputsOk', 'Design', 'C12'], {'C12'})], [([J(c) for c in p], o) for p, o in zip(parts, outs)])
    if ck.violation: attach(ck, parts, outs, store_line)
    return ck.finish()
def pairing_line(c): return f'P {c["id"]} {c["size"]} {c.get("stride", 4)} {c["capa"]} {c["capb"]} {len(c["adds"])} ' + ' '.join(f'{a} {b}' for a, b in c['adds'])
def C13(ck):
    r = r_of(ck)
    cs = []
    n = 3 if ck.quick else 4
    for m in range(n + 1):     # exhaustive: all histories over n+n nodes, several capacities
        for xs in itertools.permutations(range(1, n + 1), m):
            for ys in itertools.permutations(range(1, n + 1), m):
                for cap in ((-1, -1), (-2, -2), (0, 0), (1, 3), (n, n), (9, 1)): cs.append(dict(id=0, size=n, capa=cap[0], capb=cap[1], adds=list(zip(xs, ys))))
    ck.cov['exhaustive_parts'] = [dict(space=f'all one-to-one addition histories over {n}+{n} nodes x 6 capacities', size=len(cs), covered=len(cs), complete=True)]
    for _ in range(600 if ck.quick else 6000):
        size = r.choice([4, 8, 20, 40])
        m = r.randint(0, min(size, 14))
        cap = r.choice([(-1, -1), (-2, -2), (0, 0), (r.randint(0, size), r.randint(0, size)), (size, size), (size * 2, 1)])
        cs.append(dict(id=0, size=size, capa=cap[0], capb=cap[1], adds=list(zip(r.sample(range(1, size + 1), m), r.sample(range(1, size + 1), m)))))
    for i in range(24 if ck.quick else 200):
        size = r.choice([150, 300, 600])
        xs, ys = (r.sample(range(1, size + 1), 10) for _ in 'ab')
        if i % 3 == 1: xs.sort()
        if i % 3 == 2: ys.sort()
        cap = r.choice([(-1, -1), (0, 10), (200, 3), (64, 130)])
        cs.append(dict(id=0, size=size, capa=cap[0], capb=cap[1], adds=list(zip(xs, ys))))
    for c in cs:
        if c['capa'] < 0: c['capb'] = c['capa']
        if r.random() < .08 and 5 <= c['size'] <= 20: c['stride'] = r.choice([64, 128, 256, 1024, 4096, 32768, 65536, 131072])
    binary = run.cargo('cin', 'cin-harness')
    parts, outs = record(binary, cs, pairing_line, fallback_hist)
    ck.cov['histories'] = len(cs)
    ck.cov['samples'] = [dict(line=pairing_line(parts[0][-1])[:300], trace=outs[0][-1][:300])]
    ck.validate([('Pairing', [], ['InputsOk', 'C13'], {'C13'})], [([J(c) for c in p], o) for p, o in zip(parts, outs)])
    if ck.violation: attach(ck, parts, outs, pairing_line)
    return ck.finish()
