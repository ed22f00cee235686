"""Inputs for the cinereus checks. A tree is [kind, text, opaque, props, kids] (nested lists)."""
import itertools, random

def node(kind, text=0, opq=0, props=None, kids=None):
    return [kind, text, opq, props or [], kids or []]
def copy(t): return [t[0], t[1], t[2], list(t[3]), [copy(k) for k in t[4]]]
def size(t): return 1 + sum(size(k) for k in t[4])
def walk(t, parent=None):
    out, stack = [], [(t, parent)]
    while stack:
        x, p = stack.pop()
        out.append((x, p))
        for k in reversed(x[4]): stack.append((k, x))
    return out

def encode(t, hashes, hp):
    """document-order arrays + hash classes (hp: properties are part of the hash)"""
    par, pos, ch, kind, txt, opq, prp, order = [], [], [], [], [], [], [], []
    stack = [(t, 0, 0)]
    while stack:
        x, p, i = stack.pop()
        par.append(p); pos.append(i); ch.append([]); kind.append(x[0]); txt.append(x[1])
        opq.append(bool(x[2])); prp.append([list(e) for e in x[3]]); order.append(x)
        me = len(par)
        if p: ch[p - 1].append(me)
        for j in range(len(x[4]) - 1, -1, -1): stack.append((x[4][j], me, j))
    n = len(par)
    sz, ht, hs = [1] * n, [0] * n, [0] * n
    for i in range(n - 1, -1, -1):
        key = (kind[i], txt[i], tuple(map(tuple, prp[i])) if hp else None, tuple(hs[c - 1] for c in ch[i]))
        hs[i] = hashes.setdefault(key, len(hashes) + 1)
        if par[i]:
            q = par[i] - 1
            sz[q] += sz[i]; ht[q] = max(ht[q], ht[i] + 1)
    return dict(par=par, pos=pos, ch=ch, sz=sz, ht=ht, kind=kind, txt=txt, opq=opq, hash=hs, prp=prp)

def case(a, b, th, mh, hp=True, liar=None):
    h = {}
    c = dict(id=0, a=encode(a, h, hp), b=encode(b, h, hp), th=th, mh=mh, merkle=True, mode=0, ra=1, la=0, rb=1, lb=0, given=[])
    if liar:
        c['merkle'] = False
        for t in (c['a'], c['b']):
            t['hash'] = [liar.choice([x, 1 + x % 3, liar.randint(1, 4)]) for x in t['hash']]
    return c

def hashval(h, mode):
    """hash classes to u64, one-to-one; the modes differ in which bits tell two hashes apart"""
    if mode == 1: return (h << 40) & M64
    if mode == 2: return h - 1
    if mode == 3: return M64 - h
    if mode == 4: return ((h & 0xffff) << 48 | h >> 16) ^ 0x5a5a
    return (h * 0x9E3779B97F4A7C15 & M64) ^ 0x5bd1e995
M64 = 2**64 - 1
def line(c):
    hm = c.get('hm', 0)
    def tr(t):
        o = [len(t['par'])]
        for i in range(len(t['par'])):
            o += [t['par'][i], t['kind'][i], t['txt'][i], int(t['opq'][i]), hashval(t['hash'][i], hm), len(t['prp'][i])]
            for k, v in t['prp'][i]: o += [k, v]
        return o
    g = c['given']
    return 'R ' + ' '.join(map(str, [c['id'], c['mode'], c['ra'], c['la'], c['rb'], c['lb'], c.get('rma', 0), c.get('rmb', 0), c['th'], c['mh']] + tr(c['a']) + tr(c['b'])
                                   + [len(g)] + [x for p in g for x in p]))

# ------------------------------------------------------------------ exhaustive small trees
def shapes(n):
    """all ordered trees with n nodes as nested tuples"""
    if n == 1: return [()]
    out = []
    for f in forests(n - 1): out.append(f)
    return out
def forests(n):
    if n == 0: return [()]
    out = []
    for k in range(1, n + 1):
        for t in shapes(k):
            for f in forests(n - k): out.append((t,) + f)
    return out
def label(shape, it):
    l = next(it)
    return node(l[0], l[1], l[2], [list(e) for e in l[3]], [label(s, it) for s in shape])
def all_trees(nmax, alphabet):
    """alphabet: list of (kind, text, opaque, props)"""
    for n in range(1, nmax + 1):
        for s in shapes(n):
            for ls in itertools.product(alphabet, repeat=n):
                yield label(s, iter(ls))

# ------------------------------------------------------------------ random trees
class Style:
    def __init__(s, r):
        s.kinds = r.choice([1, 2, 2, 3, 5])
        s.texts = r.choice([1, 2, 3, 8])
        s.text_p = r.choice([0, .2, .4])
        s.tags = r.choice([0, 0, 1, 2, 3])      # key 0, 0 = never given
        s.keys = 40 if r.random() < .03 else r.choice([0, 0, 1, 3, 5])
        s.vals = r.choice([1, 2, 3])
        s.opq_p = r.choice([0, 0, 0, .05, .2])
        s.wild = r.random() < .15               # texts on any node
        s.branch = r.choice([1.2, 2, 3, 6])
def rprops(r, s):
    p = []
    if s.tags: p.append([0, r.randint(1, s.tags)])
    if s.keys:
        ks = [k for k in range(1, s.keys + 1) if r.random() < .6]
        if r.random() < .3: r.shuffle(ks)
        p += [[k, r.randint(1, s.vals)] for k in ks]
    return p
def rnode(r, s):
    if r.random() < s.text_p and not s.wild:
        return node(9, r.randint(1, s.texts))
    return node(r.randint(1, s.kinds), r.choice([0, r.randint(1, s.texts)]) if s.wild else 0, int(r.random() < s.opq_p), rprops(r, s))
def rtree(r, s, n, pool=None):
    root = node(r.randint(1, s.kinds), 0, int(r.random() < s.opq_p * .3), rprops(r, s))
    inner, cnt = [root], 1
    while cnt < n:
        p = r.choice(inner[-max(1, int(len(inner) / s.branch)):]) if r.random() < .6 else r.choice(inner)
        if pool and r.random() < .35:
            k = copy(r.choice(pool))
            if cnt + size(k) > n + 4: k = rnode(r, s)
        else: k = rnode(r, s)
        p[4].insert(r.randint(0, len(p[4])) if r.random() < .3 else len(p[4]), k)
        cnt += size(k)
        if k[0] != 9 and not k[4]: inner.append(k)
        if pool is not None and r.random() < .3: pool.append(copy(k))
    return root
def isanc(x, y): return any(n is y for n, _ in walk(x))
def mutate(r, s, t, steps):
    t = copy(t)
    for _ in range(steps):
        all_ = walk(t)
        x, p = r.choice(all_)
        inner = [n for n, _ in all_ if n[0] != 9]
        op = r.randrange(15)
        ix = next((i for i, k in enumerate(p[4]) if k is x), 0) if p else 0
        if op == 0 and p: del p[4][ix]
        elif op == 1 and p: p[4][ix:ix + 1] = x[4]
        elif op == 2:
            q = r.choice(inner); q[4].insert(r.randint(0, len(q[4])), rtree(r, s, r.randint(1, 4)) if r.random() < .5 else rnode(r, s))
        elif op == 3 and p:
            q = r.choice(inner)
            if not isanc(x, q):
                del p[4][ix]; q[4].insert(r.randint(0, len(q[4])), x)
        elif op == 4 and p and len(p[4]) > 1:
            j = r.randrange(len(p[4])); p[4][ix], p[4][j] = p[4][j], p[4][ix]
        elif op == 5 and x[0] != 9: x[3] = rprops(r, s)
        elif op == 6 and x[3]:
            e = r.choice(x[3]); z = r.random()
            if z < .5: e[1] = r.randint(1, s.vals + 1)
            elif z < .75: x[3].remove(e)
            else: r.shuffle(x[3])
        elif op == 7:
            if x[1] or s.wild: x[1] = r.randint(1, s.texts + 1) if (x[0] == 9 or r.random() < .7) else 0
        elif op == 8 and x[0] != 9: x[0] = r.randint(1, s.kinds)
        elif op == 9 and p: p[4][ix] = node(r.randint(1, s.kinds), 0, int(r.random() < s.opq_p), rprops(r, s), [x])
        elif op == 10:
            q = r.choice(inner); k = copy(x)
            if size(k) < 12: q[4].insert(r.randint(0, len(q[4])), k)
        elif op == 11 and s.opq_p and x[0] != 9: x[2] = 1 - x[2]
        elif op == 12 and len(x[4]) > 1: x[4].append(x[4].pop(0))
        elif op == 13 and len(x[4]) > 1: x[4].reverse()
        elif op == 14 and p and x[4]:
            # former parent below its former child: p(x(y..)) -> x'(p'..): swap labels and keep children lists
            y = x[4][0]
            if y[0] != 9:
                del x[4][0]; p[4][ix] = y; y[4].insert(0, x)
    return t
THS = [0, 25, 50, 50, 50, 75, 100] * 2 + [125, -25, 30, 33, 60, 67, 80]
MHS = [0, 1, 1, 1, 2, 3, 7] * 2 + [1000]
def rcfg(r): return (50, 1) if r.random() < .4 else (r.choice(THS), r.choice(MHS))
def rcase(r, nmax, nmin=2):
    s = Style(r)
    pool = [] if r.random() < .6 else None
    n = r.randint(nmin, nmax)
    a = rtree(r, s, n, pool)
    z = r.random()
    if z < .8: b = mutate(r, s, a, r.choice([1, 1, 2, 3, 5, 8]))
    elif z < .9: b = rtree(r, s, r.randint(nmin, nmax), pool)
    else: b = copy(a)
    if r.random() < .5: a, b = b, a
    return case(a, b, *rcfg(r), hp=r.random() < .5)
def wide(r, n):
    s = Style(r); s.opq_p = 0; s.keys = min(s.keys, 3)
    root = node(1, kids=[rnode(r, s) for _ in range(n)])
    for k in root[4]:
        if k[0] != 9 and r.random() < .3: k[4] = [rnode(r, s) for _ in range(r.randint(1, 3))]
    b = mutate(r, s, root, r.randint(1, 6))
    if n > 256 and len(b[4]) > 258 and r.random() < .7:
        # one of them, unlike all others, 256 places further on
        i = r.randint(0, len(b[4]) - 258)
        k = node(1, 0, 0, [[1, 9]], [node(9, 77)])
        root[4][i] = k; b[4][i] = copy(k)
        b[4].insert(i + 256, b[4].pop(i))
    return case(root, b, *rcfg(r), hp=r.random() < .5)
def deep(r, n):
    s = Style(r); s.opq_p = 0; s.keys = min(s.keys, 3)
    t = rnode(r, s); 
    for _ in range(n):
        kids = [t]
        if r.random() < .3: kids.insert(r.randint(0, 1), rnode(r, s))
        t = node(r.randint(1, s.kinds), 0, 0, rprops(r, s), kids)
    return case(t, mutate(r, s, t, r.randint(1, 4)), *rcfg(r), hp=r.random() < .5)
def html(r, n):
    """looks like documents: lists, paragraphs with text, sections"""
    s = Style(r); s.kinds, s.tags, s.keys, s.text_p = 1, 4, 2, .5
    def block(d):
        z = r.random()
        if d > 3 or z < .3: return node(1, 0, int(r.random() < .06), rprops(r, s), [node(9, r.randint(1, 4)) for _ in range(r.choice([0, 1, 1, 2]))])
        return node(1, 0, int(r.random() < .04), rprops(r, s), [block(d + 1) if r.random() < .8 else node(9, r.randint(1, 4)) for _ in range(r.randint(1, 4))])
    a = node(1, kids=[block(0) for _ in range(max(1, n // 8))])
    return case(a, mutate(r, s, a, r.choice([1, 1, 2, 3])), 50, 1, hp=False)

def sections(r, n):
    """a few sections of many items, put in another order; of the biggest, about the share of items
    that the threshold asks for is still there"""
    w = r.choice([7, 9] if n > 200 else [1, 1, 7, 9])     # texts in an item
    n = n // w + 1
    th = r.choice([50, 50, 25, 75, 67] if w == 1 else [75, 80, 90] if n > 25 else [75, 75, 80, 50])
    tag = r.randint(1, 2)
    mk = lambda i: node(r.choice([2, 2, 3]), 0, 0, [], [node(9, i) for _ in range(w)])
    fresh = itertools.count(1)
    def sec(m): return node(1, 0, 0, [[0, tag]], [mk(next(fresh)) for _ in range(m)])
    secs = [sec(n)] + [sec(r.randint(2, 8)) for _ in range(r.randint(1, 3))]
    a = node(4, kids=secs)
    b = copy(a)
    big = b[4][0]
    keep = round(n * th / 100) + r.choice([-1, 0, 0, 1, 2, 5])
    lost = set(r.sample(range(n), max(0, min(n, n - keep))))
    if r.random() < .5: lost = set(range(n - len(lost), n)) if r.random() < .5 else set(range(len(lost)))
    if r.random() < .5: big[4] = [k for i, k in enumerate(big[4]) if i not in lost]
    else: big[4] = [mk(next(fresh)) if i in lost else k for i, k in enumerate(big[4])]
    b[4].append(b[4].pop(0)) if w * n > 200 or r.random() < .7 else r.shuffle(b[4])
    if r.random() < .3: b[4] = [node(5, kids=b[4])]
    if r.random() < .3: a, b = b, a
    return case(a, b, th, r.choice([0, 1, 1, 1]))
def shifted(r, n):
    """many small sections, each with a name of its own and each changed a little, some rows further on"""
    named = n > 100 or r.random() < .7
    item = lambda j: node(2, 0, 0, [], [node(9, r.randint(1, 3)) for _ in range(r.choice([1, 2]))] if r.random() < (.5 if n < 100 else .9) else [])
    a = node(4, kids=[node(1, 0, 0, [[0, i + 1]] if named else [], [item(j) for j in range(r.choice([1, 2, 3]))] if n > 100 or r.random() < .8 else []) for i in range(n)])
    b = copy(a)
    much = r.choice([.6, 1]) if n < 100 else 1
    for k in b[4]:
        if r.random() < much: k[4].insert(r.randint(0, len(k[4])), node(9, r.randint(10, 12)))
    z = r.random()
    if z < .4: b[4] = [node(1, 0, 0, [[0, n + 1]]) for _ in range(r.randint(1, 3))] + b[4]
    elif z < .7: m = r.randint(1, n - 1); b[4] = b[4][m:] + b[4][:m]
    else: b[4].reverse()
    if r.random() < .4: b[4] = [node(5, kids=b[4])]
    if r.random() < .3: a, b = b, a
    return case(a, b, *rcfg(r), hp=r.random() < .5)
def boxed(r, n):
    """a big opaque node among others; what it holds changes, also into or out of it"""
    s = Style(r); s.opq_p = 0; s.wild = False; s.keys = min(s.keys, 3)
    a = rtree(r, s, r.randint(4, 10), None)
    box = rtree(r, s, n, [] if r.random() < .5 else None); box[2] = 1
    x = r.choice([k for k, _ in walk(a) if k[0] != 9]); x[4].insert(r.randint(0, len(x[4])), box)
    b = mutate(r, s, a, r.choice([1, 2, 4, 8]))
    if r.random() < .3:
        for k, _ in walk(b): k[2] = 0
    if r.random() < .3: a, b = b, a
    return case(a, b, *rcfg(r), hp=r.random() < .5)

# ------------------------------------------------------------------ arbitrary matchings
def given(r, c, kinds, root, respect):
    """an arbitrary one-to-one matching, in arbitrary order; kinds: kind preserving; root: pair the roots;
    respect: no node strictly inside an opaque node"""
    a, b = c['a'], c['b']
    def opd(t):
        o = [False] * len(t['par'])
        for i in range(1, len(o)): o[i] = o[t['par'][i] - 1] or t['opq'][t['par'][i] - 1]
        return o
    oa, ob = opd(a), opd(b)
    xs = [i + 1 for i in range(len(oa)) if not (respect and oa[i])]
    ys = [i + 1 for i in range(len(ob)) if not (respect and ob[i])]
    g, used = [], set()
    if root and (not kinds or a['kind'][0] == b['kind'][0]): g.append((1, 1)); used.add(1); xs.remove(1)
    if root: xs = [x for x in xs if x != 1]; used.add(1)
    r.shuffle(xs)
    dens = r.choice([.3, .7, .95, 1])
    near = r.random() < .5
    for x in xs:
        if r.random() > dens: continue
        cand = [y for y in ys if y not in used and (not kinds or a['kind'][x - 1] == b['kind'][y - 1])]
        if not cand: continue
        y = min(cand, key=lambda y: (a['hash'][x - 1] != b['hash'][y - 1], abs(x - y))) if near else r.choice(cand)
        used.add(y); g.append((x, y))
    r.shuffle(g)
    c['mode'], c['given'] = 1, g
    return c
