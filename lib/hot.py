"""The hotmeal properties H.., S.., W.."""
import copy, json, random
import hotgen as h, run
from hotgen import E, T, C, A
from cin import record
J = lambda x: json.dumps(x, separators=(',', ':'))

def build(): return run.cargo('hot', 'hot-rec', subdir='hot')

# ---------------------------------------------------------------- diff and patches
def isop(t): return any(a[1] == 'data-hotmeal-opaque' for a in t['a'])
NOPATCH = dict(err='', patches=[], nat=[], wasm=[], events=[], api=dict(err='', t=E('body')), wapi=dict(err='', n=0, t=E('body')), owned=[], wire=[], start=E('body'))
def fallback(cs): return lambda i, why: J(dict(id=cs[i]['id'], panic=why, **NOPATCH))
def dcase(old, new, own=0, opaque=None):
    return dict(op='diff', old=old if old else 'none', new=new if new else 'none', own=own, snap=1, wire=1, hasold=bool(old), hasnew=bool(new),
                opaque=any(isop(x) for t in (old, new) if t for x, _ in h.walk(t)) if opaque is None else opaque)
def forests(n, labels, depth=0):
    """all forests with n nodes, no two texts side by side, texts without children"""
    if n == 0: yield []; return
    for k in range(1, n + 1):
        for g, x in labels:
            for kids in (forests(k - 1, labels, depth + 1) if g == 'e' else ([[]] if k == 1 else [])):
                for rest in forests(n - k, labels, depth):
                    if g == 't' and rest and rest[0]['g'] == 't': continue
                    yield [copy.deepcopy(E(x, kids) if g == 'e' else T(x) if g == 't' else C(x)) if False else (E(x, kids) if g == 'e' else T(x) if g == 't' else C(x))] + rest
def bodies(nmax, labels): return [E('body', f) for n in range(nmax + 1) for f in forests(n, labels)]
SMALL = [('e', 'div'), ('e', 'p'), ('t', 'a'), ('t', 'b')]
def small_pairs(r, nmax, labels, limit):
    ts = bodies(nmax, labels)
    full = len(ts) ** 2
    if limit is None or full <= limit: return [(a, b) for a in ts for b in ts], full
    return [(r.choice(ts), r.choice(ts)) for _ in range(limit)], full
def rpair(r, g, lo, hi, k=5, fresh=.2):
    a = g.body(r.randint(lo, hi))
    b = g.body(r.randint(lo, hi)) if r.random() < fresh else g.mutate(a, r.randint(1, k))
    return a, b
NSATTRS = h.ATTRS + ['xlink|xlink:href', 'xml|xml:lang', 'xmlns|xmlns', 'xmlns|xmlns:xlink', '|data-y', '|aria-label', '|@click', '|:key', '|(tap)', '|[x]', '|v-on:x.y', '|a"b', '|=', '|{']
ODD = ['my-elem', 'x"y', 'x<y', 'o!', 'a.b', 'div}', 'p@q']      # tag names that parsers accept
def gen(r, **kw):
    kw.setdefault('tags', r.choice([h.TAGS, h.TAGS[:2], h.TAGS[:4], h.STABLE, h.TAGS[:2] + h.FOREIGN[:r.choice([1, 3, 10])], h.TAGS[:2] + ODD[:r.choice([2, 7])] + h.FOREIGN[:r.choice([0, 2])], h.TAGS[:2] + ['template'] + h.FOREIGN[:r.choice([0, 3])], h.TAGS[:2] + h.FOREIGN[:3] + ['a:b', 'x:title', 'b:']]))
    return h.Gen(r, **kw)
def page(r, n):
    """a page as people write it: header, navigation, articles with paragraphs and lists"""
    w = lambda: r.choice(['alpha', 'beta', 'gamma', 'delta', 'one two', 'lorem', 'ipsum dolor'])
    art = lambda: E('article', [E('h1', [T(w())]), E('p', [T(w()), E('b', [T(w())]), T(' ' + w())], [A('|class', r.choice(['x', 'y', 'x y']))]), E('ul', [E('li', [T(w())]) for _ in range(r.randint(1, 4))])] + ([E('img', a=[A('|src', w()), A('|alt', w())])] if r.random() < .5 else []), [A('|id', w())])
    nav = E('nav', [E('ul', [E('li', [E('a', [T(w())], [A('|href', '/' + w())])]) for _ in range(r.randint(2, 5))])])
    return E('body', [E('header', [E('h1', [T(w())]), nav]), E('main', [art() for _ in range(n)]), C(' end '), E('footer', [T(w())])])
def diff_cases(ck, r, small=5000, rnd=3500, mid=700, pages=150, opaque=0., attrs=None, own=.3, large=48):
    q = ck.quick
    k = 1 if q else 10
    prs, full = small_pairs(r, 3, SMALL, small if q else 60000)
    ck.cov.setdefault('exhaustive_parts', []).append(dict(space=f'all pairs of bodies with at most 3 nodes over {len(SMALL)} labels', size=full, covered=len(prs), complete=len(prs) == full))
    kw = dict(opaque=opaque)
    if attrs: kw['attrs'] = attrs
    if opaque: kw.update(tags=h.STABLE[:4])
    for _ in range(rnd * k): prs.append(rpair(r, gen(r, **kw), 1, 14))
    for _ in range(mid * k): prs.append(rpair(r, gen(r, **kw), 15, 45, 10, .1))
    for _ in range(pages * k):
        a = page(r, r.randint(1, 4)); prs.append((a, h.Gen(r, tags=['p', 'li', 'b', 'article'], **({'attrs': attrs} if attrs else {})).mutate(a, r.randint(1, 12))))
    for i in range(large * k):      # more levels, children or attributes than paths and lists hold in place
        g = gen(r, **kw)
        a = g.deep(r.choice([15, 16, 17, 18, r.randint(19, 60)])) if i % 2 else g.wide(r.choice([17, 33, 65, r.randint(20, 140)]))
        prs.append((a, g.mutate(a, r.randint(1, 5))))
    for _ in range(large * k // 16):
        g = gen(r, **kw)
        a = g.wide(r.randint(255, 300)); prs.append((a, g.mutate(a, r.randint(1, 4))))
        a = g.deep(r.randint(90, 105)); prs.append((a, g.mutate(a, r.randint(1, 3))))
    cs = [dcase(a, b, int(r.random() < own)) for a, b in prs]
    for c in cs:
        if r.random() < .06:
            for t in r.choice([['old'], ['new'], ['old', 'new']]):
                if isinstance(c[t], dict): c[t] = h.untidy(r, copy.deepcopy(c[t]), r.choice([.05, .2, .5]))
        if r.random() < .15: c['own'] = r.choice([2, 2, 3, 4])
        if not c['opaque'] and not opaque and r.random() < .1:       # documents that others were turned into
            for k, t in r.choice([[('before', 'old')], [('prior', 'new')], [('before', 'old'), ('prior', 'new')]]):
                if isinstance(c[t], dict): c[k] = gen(r, **(dict(attrs=attrs) if attrs else {})).mutate(c[t], r.randint(1, 5))
    return cs
def samples(ck, cs, n=3):
    for c in cs[:: max(1, len(cs) // n)][:n]:
        ck.cov['samples'].append({k: (h.html(v) if isinstance(v, dict) and 'g' in v else v) for k, v in c.items() if k in ('old', 'new')})
def patches(ck, cs, inv):
    b = build()
    r = random.Random(ck.seed); r.shuffle(cs)
    parts, outs = record(b, cs, J, fallback)
    pat = sum(len(json.loads(o)['patches']) for p in outs for o in p)
    ck.cov['documents_made_by_patches'] = ck.cov.get('documents_made_by_patches', 0) + sum(json.loads(o).get('turned', 0) for p in outs for o in p)
    ck.cov['patches_validated'] = ck.cov.get('patches_validated', 0) + pat
    ck.validate([('PatchTrace', [], ['InputsOk', inv], {inv})], [([J(dict({k: c[k] for k in ('id', 'old', 'new', 'hasold', 'hasnew', 'opaque')}, diffed='patches' not in c)) for c in p], o) for p, o in zip(parts, outs)])
    if ck.violation:
        i = ck.violation[1]
        if i.get('case'):
            c, o = parts[i['shard']][i['case'] - 1], outs[i['shard']][i['case'] - 1]
            i.update(input={k: c[k] for k in ('old', 'new', 'own')}, recorded=json.loads(o),
                     summary='old ' + (h.html(c['old']) if c['hasold'] else '-') + ' new ' + (h.html(c['new']) if c['hasnew'] else '-'))
    samples(ck, cs)
    return parts, outs

def H01(ck):
    r = random.Random(ck.seed * 1000 + 1)
    cs = diff_cases(ck, r)
    g = gen(r)
    for _ in range(20 if ck.quick else 300):
        for k in (0, 1):
            t = g.body(r.randint(1, 8)); t['a'] = g.attrs()
            cs.append(dcase(t, None) if k else dcase(None, t))
    cs.append(dcase(None, None))
    for _ in range(1200 if ck.quick else 12000):     # with opaque elements, which arrive and go like all others
        g = h.Gen(r, tags=h.STABLE[:r.choice([2, 4])], opaque=r.choice([0, .1, .4]), comments=r.choice([.08, .3]))
        a = opaque_body(r, g, r.randint(1, 9)) if r.random() < .5 else g.body(r.randint(1, 9))
        cs.append(dcase(a, g.mutate(a, r.randint(1, 5)) if r.random() < .6 else opaque_body(r, g, r.randint(1, 9)), r.randint(0, 1)))
    for _ in range(300 if ck.quick else 3000): cs.append(dcase(*special_pair(r)))
    patches(ck, cs, 'H01')
    return ck.finish()
def H02(ck):
    r = random.Random(ck.seed * 1000 + 2)
    ck.design('PatchMC', ['Kept', 'Body'], [f'N = {2 if ck.quick else 3}', 'Slots = 2', f'Steps = {2 if ck.quick else 3}', 'Names = {"p"}'], properties=['Still'])
    patches(ck, diff_cases(ck, r, small=3000) + diff_cases(ck, r, small=0, rnd=1500, mid=300, pages=0, opaque=.3), 'H02')
    return ck.finish()

def H03(ck):
    r = random.Random(ck.seed * 1000 + 3)
    k = 1 if ck.quick else 12
    cs = [dcase(t, copy.deepcopy(t), i % 5) for i, t in enumerate(bodies(4, SMALL[:3]))]
    for _ in range(1500 * k):
        g = gen(r, opaque=r.choice([0, .2]), attrs=NSATTRS)
        a = g.body(r.randint(1, 40))
        cs.append(dcase(a, copy.deepcopy(a), r.randint(0, 4)))
    for _ in range(3000 * k):     # one small difference
        o = r.choice([0, 0, .3])
        g = gen(r, opaque=o, attrs=NSATTRS, **(dict(tags=h.STABLE) if o else {}))
        a = g.body(r.randint(2, 30))
        cs.append(dcase(a, g.mutate(a, 1), r.randint(0, 4)))
    for _ in range(400 * k): a = page(r, 2); cs.append(dcase(a, h.Gen(r).mutate(a, r.randint(0, 1))))
    patches(ck, cs, 'H03')
    return ck.finish()
def opaque_body(r, g, n):
    """a body with an opaque element somewhere, with content in it"""
    b = g.body(n)
    for _ in range(r.randint(1, 3)):
        es = [x for x, _ in h.walk(b) if x['g'] == 'e' and x['n'] not in h.VOID and not isop(x)]
        o = E(r.choice(h.STABLE[:3]), a=[A('|data-hotmeal-opaque', r.choice(['k1', 'k2', '']))] + ([A('|class', 'o')] if r.random() < .3 else []))
        g.fill(o, r.randint(0, 6), 3)
        p = r.choice(es); p['c'].insert(r.randint(0, len(p['c'])), o)
    return h.tidy(b)
def special(r, kind):
    """an element whose content only parses as it should in that very kind of element"""
    w = lambda: r.choice(['a', 'b', 'c', 'x&y', 'é'])
    aa = lambda: [A('|class', r.choice('ab'))] if r.random() < .3 else []
    def td(): return E(r.choice(['td', 'td', 'th']), r.choice([[T(w())], [], [E('p', [T(w())])]]), aa())
    def tr(): return E('tr', [td() for _ in range(r.randint(0, 3))], aa())
    def body(): return E(r.choice(['tbody', 'tbody', 'thead', 'tfoot']), [tr() for _ in range(r.randint(0, 3))], aa())
    if kind == 'table':
        return E('table', ([E('caption', [T(w())])] if r.random() < .3 else []) + ([E('colgroup', [E('col', a=aa()) for _ in range(r.randint(0, 2))])] if r.random() < .4 else []) + [body() for _ in range(r.randint(0, 2))], aa())
    if kind == 'svg':
        def g(d=0): return E(r.choice(['g', 'a', 'text', 'path', 'style', 'script', 'link']), [g(d + 1) for _ in range(r.randint(0, 2))] if d < 2 else [T(w())], aa(), 's')
        return E('svg', [E('title', [T(w())], s='s')] * r.randint(0, 1) + [g() for _ in range(r.randint(0, 3))] + [E('foreignObject', [E('div', [T(w())]), E('svg', [g()], s='s')], s='s')] * r.randint(0, 1), aa(), 's')
    if kind == 'math':
        return E('math', [E(r.choice(['mrow', 'mfrac']), [E(r.choice(['mi', 'mn', 'mtext']), [T(w())] + [E('b', [T(w())])] * r.randint(0, 1), s='m')], aa(), 'm') for _ in range(r.randint(0, 3))], aa(), 'm')
    if kind == 'select': return E('select', [E('option', [T(w())], aa()) for _ in range(r.randint(0, 2))] + [E('optgroup', [E('option', [T(w())]) for _ in range(r.randint(0, 2))])] * r.randint(0, 1), aa())
    if kind == 'raw': return E(r.choice(['script', 'style', 'xmp', 'iframe', 'noscript']), [T(r.choice(['a<b', 'x&y', '</p>', '&lt;', '<!-- c -->', '"', '\n', 'a && b > c']))] * r.randint(0, 1), aa())
    if kind == 'text': return E(r.choice(['textarea', 'pre', 'listing']), [T(r.choice(['\n', '\n\nx', 'a<b', ' x', '&amp;']))] * r.randint(0, 1), aa())
    if kind == 'list': return E(r.choice(['ul', 'ol']), [E('li', [T(w())] + ([special(r, 'list')] if r.random() < .2 else []), aa()) for _ in range(r.randint(0, 4))], aa())
    if kind == 'dl': return E('dl', [E(r.choice(['dt', 'dd']), [T(w())]) for _ in range(r.randint(0, 3))], aa())
    return E(r.choice(['div', 'button', 'p', 'a', 'h1', 'label', 'form', 'body'][:7]), [T(r.choice(['\ufeffx', '\ufeff', ' ', '\n', 'a', '<html>', '<body>x', '<!DOCTYPE html>'])), E('b', [T(w())])][:r.randint(0, 2)], aa())
SPECIAL = ['table', 'table', 'svg', 'svg', 'math', 'select', 'raw', 'text', 'list', 'dl', '']
def special_pair(r):
    """two bodies with the same kind of elements, with opaque parts"""
    kinds = [r.choice(SPECIAL) for _ in range(r.randint(1, 3))]
    xs = [special(r, k) for k in kinds]
    ys = [special(r, k) if r.random() < .8 else copy.deepcopy(x) for k, x in zip(kinds, xs)]
    for i, (x, y) in enumerate(zip(xs, ys)):
        both = sorted({e['n'] for e, _ in h.walk(x) if e['g'] == 'e'} & {e['n'] for e, _ in h.walk(y) if e['g'] == 'e'})
        if both:
            n = r.choice(both)
            for t in (x, y):
                for e in [e for e, _ in h.walk(t) if e['n'] == n][:r.choice([1, 1, 2])]:
                    e['a'] = e['a'] + [A('|data-hotmeal-opaque', f'k{i}')]
    if r.random() < .3: r.shuffle(ys)
    return tuple(E('body', ([T('t')] if r.random() < .3 else []) + t) for t in (xs, ys))
def H05(ck):
    r = random.Random(ck.seed * 1000 + 5)
    k = 1 if ck.quick else 12
    cs = []
    o = ('e', 'div')
    sm = []
    for f in bodies(3, [('e', 'div'), ('t', 'a'), ('t', 'b')]):     # every placement of the attribute
        es = [x for x, p in h.walk(f) if x['g'] == 'e' and p]
        for m in range(1 << len(es)):
            for i, x in enumerate(es): x['a'] = [A('|data-hotmeal-opaque', '')] if m >> i & 1 else []
            if m: sm.append(copy.deepcopy(f))
    full = len(sm) ** 2
    lim = 3000 if ck.quick else None
    prs = [(r.choice(sm), r.choice(sm)) for _ in range(lim)] if lim and lim < full else [(a, b) for a in sm for b in sm]
    ck.cov['exhaustive_parts'] = [dict(space='all pairs of bodies with at most 3 nodes and every set of opaque elements', size=full, covered=len(prs), complete=len(prs) == full)]
    for _ in range(5000 * k):
        g = h.Gen(r, tags=h.STABLE[:r.choice([2, 4])], opaque=r.choice([0, .1, .4]))
        a = opaque_body(r, g, r.randint(1, 12))
        x = r.random()
        b = opaque_body(r, g, r.randint(1, 12)) if x < .1 else g.mutate(a, r.randint(1, 5))
        if x > .4:      # change the inside of an opaque element only
            es = [e for e, _ in h.walk(b) if isop(e)]
            if es:
                e = r.choice(es)
                inner = g.mutate(E('body', e['c']), r.randint(1, 3))
                e['c'] = inner['c']
                h.tidy(b)
        prs.append((a, b))
    prs += [special_pair(r) for _ in range(2000 * k)]
    patches(ck, [dcase(a, b, r.randint(0, 1)) for a, b in prs], 'H05')
    return ck.finish()
def H06(ck):
    r = random.Random(ck.seed * 1000 + 6)
    k = 1 if ck.quick else 12
    names = ['|a', '|b', 'xlink|xlink:href']
    lists = [[A(q, v) for q, v in zip(p, vs)] for n in range(3) for p in __import__('itertools').permutations(names, n) for vs in __import__('itertools').product(['', '1', '2'], repeat=n)]
    prs = [(x, y) for x in lists for y in lists]
    full = len(prs)
    if ck.quick: prs = r.sample(prs, 2500)
    ck.cov['exhaustive_parts'] = [dict(space='all pairs of attribute lists over 3 names and 3 values with at most 2 attributes', size=full, covered=len(prs), complete=len(prs) == full)]
    cs = []
    for x, y in prs:
        where = r.randint(0, 3)
        if where == 0: a, b = E('body', a=x), E('body', a=y)
        elif where == 1: a, b = E('body', [E('p', [T('t')], x)]), E('body', [E('p', [T('t')], y)])
        elif where == 2: a, b = E('body', [E('p', [T('t')], x), E('div')]), E('body', [E('div'), E('p', [T('u')], y)])
        else: a, b = E('body', [E('p', [], x), E('p', [], y)]), E('body', [E('p', [], y), E('p', [], x)])
        cs.append(dcase(a, b, r.randint(0, 1)))
    allq = NSATTRS + ['|k%d' % i for i in range(6)]
    def shake(x):
        n = r.choice([0, 1, 1, 2])
        for _ in range(n):
            m = r.random()
            if x and m < .25: x.pop(r.randrange(len(x)))
            elif x and m < .5: r.choice(x)[2] = r.choice(h.VALS)
            elif x and m < .75: r.shuffle(x)
            else:
                q = r.choice(allq)
                if all(y[0] != q for y in x): x.insert(r.randint(0, len(x)), A(q, r.choice(h.VALS)))
    for _ in range(4000 * k):
        g = h.Gen(r, tags=h.TAGS[:r.choice([2, 4, 10])], attrs=allq)
        a = g.body(r.randint(2, 20))
        for x, _ in h.walk(a):
            if x['g'] == 'e' and r.random() < .5: x['a'] = [A(q, r.choice(h.VALS)) for q in r.sample(allq, r.randint(0, 6))]
        b = copy.deepcopy(a)
        for x, _ in h.walk(b):
            if x['g'] == 'e': shake(x['a'])
        if r.random() < .4: b = g.mutate(b, 2)
        cs.append(dcase(a, b, r.randint(0, 1)))
    patches(ck, cs, 'H06')
    return ck.finish()
def H10(ck):
    r = random.Random(ck.seed * 1000 + 10)
    cs = diff_cases(ck, r, small=1500, rnd=3000, mid=600, pages=100, attrs=NSATTRS) + diff_cases(ck, r, small=0, rnd=1000, mid=0, pages=0, opaque=.3)
    for c in cs: c['snap'] = 0
    cs += synthetic(r, 2000 if ck.quick else 20000)
    patches(ck, cs, 'H10')
    return ck.finish()
def columns(a, b):
    """the two bodies as GumTree sees them"""
    kinds, hashes, texts, names, vals = {}, {}, {}, {}, {}
    num = lambda d, k: d.setdefault(k, len(d) + 1)
    def tree(t):
        o = dict(par=[], pos=[], ch=[], sz=[], ht=[], kind=[], txt=[], opq=[], hash=[], prp=[])
        def go(x, par, pos):
            i = len(o['par'])
            kd = num(kinds, (x['g'], x['n'], x['s']) if x['g'] == 'e' else x['g'])
            for k, v in dict(par=par, pos=pos, ch=[], sz=0, ht=0, kind=kd, txt=0 if x['g'] == 'e' else num(texts, x['t']), opq=isop(x), hash=0,
                             prp=[[num(names, q), num(vals, v)] for q, _, v in x['a']]).items(): o[k].append(v)
            o['ch'][i] = [go(y, i + 1, j) for j, y in enumerate(x['c'])]
            o['sz'][i] = 1 + sum(o['sz'][j - 1] for j in o['ch'][i])
            o['ht'][i] = 1 + max(o['ht'][j - 1] for j in o['ch'][i]) if o['ch'][i] else 0
            o['hash'][i] = num(hashes, (kd, o['txt'][i], tuple(o['hash'][j - 1] for j in o['ch'][i])))
            return i + 1
        go(t, 0, 0)
        return o
    return dict(a=tree(a), b=tree(b), th=50, mh=0)
def H12(ck):
    r = random.Random(ck.seed * 1000 + 29)
    k = 1 if ck.quick else 10
    cs = diff_cases(ck, r, small=2500, rnd=2500, mid=400, pages=120, attrs=NSATTRS) + diff_cases(ck, r, small=0, rnd=1200, mid=100, pages=0, opaque=.3)
    for _ in range(800 * k): cs.append(dcase(*special_pair(r)))
    few = ['|a', '|b', '|c', 'xlink|xlink:a', '|d']
    for _ in range(2500 * k):       # same tags everywhere: attributes and contents decide
        g = h.Gen(r, tags=h.TAGS[:r.choice([1, 2])], attrs=few[:r.choice([2, 4, 5])], texts=['a', 'b'], comments=.05)
        a = g.body(r.randint(3, 16)); cs.append(dcase(a, g.mutate(a, r.randint(1, 6)) if r.random() < .85 else g.body(r.randint(3, 16)), r.randint(0, 1)))
    for c in cs: c.update(snap=0, wire=0)
    r.shuffle(cs)
    parts, outs = record(build(), cs, J, fallback)
    ck.validate([('KeepTrace', ['CaseOf <- TheCase', 'Similar <- NameDice', 'RootSet <- NoRoots'], ['InputsOk', 'Design', 'H12'], {'H12'})], [([J(dict(id=c['id'], **columns(c['old'], c['new']))) for c in p], o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    samples(ck, cs)
    return ck.finish()
def synthetic(r, n):
    """lists of patches of every kind, valid for the old body but not made by diff"""
    out = []
    for _ in range(n):
        g = gen(r, attrs=NSATTRS)
        old = g.body(r.randint(2, 12))
        sl = {0: copy.deepcopy(old)}
        ps, nslot = [], r.choice([1, 1, 1, 2, 9, 190, 2000000000])
        def nodes(kind=None, root=True):
            o = []
            def go(t, p):
                if (kind is None or t['g'] in kind) and (root or len(p) > 1): o.append((p, t))
                for i, c in enumerate(t['c']): go(c, p + [i])
            for s, t in sl.items(): go(t, [s])
            return o
        def get(p):
            t = sl[p[0]]
            for i in p[1:]: t = t['c'][i]
            return t
        def setn(p, u):
            get(p[:-1])['c'][p[-1]] = u
        def keeps(p):       # what is at p needs a slot (an empty text does not, but may have one)
            c = get(p[:-1])['c']
            return p[-1] < len(c) and not (c[p[-1]]['g'] == 't' and c[p[-1]]['t'] == '' and r.random() < .7)
        def put(p, u, slot):
            c = get(p[:-1])['c']
            while len(c) < p[-1]: c.append(T(''))
            if p[-1] < len(c):
                if slot >= 0: sl[slot] = c[p[-1]]
                c[p[-1]] = u
            else: c.append(u)
        P = lambda p, at, **kw: dict(dict(p=p, at=at, to=[], slot=-1, tree=T(''), text='', props=[]), **kw)
        for _ in range(r.randint(1, 8)):
            k = r.choice(['ins', 'ins', 'mv', 'mv', 'rm', 'text', 'set', 'unset', 'props'])
            def place():
                p, t = r.choice([(p, t) for p, t in nodes('e') if t['n'] not in h.VOID])
                return p + [min(len(t['c']) + r.choice([0, 0, 0, 1, 2]), r.choice([0, 1, 2, 3, 9]))]
            if k == 'ins':
                if not [1 for _, t in nodes('e') if t['n'] not in h.VOID]: continue
                p = place(); u = r.choice([g.leaf(), g.element(r.randint(1, 4))]); h.retype(u, get(p[:-1]))
                occ = keeps(p)
                s = nslot if occ else -1
                if occ: nslot += 1
                ps.append(P('ins', p, tree=copy.deepcopy(u), slot=s)); put(p, copy.deepcopy(u), s)
            elif k == 'mv':
                ns = [(p, t) for p, t in nodes() if p != [0]]
                if not ns: continue
                p, t = r.choice(ns)
                if len(p) == 1: del sl[p[0]]
                else: setn(p, T(''))
                if not [1 for _, x in nodes('e') if x['n'] not in h.VOID]: break
                q = place()
                occ = keeps(q)
                s = nslot if occ else -1
                if occ: nslot += 1
                ps.append(P('mv', p, to=q, slot=s)); put(q, t, s)
            elif k == 'rm':
                ns = [(p, t) for p, t in nodes() if p != [0]]
                if not ns: continue
                p, t = r.choice(ns)
                if len(p) == 1: del sl[p[0]]
                else: setn(p, T(''))
                ps.append(P('rm', p))
            elif k == 'text':
                ns = nodes('tc')
                if not ns: continue
                p, t = r.choice(ns); z = r.random()
                if z < .1: ps.append(P('props', p, props=[['#text', '', True, '']])); continue
                t['t'] = r.choice(g.texts if t['g'] == 't' else ['x', 'y']); ps.append(P('text', p, text=t['t']) if z < .7 else P('props', p, props=[['#text', '', False, t['t']]]))
            else:
                p, t = r.choice(nodes('e'))
                if k == 'set':
                    a = A(r.choice(NSATTRS), r.choice(h.VALS)); ps.append(P('set', p, props=[[a[0], a[1], False, a[2]]]))
                    i = [j for j, x in enumerate(t['a']) if x[0] == a[0]]
                    if i: t['a'][i[0]] = a
                    else: t['a'].append(a)
                elif k == 'unset':
                    q = r.choice(t['a'])[0] if t['a'] and r.random() < .8 else r.choice(NSATTRS)
                    ps.append(P('unset', p, props=[[q, q.split('|')[1], False, '']])); t['a'] = [x for x in t['a'] if x[0] != q]
                else:
                    keep = [x for x in t['a'] if r.random() < .7]
                    new = [A(q, r.choice(h.VALS)) for q in r.sample(NSATTRS, r.randint(0, 2)) if all(x[0] != q for x in keep)]
                    l = [[x[0], x[1], True, ''] for x in keep] + [[x[0], x[1], False, x[2]] for x in new]
                    r.shuffle(l)
                    old_ = {x[0]: x[2] for x in t['a']}
                    t['a'] = [[x[0], x[1], old_[x[0]] if x[2] else x[3]] for x in l]
                    ps.append(P('props', p, props=l))
        c = dcase(old, sl[0], r.randint(0, 1))
        c['patches'] = ps
        out.append(c)
    return out
def spoilt(r, c):
    """a list of patches with something wrong in it, perhaps"""
    ps = c['patches']
    paths = []
    def go(t, p):
        paths.append((p, t))
        for i, x in enumerate(t['c']): go(x, p + [i])
    go(c['old'], [0])
    P = lambda p, at, **kw: dict(dict(p=p, at=at, to=[], slot=-1, tree=T(''), text='', props=[]), **kw)
    slot = lambda: r.choice([-1, -1, 1, 150, 151, 152, 153, 154] + [2000000000] * (r.random() < .1))
    def path():
        z = r.random()
        if z < .1: return r.choice([[], [0], [1], [2], [3], [150], [0, 9], [1, 0], [7, 7]])
        p = list(r.choice(paths)[0]) if z < .7 else list(r.choice([q[k] for q in ps for k in ('at', 'to') if q[k]] or [[0]]))
        z = r.random()
        if z < .2: p.append(r.choice([0, 0, 1, 2]))
        elif z < .3 and p: p[r.randrange(len(p))] = r.choice([0, 1, 2, 3])
        elif z < .35: p = p[:-1]
        return p
    def bad():
        k = r.choice(['ins', 'ins', 'mv', 'mv', 'mv', 'rm', 'rm', 'text', 'text', 'set', 'unset', 'props', 'tprops', 'opaque'])
        if k == 'ins': return P(k, path(), tree=r.choice([T('n'), C('n'), E('b', [T('n')])]), slot=slot())
        if k == 'mv':
            p = path(); q = path() if r.random() < .6 else p + [r.choice([0, 1])] + [0] * r.choice([0, 0, 1])
            return P(k, p, to=q, slot=slot())
        if k == 'rm': return P(k, path())
        if k == 'text': return P(k, path(), text=r.choice(['', 'n']))
        if k == 'tprops': return P('props', path(), props=[['#text', '', False, 'n']])
        if k == 'opaque':
            t = [q for q, x in paths if x['g'] != 'e']
            return P(k, r.choice(t) if t and r.random() < .8 else r.choice([[], [0, 9], [4], [0, 0, 0, 0, 0]]), text='<i>n</i>')
        return P(k, path(), props=[['|title', 'title', False, 'n']])
    for _ in range(r.choice([1, 1, 1, 2])):
        z = r.random()
        if z < .6 or not ps: ps.insert(r.randint(0, len(ps)), bad())
        elif z < .7: del ps[r.randrange(len(ps))]
        elif z < .8: ps.insert(r.randint(0, len(ps)), copy.deepcopy(r.choice(ps)))
        elif z < .9: r.shuffle(ps)
        else:
            q = r.choice(ps); k = r.choice(['at', 'to']) if q['p'] == 'mv' else 'at'
            q[k] = path()
    return c
def H13(ck):
    r = random.Random(ck.seed * 1000 + 37)
    k = 1 if ck.quick else 10
    cs = [spoilt(r, c) for c in synthetic(r, 6000 * k)]
    for c in cs:
        if r.random() < .3: c['patches'] = c['patches'][-1:]
    for _ in range(2500 * k):       # the page is another one than the server believes
        g = gen(r, attrs=NSATTRS)
        a, b = rpair(r, g, 1, 12)
        cs.append(dict(dcase(g.mutate(a, r.randint(1, 3)) if r.random() < .8 else g.body(r.randint(1, 12)), b, r.randint(0, 1)), base=a))
    for c in cs: c.update(snap=1, wire=0)
    r.shuffle(cs)
    parts, outs = record(build(), cs, J, fallback)
    got = [json.loads(o) for p in outs for o in p]
    ck.cov['refused'] = sum(x['panic'] == '' and any(y['err'] for y in x['nat']) for x in got)
    ck.validate([('Refuse', ['Spec <- RSpec'], ['InputsOk', 'H13'], {'H13'})], [([J(dict({q: c[q] for q in ('id', 'old', 'new', 'hasold', 'hasnew', 'opaque')}, diffed=False)) for c in p], o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    samples(ck, cs)
    return ck.finish()
def W01(ck):
    r = random.Random(ck.seed * 1000 + 11)
    cs = diff_cases(ck, r, small=3000, rnd=2500, mid=500, pages=100, attrs=NSATTRS) + diff_cases(ck, r, small=0, rnd=600, mid=100, pages=0, opaque=.3)
    cs += synthetic(r, 4000 if ck.quick else 40000)
    patches(ck, cs, 'W01')
    return ck.finish()
def W02(ck):
    r = random.Random(ck.seed * 1000 + 12)
    cs = diff_cases(ck, r, small=3000, rnd=2500, mid=500, pages=100) + diff_cases(ck, r, small=0, rnd=600, mid=100, pages=0, opaque=.3)
    cs += synthetic(r, 3000 if ck.quick else 30000)
    patches(ck, cs, 'W02')
    return ck.finish()

MTAGS = ['section', 'main', 'foreignObject', 'td', 'p', 'my-app']
IDENT = lambda a: a[1] in ('id', 'class') or a[1].startswith('data-m-')
def mount_case(r, nsteps):
    """a page with some mount points, and what becomes of them"""
    stable = r.random() < .3
    kw = dict(tags=h.STABLE[:5], attrs=h.ATTRS) if stable else {}
    g = gen(r, **kw)
    size = r.choice([1, 3, 6, 10])
    sels, mounts = [], []
    if r.random() < .2:
        body = g.body(r.randint(1, 14))
        mounts.append((body, dict(k='', v='body'), 'body'))
    else:
        body = g.body(r.randint(2, 12))
        names = ['app', 'nav', 'x1', 'Main', 'a-b']; r.shuffle(names)
        for n in names[:r.randint(1, 4)]:
            k = r.choice('#.[t')
            m = E('app-root' if k == 't' else r.choice(MTAGS), g.body(size)['c'])
            q, v = {'#': ('|id', n), '.': ('|class', n), '[': ('|data-m-' + n.lower(), r.choice(['', 'x'])), 't': ('|title', 'k')}[k]
            m['a'] = [A(q, v)]
            if r.random() < .4: m['a'] = r.sample(m['a'] + [A('|href', 'm')], 2)
            hosts = [x for x, _ in h.walk(body) if x['g'] == 'e' and x['s'] == 'h' and x['n'] not in h.VOID and x['n'] not in h.FOREIGN and not isop(x)]
            hosts = [x for x in hosts if not any(x is y or any(x is z for z, _ in h.walk(y)) for y, _, _ in mounts)] or [body]
            p = r.choice(hosts); p['c'].insert(r.randint(0, len(p['c'])), m)
            if m['n'] == 'foreignObject': m['s'] = 's'
            if k == 't':
                if any(y['n'] == 'app-root' for y, _, _ in mounts): p['c'] = [x for x in p['c'] if x is not m]; continue
                mounts.append((m, dict(k='', v='app-root'), 'app-root'))
            else: mounts.append((m, dict(k=k, v=n if k != '[' else q[1:]), {'#': '#' + n, '.': '.' + n, '[': f'[{q[1:]}]'}[k]))
    case = dict(op='mount', own=r.randint(0, 1), page=copy.deepcopy(body), steps=[])
    cont = [E('body', copy.deepcopy(m['c']), m['a']) for m, _, _ in mounts]
    lost = set()
    for _ in range(nsteps):
        if len(lost) == len(mounts): break
        i = r.choice([i for i in range(len(mounts)) if i not in lost])
        m, sel, css = mounts[i]
        how = r.choice(['blob'] * 4 + ['list', 'slots', 'slots'] + (['json'] if css == 'body' else []) + (['html'] if stable else []) + r.choice([[], ['badblob', 'badsel', 'none', 'far', 'farslot']]))
        new = g.mutate(cont[i], r.randint(0, 5)) if r.random() < .85 else E('body', g.body(r.randint(0, 10))['c'], cont[i]['a'])
        if css != 'body': new['a'] = [a for a in new['a'] if not IDENT(a)] + [copy.deepcopy(a) for a in m['a'] if IDENT(a)]
        st = dict(how=how, sel=sel, css=css, plain=int(css == 'body' and r.random() < .5), chunk=r.choice([1, 1, 2, 3]), old=cont[i], new=new)
        if how == 'none': st.update(how=r.choice(['blob', 'list', 'slots']), sel=dict(k='#', v='nowhere'), css='#nowhere', plain=0)
        elif how == 'badsel': st.update(sel=dict(k='#', v='!!'), css='!!', plain=0)
        elif how == 'html': st.update(oldhtml=h.html(cont[i]), newhtml=h.html(new))
        case['steps'].append(copy.deepcopy(st))
        if how in ('far', 'farslot'): lost.add(i)
        elif how not in ('badblob', 'badsel', 'none'): cont[i] = new
    return case
def W03(ck):
    r = random.Random(ck.seed * 1000 + 31)
    k = 1 if ck.quick else 10
    cs = [mount_case(r, r.choice([1, 3, 6])) for _ in range(3000 * k)] + [mount_case(r, 25) for _ in range(150 * k)]
    r.shuffle(cs)
    parts, outs = record(build(), cs, J, lambda cs: lambda i, why: J(dict(id=cs[i]['id'], panic=why, start=E('html'), steps=[])))
    ck.validate([('MountTrace', [], ['InputsOk', 'Sane', 'W03'], {'W03'})], [([J(dict(id=c['id'], steps=[{k: o[k] for k in ('how', 'sel', 'new')} for o in c['steps']])) for c in p], o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    return ck.finish()

# ---------------------------------------------------------------- live reload
ROUTES = ['/', '', '/a', '/a/', '/A', '/index.html', '/b?x=1', '/é']
def render(r, body, head, form):
    inner = ''.join(map(h.html, body['c']))
    at = ''.join(f' {a[1]}="{h.esc(a[2])}"' for a in body['a'])
    if form == 'raw': return inner
    hd = f'<head>{head}</head>'
    return ('<!DOCTYPE html>' if form == 'doc' else '') + f'<html>{hd}<body{at}>{inner}</body></html>'
def nearly(r, b):
    """a body that differs as little as can be"""
    b = copy.deepcopy(b)
    ts = [x for x, _ in h.walk(b) if x['t']]
    es = [x for x, _ in h.walk(b) if x['a']]
    y = r.random()
    if y < .3: b['c'].append(T(r.choice([' ', '\n', '  '])))
    elif y < .5: b['c'].insert(0, T(r.choice([' ', '\n'])))
    elif y < .75 and ts:
        x = r.choice(ts)
        x['t'] = r.choice([x['t'].upper(), x['t'] + ' ', x['t'].strip() or 'x', x['t'] + '.', x['t'].replace(' ', '  ')])
    elif es:
        a = r.choice(es)['a']
        if len(a) > 1 and r.random() < .5: a.reverse()
        else: x = r.choice(a); x[2] = r.choice([x[2] + ' ', x[2].upper(), x[2].strip()])
    return h.tidy(b)
def live_case(r, nsteps, nroutes=3, ndocs=6, size=12):
    g = h.Gen(r, tags=h.STABLE, attrs=h.ATTRS)
    docs, seen = [], set()
    b = g.body(r.randint(1, size))
    while len(docs) < ndocs:
        x = r.random()
        if x < .6: b = g.mutate(b, r.randint(1, 3))
        elif x < .75: b = g.body(r.randint(1, size))
        elif x < .9: b = nearly(r, b)
        form = r.choice(['doc', 'doc', 'html', 'raw']) if r.random() < .7 or not docs else docs[-1]['form']
        if form == 'raw' and (b['a'] or not b['c'] or '<body' in str(b)): form = 'html'
        head = '' if form == 'raw' else r.choice(['', '<title>t</title>', '<title>t</title>', '<meta charset="utf-8">'])
        s = render(r, b, head, form)
        if s in seen: continue
        seen.add(s)
        docs.append(dict(html=s, body=copy.deepcopy(b), head=head, form=form))
    for d in docs: d.pop('form')
    heads = ['', '<script src="a.js"></script>', '<style>p{}</style>', ' ']
    routes = r.sample(ROUTES, nroutes) if nroutes <= len(ROUTES) else ROUTES + [f'/r{i}' for i in range(nroutes - len(ROUTES))]
    last, lasth, steps = {}, {}, []
    for _ in range(nsteps):
        o = r.choice(['serve', 'serve', 'diff', 'diff', 'diff', 'diffh', 'diffh', 'head', 'rm'] + (['clear'] if r.random() < .3 else []))
        q = r.randint(1, nroutes)
        d = r.randint(1, ndocs) if r.random() < .8 else last.get(q, 1)
        if r.random() < .3 and q in last: d = max(1, min(ndocs, last[q] + r.choice([-1, 1])))
        x = r.randint(1, 4) if r.random() < .4 else lasth.get(q, r.randint(1, 2))
        steps.append(dict(o=o, r=q, h=d, x=x))
        if o in ('serve', 'diff', 'diffh'): last[q] = d
        if o in ('head', 'diffh'): lasth[q] = x
    return dict(docs=docs, heads=heads, routes=routes, steps=steps)
def live_all(r, n):
    """every history of n steps over two routes, two pages with different bodies, one more with the body of the first, two heads"""
    b1, b2 = E('body', [E('p', [T('a')])]), E('body', [E('p', [T('b')]), E('div')])
    docs = [dict(html=render(r, b1, '', 'doc'), body=b1, head=''), dict(html=render(r, b1, '', 'html'), body=b1, head=''), dict(html=render(r, b2, '', 'doc'), body=b2, head='')]
    ops = [dict(o='clear', r=1, h=1, x=1)]
    for q in (1, 2):
        ops += [dict(o='rm', r=q, h=1, x=1)] + [dict(o='head', r=q, h=1, x=x) for x in (1, 2)] + [dict(o=o, r=q, h=d, x=1) for o in ('serve', 'diff') for d in (1, 2, 3)] \
             + [dict(o='diffh', r=q, h=d, x=x) for d in (1, 3) for x in (1, 2)]
    import itertools
    return [dict(docs=docs, heads=['', '<meta>'], routes=['/', '/a'], steps=[dict(s) for s in p]) for p in itertools.product(ops, repeat=n)], len(ops)
def live_line(c):
    return J(dict(op='live', id=c['id'], steps=[dict(o=s['o'], r=c['routes'][s['r'] - 1], h=c['docs'][s['h'] - 1]['html'], hd=c['heads'][s['x'] - 1]) for s in c['steps']]))
def live_checks(ck, inv):
    ck.design('LiveMC', ['InStep'], ['Routes = {r1, r2}', 'Pages = {1, 2, 3}', 'Heads = {1, 2}', 'SameBody <- Body', 'SameHead <- Always', 'Empty <- First'], properties=['Isolated'])
    r = random.Random(ck.seed * 1000 + ord(inv[0]) + int(inv[1:]))
    k = 1 if ck.quick else 12
    cs, nops = live_all(r, 3)
    full = len(cs)
    if ck.quick: cs = r.sample(cs, 8000)
    ck.cov['exhaustive_parts'] = [dict(space=f'all histories of 3 steps over {nops} operations (2 routes, 3 pages, 2 heads)', size=full, covered=len(cs), complete=len(cs) == full)]
    cs += [live_case(r, r.randint(4, 14), r.randint(1, 4)) for _ in range(2500 * k)]
    cs += [live_case(r, r.randint(20, 60), 3, 10, 20) for _ in range(150 * k)]
    cs += [live_case(r, 3 * n, n, 6, 5) for n in [r.randint(20, 50) for _ in range(10 * k)] + [r.randint(90, 140) for _ in range(2 * k)]]      # many routes
    cs += [live_case(r, 12, 2, 6, 150) for _ in range(6 * k)]      # large pages
    r.shuffle(cs)
    b = build()
    parts, outs = record(b, cs, live_line, lambda p: lambda i, why: J(dict(id=p[i]['id'], panic=why, steps=[])))
    ck.cov['events'] = sum(len(c['steps']) for c in cs)
    ck.validate([('LiveTrace', ['SameBody <- SameB', 'SameHead <- SameH', 'Empty <- NoHead'], ['InputsOk', 'Design', inv], {inv})], [(list(map(J, p)), o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    for c in cs[:2]: ck.cov['samples'].append(dict(routes=c['routes'], steps=[f"{s['o']} {s['r']} {s['h']} {s['x']}" for s in c['steps']][:20]))
    return ck.finish()
def explain(ck, parts, outs):
    if ck.violation and ck.violation[1].get('case'):
        i = ck.violation[1]
        i.update(input=parts[i['shard']][i['case'] - 1], recorded=json.loads(outs[i['shard']][i['case'] - 1]))
def S01(ck): return live_checks(ck, 'S01')
def S02(ck): return live_checks(ck, 'S02')
def H04(ck): return live_checks(ck, 'H04')

# ---------------------------------------------------------------- the live-reload client
def client_case(r, nsteps, size=8):
    """a script of what happens to one browser; what the client does about it is not decided here"""
    g = h.Gen(r, tags=h.STABLE, attrs=h.ATTRS)
    docs, seen = [], set()
    b = g.body(r.randint(1, size))
    head = r.choice(['', '<title>t</title>'])
    while len(docs) < 5:
        if docs: b = g.mutate(b, r.randint(1, 3))
        b['a'] = []
        s = render(r, b, head, r.choice(['doc', 'doc', 'html']))
        if s not in seen: seen.add(s); docs.append(dict(html=s, body=copy.deepcopy(b), head=head))
    path = r.choice(ROUTES + [None])
    here = '/' if path is None else path
    routes = [here] + [x for x in ROUTES if x != here][:2]
    case = dict(op='client', url=r.choice(['ws://localhost:3000/ws', 'wss://x/', '']), path=path, routes=routes, here=here, heads=['', '<script src="a.js"></script>'], docs=docs, css='body', sel=dict(k='', v='body'), shell=None, hole=0)
    if r.random() < .5:
        m = r.choice([('#', 'app', A('|id', 'app')), ('.', 'live', A('|class', 'live')), ('[', 'data-live', A('|data-live', ''))])
        kids = [E('p', [T('x')]), E(r.choice(['main', 'div', 'section']), [], [m[2]]), E('footer')]
        r.shuffle(kids)
        case.update(css={'#': '#app', '.': '.live', '[': '[data-live]'}[m[0]], sel=dict(k=m[0], v=m[1]), shell=E('body', kids), hole=[x['a'] != [] for x in kids].index(True))
    # the phase that the script takes the client to be in
    ph, stale, cur, x1, me = 'off', False, {}, {}, 1
    sick = r.choice([.1, .3, .6])
    def st(o, ok=1, q=1, d=1, x=1, e=''): case['steps'].append(dict(o=o, ok=ok, r=q, h=d, x=x, e=e))
    case['steps'] = []
    bodyof = lambda d: J(docs[d - 1]['body'])
    while len(case['steps']) < nsteps:
        if ph == 'off' or r.random() < .02:
            if r.random() < .5: me = r.randint(1, 3)
            d = r.randint(1, 5); st('load', q=me, d=d); ph, stale = 'connect', False; cur[me] = d; continue
        if ph in ('connect', 'handshake', 'sleep') and r.random() < .08:
            me, d = r.randint(1, 3), r.randint(1, 5); st('nav', q=me, d=d); stale = False; cur[me] = d; continue
        if ph == 'live' and stale or ph == 'subscribe' and stale and r.random() < .5:
            st('send', e=r.choice(['reload', 'head'])); ph, stale = 'connect', False; continue
        if r.random() < (.75 if ph == 'live' else .25):
            q = me if r.random() < .75 else r.randint(1, 3)
            d, x, o = r.randint(1, 5), r.choice([1, 1, 1, 2]), r.choice(['change', 'change', 'changeh'])
            if o == 'changeh' and r.random() < .7: x = x1.get(q, 1)
            if o == 'changeh' and x != x1.get(q, 1): ev = 'head'
            else: ev = 'none' if q in cur and bodyof(cur[q]) == bodyof(d) else 'patches' if q in cur else 'reload'
            is_open = ph in ('subscribe', 'live')
            if q == me and is_open and stale and ev == 'patches': continue
            st(o, q=q, d=d, x=x)
            cur[q] = d
            if o == 'changeh': x1[q] = x
            if q == me and ev != 'none':
                if not is_open: stale = True
                elif ev != 'patches': ph, stale = 'connect', False
            continue
        ok = int(r.random() >= sick)
        if ph == 'live':
            y = r.random()
            if y < .3: st('drop', ok); ph = 'sleep'
            elif y < .7: st('send', e='junk')
            else: st('send', e=r.choice(['reload', 'head'])); ph, stale = 'connect', False
        elif ph == 'sleep': st('wake'); ph = 'connect'
        elif ph == 'subscribe' and r.random() < .2: st('drop', ok); ph = 'sleep'
        else:
            o, nx = {'connect': ('connect', 'handshake'), 'handshake': ('shake', 'subscribe'), 'subscribe': ('ack', 'live')}[ph]
            st(o, ok); ph = nx if ok else 'sleep'
    return case
def client_line(c):
    return J(dict(op='client', id=c['id'], url=c['url'], css=c['css'], path=c['path'], shell=c['shell'], hole=c['hole'], docs=[d['html'] for d in c['docs']],
                  steps=[dict(o=s['o'], ok=s['ok'], r=c['routes'][s['r'] - 1], d=s['h'], hd=c['heads'][s['x'] - 1], e=s['e']) for s in c['steps']]))
def W04(ck):
    const = ['Entry = r1', 'SameBody <- Body', 'SameHead <- Always', 'Empty <- First', 'Pages = {1, 2, 3}', 'Heads = {1, 2}']
    ck.design('ClientMC', ['InStepHere', 'Waits'], const + ['Routes = {r1, r2}'])
    ck.design('ClientMC', ['InStepHere'], [x.replace('{1, 2, 3}', '{1, 3}') for x in const] + ['Routes = {r1}'], name='calm', spec='Calm', properties=['Recovers'])
    r = random.Random(ck.seed * 1000 + 904)
    k = 1 if ck.quick else 12
    cs = [client_case(r, r.randint(5, 25)) for _ in range(1500 * k)] + [client_case(r, 120, 12) for _ in range(100 * k)]
    r.shuffle(cs)
    parts, outs = record(build(), cs, client_line, lambda p: lambda i, why: J(dict(id=p[i]['id'], panic=why, steps=[])))
    ck.cov['events'] = sum(len(c['steps']) for c in cs)
    line = lambda c: J(dict({k: c[k] for k in ('id', 'docs', 'heads', 'routes', 'url', 'sel', 'steps')}))
    ck.validate([('ClientTrace', ['SameBody <- SameB', 'SameHead <- SameH', 'Empty <- NoHead'], ['InputsOk', 'Design', 'W04'], {'W04'})], [(list(map(line, p)), o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    for c in cs[:2]: ck.cov['samples'].append(dict(path=c['path'], css=c['css'], steps=[f"{s['o']} {s['ok']} {s['r']} {s['h']}" for s in c['steps']][:20]))
    return ck.finish()

# ---------------------------------------------------------------- the document API
def dom_case(r, n, size=12):
    par, kids, data, steps = [0, 0, 1, 1], [[], [2, 3], [], []], [None, ('e', 'html'), ('e', 'head'), ('e', 'body')], []
    attrs = [None, {}, {}, {}]
    S = lambda o, x=0, y=0, t='', q='', d='': steps.append(dict(o=o, x=x, y=y, t=t, q=q, d=d))
    def sub(x): return [x] + [z for y in kids[x] for z in sub(y)]
    def out(x):
        if par[x]: kids[par[x]].remove(x); par[x] = 0
    quals = ['|class', '|id', 'xlink|xlink:href', '|href', 'xml|xml:lang', 'xmlns|xmlns', 'xmlns|xmlns:xlink']
    for _ in range(n):
        o = r.choice(['element', 'text', 'comment', 'append', 'append', 'append', 'before', 'before', 'after', 'after', 'remove', 'set', 'set', 'unset', 'settext'])
        m = len(par) - 1
        if o in ('element', 'text', 'comment'):
            if m >= size: continue
            t = r.choice(h.TAGS + ['body', 'head', 'svg']) if o == 'element' else r.choice(h.TEXTS + [''])
            par.append(0); kids.append([]); data.append((o[0], t)); attrs.append({})
            S(o, t=t)
        elif o in ('append', 'before', 'after'):
            y = r.randint(2, m)
            if o == 'append':
                xs = [x for x in range(1, m + 1) if data[x][0] == 'e' and x not in sub(y) and not (kids[x] and kids[x][-1] == y)]
                if not xs: continue
                x = r.choice(xs); S(o, x, y); out(y); kids[x].append(y); par[y] = x
            else:
                xs = [x for x in range(2, m + 1) if x != y and par[x] and par[x] not in sub(y)]
                i = lambda x: kids[par[x]].index(x)
                xs = [x for x in xs if not (par[x] == par[y] and i(y) == i(x) + (1 if o == 'after' else -1))]
                if not xs: continue
                x = r.choice(xs); S(o, x, y); out(y); p = par[x]; kids[p].insert(i(x) + (o == 'after'), y); par[y] = p
        elif o == 'remove': x = r.randint(2, m); S(o, x); out(x)
        elif o == 'settext': S(o, r.randint(1, m), t=r.choice(h.TEXTS + ['']))
        else:
            x = r.randint(1, m); q = r.choice(quals)
            S(o, x, t=r.choice(h.VALS) if o == 'set' else '', q=q, d=q.split('|')[1])
    return dict(steps=steps, own=r.randint(0, 1))
def dom_all(n):
    """every history of n steps from two detached nodes in an empty page"""
    mk = [dict(o='element', x=0, y=0, t='p', q='', d=''), dict(o='text', x=0, y=0, t='a', q='', d='')]
    import itertools
    ops = [(o, x, y) for o in ('append', 'before', 'after') for x in range(1, 6) for y in range(2, 6) if x != y] + [('remove', x, 0) for x in range(2, 6)] + [('set', x, 0) for x in (3, 4, 5)] + [('settext', 4, 0), ('settext', 5, 0)]
    for p in itertools.product(ops, repeat=n):
        par, kids, ok = {1: 0, 2: 1, 3: 1, 4: 0, 5: 0}, {1: [2, 3], 2: [], 3: [], 4: [], 5: []}, True
        sub = lambda x: [x] + [z for y in kids[x] for z in sub(y)]
        for o, x, y in p:
            if o in ('append', 'before', 'after'):
                q = x if o == 'append' else par[x]
                if not q or q == 5 or q in sub(y) or (o != 'append' and x in sub(y)): ok = False; break
                i = kids[q].index(y) if y in kids[q] else None
                if o == 'append' and i is not None and i == len(kids[q]) - 1: ok = False; break
                if o != 'append' and i is not None and kids[q].index(x) == i + (1 if o == 'before' else -1): ok = False; break
                if par[y]: kids[par[y]].remove(y)
                kids[q].insert(len(kids[q]) if o == 'append' else kids[q].index(x) + (o == 'after'), y); par[y] = q
            elif o == 'remove':
                if par[x]: kids[par[x]].remove(x); par[x] = 0
        if ok: yield dict(steps=[dict(s) for s in mk] + [dict(o=o, x=x, y=y, t='v' if o in ('set', 'settext') else '', q='|a' if o == 'set' else '', d='a' if o == 'set' else '') for o, x, y in p], own=0)
def H07(ck):
    ck.design('DomMC', ['Design', 'Neighbours'], [f'Max = {5 if ck.quick else 6}', 'Values = {"v"}'])
    r = random.Random(ck.seed * 1000 + 7)
    k = 1 if ck.quick else 12
    cs = list(dom_all(2 if ck.quick else 3))
    ck.cov['exhaustive_parts'] = [dict(space=f'all valid histories of {2 if ck.quick else 3} changes to an empty page and two new nodes', size=len(cs), covered=len(cs), complete=True)]
    cs += [dom_case(r, r.randint(3, 25)) for _ in range(2500 * k)] + [dom_case(r, r.randint(40, 100), 30) for _ in range(80 * k)]
    r.shuffle(cs)
    parts, outs = record(build(), cs, lambda c: J(dict(op='dom', id=c['id'], steps=c['steps'], own=c['own'])), lambda p: lambda i, why: J(dict(id=p[i]['id'], panic=why, steps=[])))
    ck.cov['operations'] = sum(len(c['steps']) for c in cs)
    ck.validate([('DomTrace', [], ['InputsOk', 'Design', 'H07'], {'H07'})], [([J(dict(id=c['id'], steps=c['steps'])) for c in p], o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    for c in cs[:2]: ck.cov['samples'].append([f"{s['o']} {s['x']} {s['y']} {s['t']}" for s in c['steps']][:20])
    return ck.finish()

# ---------------------------------------------------------------- the parser's sink
def sink_case(r, n):
    hasdt = r.random() < .7
    words = ['alpha', 'b', ' ', 'é…', 'x&y', 'gamma delta', '\n']
    body = ''.join(r.choice(words) for _ in range(8))
    inp = (r.choice(['<!DOCTYPE html>', '<!doctype html>', ' \n<!DOCTYPE html>']) if hasdt else r.choice(['<html>', '', 'p'])) + body
    raw, calls = [], []
    def text():
        """(value, how the parser passes it): a fresh text, or a piece of the input (only where the sink is given the input itself)"""
        if hasdt and r.random() < .6:
            a = r.randint(0, len(inp) - 1); b = r.randint(a + 1, min(len(inp), a + 6))
            return inp[a:b], dict(b=[len(inp[:a].encode()), len(inp[a:b].encode())])
        v = r.choice(words)
        return v, dict(n=v)
    def call(o, rw=None, **kw):
        calls.append(dict(dict(o=o, x=0, y=0, z=0, v='', n='', s='h', a=[]), **kw))
        raw.append(dict({k: v for k, v in kw.items() if k in 'xyzns' and len(k) == 1}, o=o, **(rw or {})))
    def attrs(k):
        out, rw = [], []
        for q in r.sample(NSATTRS, k):
            v, t = text(); out.append(A(q, v)); rw.append(dict(t, q=q))
        return out, rw
    par, kids, kind = [0], {0: []}, ['d']      # handles only; texts are 't' in kids
    el = lambda: [i for i in range(len(kind)) if kind[i] == 'e']
    def sub(x): return [x] + [z for y in kids[x] if y != 't' for z in sub(y)]
    def out(x):
        if par[x] is not None: kids[par[x]].remove(x); par[x] = None
    def element(name=None, s=None):
        a, rw = attrs(r.choice([0, 0, 1, 2]))
        nm = name or r.choice(h.TAGS + ['table', 'body', 'svg', 'path'])
        call('element', dict(a=rw), n=nm, s=s or r.choice('hhhsm'), a=a)
        par.append(None); kids[len(par) - 1] = []; kind.append('e')
        return len(par) - 1
    if r.random() < .3: v, t = text(); call('comment', dict(t=t), v=v); par.append(None); kids[len(par) - 1] = []; kind.append('c'); call('append', x=0, y=len(par) - 1); kids[0].append(len(par) - 1); par[-1] = 0
    if hasdt or r.random() < .3:
        call('doctype', dict(t=dict(n='html')), v='html')
    e = element('html', 'h'); call('append', x=0, y=e); kids[0].append(e); par[e] = 0
    root = e
    if r.random() < .9:
        for nm in ('head', 'body'):
            e = element(nm, 'h'); call('append', x=root, y=e); kids[root].append(e); par[e] = root
    for _ in range(n):
        o = r.choice(['element', 'element', 'comment', 'append', 'append', 'append', 'appendt', 'appendt', 'appendt', 'before', 'beforet', 'beforet', 'based', 'basedt', 'basedt', 'attrs', 'remove', 'reparent', 'error', 'name'])
        es = el()
        if o == 'element': element()
        elif o == 'comment':
            v, t = text(); call(o, dict(t=t), v=v); par.append(None); kids[len(par) - 1] = []; kind.append('c')
        elif o == 'append':
            ys = [y for y in range(1, len(par)) if par[y] is None and y != root]
            if not ys: continue
            y = r.choice(ys); xs = [x for x in es + ([0] if kind[y] == 'c' else []) if x not in sub(y)]
            if not xs: continue
            x = r.choice(xs); call(o, x=x, y=y); kids[x].append(y); par[y] = x
        elif o == 'appendt':
            x = r.choice(es); v, t = text(); call(o, dict(t=t), x=x, v=v)
            if not kids[x] or kids[x][-1] != 't': kids[x].append('t')
        elif o in ('before', 'beforet'):
            xs = [x for x in range(1, len(par)) if par[x] is not None and par[x] != 0]
            if not xs: continue
            x = r.choice(xs); p = par[x]
            if o == 'beforet':
                v, t = text(); call(o, dict(t=t), x=x, v=v); i = kids[p].index(x)
                if i == 0 or kids[p][i - 1] != 't': kids[p].insert(i, 't')
            else:
                ys = [y for y in range(1, len(par)) if y != x and y != root and p not in sub(y) and not (par[y] == p and kids[p].index(y) + 1 == kids[p].index(x))]
                if not ys: continue
                y = r.choice(ys); call(o, x=x, y=y); out(y); kids[p].insert(kids[p].index(x), y); par[y] = p
        elif o in ('based', 'basedt'):
            x = r.choice([e for e in es if e != root] or [0]); ps = [e for e in es if e != x]
            if not x or not ps: continue
            p = r.choice(ps)
            if o == 'basedt':
                v, t = text(); call(o, dict(t=t), x=x, y=p, v=v)
                if par[x] is not None:
                    q = par[x]; i = kids[q].index(x)
                    if i == 0 or kids[q][i - 1] != 't': kids[q].insert(i, 't')
                elif not kids[p] or kids[p][-1] != 't': kids[p].append('t')
            else:
                ys = [y for y in range(1, len(par)) if par[y] is None and y != root and y not in (x, p) and x not in sub(y) and p not in sub(y) and (par[x] is None or par[x] not in sub(y))]
                if not ys: continue
                y = r.choice(ys); call(o, x=x, y=p, z=y)
                if par[x] is not None: q = par[x]; kids[q].insert(kids[q].index(x), y); par[y] = q
                else: kids[p].append(y); par[y] = p
        elif o == 'attrs':
            a, rw = attrs(r.randint(1, 4)); call(o, dict(a=rw), x=r.choice(es), a=a)
        elif o == 'remove':
            xs = [x for x in range(1, len(par)) if x != root]
            if xs: x = r.choice(xs); call(o, x=x); out(x)
        elif o == 'reparent':
            x = r.choice(es); ys = [y for y in es if y != x and y not in sub(x)]
            if not ys or x == root: continue
            y = r.choice(ys); call(o, x=x, y=y)
            for z in kids[x]:
                if z != 't': par[z] = y
            kids[y] += kids[x]; kids[x] = []
        elif o == 'error': call(o, dict(t=dict(n='e%d' % len(calls))), v='e%d' % len(calls))
        else: call(o, x=r.choice(es))
    return dict(input=inp, hasdt=hasdt, calls=calls, raw=raw)
def H08(ck):
    ck.design('SinkMC', ['Design', 'NoEmptyText'], [f'MaxNodes = {4 if ck.quick else 5}'], properties=['Joined'], constraints=['Small'])
    r = random.Random(ck.seed * 1000 + 8)
    k = 1 if ck.quick else 12
    cs = [sink_case(r, r.randint(1, 12)) for _ in range(2500 * k)] + [sink_case(r, r.randint(12, 40)) for _ in range(2000 * k)] + [sink_case(r, r.randint(80, 200)) for _ in range(60 * k)]
    parts, outs = record(build(), cs, lambda c: J(dict(op='sink', id=c['id'], input=c['input'], calls=c['raw'])), lambda p: lambda i, why: J(dict(id=p[i]['id'], panic=why)))
    ck.cov['calls'] = sum(len(c['calls']) for c in cs)
    ck.validate([('SinkTrace', [], ['InputsOk', 'Design', 'H08'], {'H08'})], [([J({k: c[k] for k in ('id', 'input', 'hasdt', 'calls')}) for c in p], o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    for c in cs[:2]: ck.cov['samples'].append(dict(input=c['input'], calls=[f"{s['o']} {s['x']} {s['y']} {s['z']} {s['n']}{s['v']}" for s in c['calls']][:20]))
    return ck.finish()

# ---------------------------------------------------------------- markup
TRICKY = ['a', 'b & c', '<', '>', '&', '&amp;', '&lt;b&gt;', '<b>', '</div>', '"q"', "it's", 'é…', ' ', '\n', '  x  ', ']]>', '<!--', '-->', '&', ';', 'amp;', '&copy;', '&#38;', '&#x26;', '🙂', '&nbsp', '\u00a0', 'a<b&&c>d', '&quot;', '<body>', '<HTML lang="x">']
RAWTXT = ['a', 'x < y && z > w', '"q" \'p\'', '&amp;', '&lt;', '</div>', '<p>', 'if (a<b) { }', 'é', '\n', '<', '&', '"<body>"', '<html']
COMM = ['?xml version="1.0"?', '[if IE]', '', 'x', ' note ', '<b>', '&amp;', 'a-b', '- -', '"', '<div', 'é', '<body> goes here', ' <html lang="en"> ']
def markup_tree(r, n, tags=h.STABLE, rawtags=('script', 'style', 'iframe', 'noembed', 'noframes', 'xmp', 'noscript'), foreign=True, quals=None):
    quals = quals or ['|class', '|id', '|href', '|title', '|data-x', '|aria-label', '|onclick']
    def at(qs): return [A(q, ''.join(r.choice(TRICKY) for _ in range(r.choice([0, 1, 1, 2])))) for q in r.sample(qs, r.choice([0, 0, 1, 1, 2, 3]))]
    def txt(l): return ''.join(r.choice(l) for _ in range(r.choice([1, 1, 2, 3])))
    def leaf():
        x = r.random()
        if x < .55: return T(txt(TRICKY))
        if x < .65: return C(r.choice(COMM))
        if x < .75: return E(r.choice(['br', 'img', 'hr', 'input', 'wbr', 'embed', 'source', 'track', 'area', 'param', 'link', 'meta', 'base']), a=at(quals))
        if x < .85 and rawtags:
            t = r.choice(rawtags)
            return E(t, [T(txt(RAWTXT))] if r.random() < .85 else [], at(quals))
        if x < .87: return E('textarea', [T(r.choice(['t', '\n', '\n\n', '']) + txt(TRICKY))] if r.random() < .8 else [], at(quals))
        if x < .9: return E(r.choice(['pre', 'listing']), r.choice([[], [T(r.choice(['\n', '\n\n', ' \n', 'x']) + txt(TRICKY))], [E('b', [T('\n')]), T('\n')], [T('\n'), E('b')], [C('x'), T('\n')]]), at(quals))
        if x < .95 and foreign:
            s = r.choice('sm')
            fq = quals + (['xlink|xlink:href', 'xml|xml:lang'] if s == 's' else [])
            inner = [E(t, [T(r.choice(['', '', '\n']) + txt(TRICKY))] if r.random() < .7 else [], at(fq), s) for t in r.sample(['g', 'path', 'style', 'script', 'text', 'linearGradient', 'a', 'link', 'source', 'col', 'input', 'textarea'] if s == 's' else ['mrow', 'mx', 'style', 'annotation', 'param', 'wbr', 'base', 'xmp', 'iframe'], r.randint(0, 3))]
            return E('svg' if s == 's' else 'math', inner, at(fq), s)
        return E(r.choice(tags), a=at(quals))
    def fill(e, n, d):
        while n > 0:
            if n == 1 or d > 6 or r.random() < .3: e['c'].append(leaf()); n -= 1
            else:
                k = r.randint(1, n); x = E(r.choice(tags), a=at(quals)); fill(x, k - 1, d + 1); e['c'].append(x); n -= k
        return e
    return fill(E('body', a=at(quals)), n, 0)
def split(r, t):
    """texts in pieces, side by side, as patches and other callers can leave them"""
    for e, _ in list(h.walk(t)):
        out = []
        for c in e['c']:
            if c['g'] == 't' and len(c['t']) > 1 and r.random() < .6:
                i = r.randint(1, len(c['t']) - 1); out += [T(c['t'][:i]), T(c['t'][i:])]
            else: out.append(c)
        e['c'] = out
def deepen(r, b, n):
    """b's content n levels further down"""
    for _ in range(n):
        e = E(r.choice(h.STABLE), b['c'], r.choice([[], [], [A('|id', 'x')]]))
        b['c'] = [e] if r.random() < .6 else r.choice([[T('a'), e], [e, T('b & c')], [C('x'), e], [e, E('br')]])
    return b
def H09(ck):
    r = random.Random(ck.seed * 1000 + 9)
    k = 1 if ck.quick else 14
    cs = []
    def add(kids, doctype, which, own=None):
        b = [i for i, x in enumerate(kids) if x['g'] == 'e' and x['n'] == 'body']
        cs.append(dict(root=E('html', kids, r.choice([[], [], [A('|lang', 'en')]])), doctype=doctype, which=which, body=b[0] + 1 if b else 0, own=r.randint(0, 1)))
    for t in TRICKY:      # every special text in every kind of place
        add([E('body', [E('p', [T(t)])])], '', ['plain'])
        add([E('body', [E('p', a=[A('|title', t)])])], '', ['plain'])
        add([E('body', [E('textarea', [T('x' + t)])])], '', ['plain'])
        add([E('body', [E('svg', [E('style', [T(t)], s='s')], s='s')])], '', ['plain'])
        add([E('body', [E('svg', [E('textarea', [T('\n' + t)], s='s')], s='s')])], '', ['plain'])
        add([E('body', [E('math', [E('mi', [T('\n' + t)], s='m'), E('textarea', [T('\n' + t)], s='m')], s='m')])], '', ['plain'])
        for i in range(1, len(t)): add([E('body', [E('p', [T(t[:i]), T(t[i:])])])], '', ['plain'])
    for t in RAWTXT:
        for g in ('script', 'style', 'iframe', 'noembed', 'noframes', 'xmp', 'noscript'): add([E('body', [E(g, [T(t)])])], '', ['body'])
    for _ in range(900 * k):
        b = markup_tree(r, r.randint(1, 9))
        if r.random() < .2: b['c'].insert(r.randint(0, len(b['c'])), T(''))
        head = E('head', r.choice([[], [E('title', [T('t' + r.choice(TRICKY))])], [E('meta', a=[A('|charset', 'utf-8')]), E('style', [T('p > a { content: "&lt;" }')])]]))
        if r.random() < .3: split(r, b)
        kids = [head, b] if r.random() < .8 else r.choice([[b], [head], [b, E('p')], [C('x'), head, T('\n'), b]])
        add(kids, r.choice(['', 'html', 'html']), [r.choice(['full', 'full', 'plain', 'body', 'inner'])])
    for _ in range(30 * k):
        add([E('head'), markup_tree(r, r.randint(20, 60))], 'html', ['full'])
    for _ in range(3 * k):
        add([E('head'), deepen(r, markup_tree(r, 4), r.choice([17, 33, 80]))], 'html', [r.choice(['full', 'plain', 'body'])])
        b = h.Gen(r, tags=h.STABLE).wide(r.choice([40, 130])); b['a'] = []
        add([E('head'), b], 'html', [r.choice(['full', 'plain', 'body'])])
    r.shuffle(cs)
    parts, outs = record(build(), cs, lambda c: J(dict(op='html', id=c['id'], root=c['root'], doctype=c['doctype'], own=c['own'])), lambda p: lambda i, why: J(dict(id=p[i]['id'], panic=why)))
    ck.cov['characters'] = sum(len(json.loads(o).get('full', '')) for p in outs for o in p)
    ck.validate([('SerializeTrace', [], ['InputsOk', 'H09'], {'H09'})], [([J({k: c[k] for k in ('id', 'root', 'doctype', 'which', 'body')}) for c in p], o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    for o in outs[0][:3]: ck.cov['samples'].append(json.loads(o).get('full', '')[:300])
    return ck.finish()
def surface(r, t, foreign=False):
    """the tree written down in one of the ways people write it"""
    if t['g'] == 't' and foreign and t['t'] and not any(x in t['t'].lower() for x in (']]>', '<html', '<body')) and r.random() < .15: return f'<![CDATA[{t["t"]}]]>'
    if t['g'] == 't': return ''.join({'&': r.choice(['&amp;', '&#38;']), '<': r.choice(['&lt;', '&#60;'])}.get(c, r.choice(['&gt;', '>']) if c == '>' else c) for c in t['t'])
    if t['g'] == 'c':
        x, y = t['t'], r.random()
        if y < .55: return f'<!--{x}-->'
        if y < .65: return r.choice(['<!-->', '<!--->']) if x == '' else f'<!--{x}--!>'
        if '>' not in x and x[:1] == '?': return f'<{x}>'
        if '>' not in x and x[:1] and not (x[0].isascii() and x[0].isalpha()) and y < .85: return f'</{x}>'
        return f'<!{x}>' if '>' not in x and x[:2] != '--' else f'<!--{x}-->'
    def name(n): return ''.join(r.choice([c, c.upper()]) for c in n) if t['s'] == 'h' and r.random() < .15 else n
    out = '<' + name(t['n'])
    for q, d, v in t['a']:
        out += r.choice([' ', ' ', '\n  ']) + (d.upper() if t['s'] == 'h' and r.random() < .1 else d)
        e = v.replace('&', '&amp;')
        x = r.random()
        if v == '' and x < .5: pass
        elif v and x < .25 and not any(c in v for c in ' \n\t"\'<>=`'): out += '=' + e
        elif x < .5: out += "='" + e.replace("'", r.choice(['&#39;', '&apos;'])) + "'"
        else: out += '="' + e.replace('"', '&quot;') + '"'
    void = t['s'] == 'h' and t['n'] in ('br', 'img', 'hr', 'input', 'wbr', 'embed', 'source', 'track', 'area', 'param', 'link', 'meta', 'base')
    last_unquoted = t['a'] and not out.endswith(('"', "'"))
    out += (r.choice(['>', '>', ' >', ' />' if void else '>']))
    if void: return out
    raw = t['s'] == 'h' and t['n'] in ('script', 'style', 'iframe', 'noembed', 'noframes', 'xmp', 'noscript')
    if t['s'] == 'h' and t['n'] in ('pre', 'listing', 'textarea') and (r.random() < .3 or t['c'] and t['c'][0]['t'].startswith('\n')): out += '\n'
    return out + ''.join(c['t'] if raw else surface(r, c, t['s'] != 'h') for c in t['c']) + f'</{name(t["n"])}' + r.choice(['>', '>', ' >'])
LEADS = [' ', '\n', '<!-- c -->', '\n<!-- <!DOCTYPE x> --> \n', '<!--a--><!--b-->', '<?xml version="1.0" encoding="utf-8"?>\n', '<!-->', '<!--->', '<!--a--!>', '<!ELEMENT br EMPTY>', '</ x>', '</>', '<!-- a > b -->', '<? -- ?>', '<!>', '<!->', '<!---->', '<!-- -- ->-->']
def H11(ck):
    r = random.Random(ck.seed * 1000 + 17)
    k = 1 if ck.quick else 14
    cs = []
    for _ in range(1200 * k):
        b = h.tidy(markup_tree(r, r.choice([1, 2, 3, 5, 8, 12, 20])))
        if r.random() < .008: b = deepen(r, b, r.choice([17, 33, 80]))
        inner = ''.join(surface(r, c) for c in b['c'])
        form = r.choice(['doc', 'doc', 'doc', 'body', 'raw', 'raw', 'frag'])
        lead = ''.join(r.choice(LEADS) for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3])))
        dt = r.choice(['', '<!DOCTYPE html>', '<!doctype html>', '<!DocType  HTML >', '<!DOCTYPE html>\n'])
        btag = surface(r, dict(b, c=[]))
        i = btag.rindex('</')
        if form == 'doc':
            head = r.choice(['', '<head></head>', '<head><title>a &amp; b</title></head>', '<HEAD><meta charset=utf-8><style>p > a { }</style></HEAD>'])
            s = lead + dt + r.choice(['<html>', '<html lang="en">', '<HTML>']) + head + btag[:i] + inner + btag[i:] + '</html>'
        elif form == 'body': s = lead + dt + btag[:i] + inner + btag[i:]
        else:
            if form == 'raw' and r.random() < .3: inner = r.choice([' ', '\n', ' *']) + inner
            s = inner
            # behind a doctype, what is not yet content is dropped or goes elsewhere
            if form == 'raw' and b['c'] and b['c'][0]['g'] == 'e' and b['c'][0]['n'] in h.STABLE and inner.startswith('<') and r.random() < .5: s = r.choice(LEADS[:2] + ['', '']) + dt + inner if dt else s
        bom = '\ufeff' if form != 'frag' and r.random() < .1 else ''
        cs.append(dict(text=s, html=bom + s, form=form))
    cs = [c for c in cs if c['text']]
    parts, outs = record(build(), cs, lambda c: J(dict(op='parse', id=c['id'], html=c['html'], frag=int(c['form'] == 'frag'))), lambda p: lambda i, why: J(dict(id=p[i]['id'], panic=why)))
    ck.cov['characters'] = sum(len(c['text']) for c in cs)
    ck.validate([('ParseTrace', [], ['InputsOk', 'H11'], {'H11'})], [([J({k: c[k] for k in ('id', 'text', 'form')}) for c in p], o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    for c in cs[:3]: ck.cov['samples'].append(dict(form=c['form'], text=c['text'][:300]))
    return ck.finish()
def S03(ck):
    r = random.Random(ck.seed * 1000 + 23)
    k = 1 if ck.quick else 14
    import itertools
    atoms = ['<head>', '<HEAD >', '<head\nlang="a>b">', "<head class='x>\"y'>", '<header>', '<heading>', '<!-- <head> -->', '<html>', '</head>', '<title>t</title>', '<!DOCTYPE html>', 'é', '<head', '>', '<hEaD/>', '<body>', '<', '<!--', '<thead>', '"', '-->', ' ', '🙂']
    cs = [dict(html=''.join(p)) for n in range(4 if ck.quick else 5) for p in (itertools.product(atoms, repeat=n) if n < 3 else ([r.choice(atoms) for _ in range(n)] for _ in range(2500 * k)))]
    ck.cov['exhaustive_parts'] = [dict(space=f'all sequences of at most 2 of {len(atoms)} pieces of markup', size=1 + len(atoms) + len(atoms) ** 2, complete=True)]
    for _ in range(2000 * k): cs.append(dict(html=''.join(r.choice(atoms) for _ in range(r.randint(4, 12)))))
    for c in cs: c['content'] = r.choice(['<script src="x"></script>', '<style>a>b{}</style>', '', 'é', '<head>', '$1'])
    r.shuffle(cs)
    parts, outs = record(build(), cs, lambda c: J(dict(op='inject', id=c['id'], html=c['html'], content=c['content'])), lambda p: lambda i, why: J(dict(id=p[i]['id'], panic=why)))
    ck.validate([('Inject', [], ['InputsOk', 'S03'], {'S03'})], [([J(c) for c in p], o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    ck.cov['samples'] += [c for c in cs[:3]]
    return ck.finish()
# what page authors put into selectors and URLs, and what would end a string, a line or the script
LOADER = ['main', '#content', '[role="main"]', "[data-x='a b']", '\\', '"', "'", '`', '${x}', '\n', '\r', '\t', '\0', '\x7f', '\u2028', '\u2029', '</script>', '</SCRIPT ', '<!--', '-->', '<script>', '<script ', '*/', '//', '/*', '");', 'é', '🙂',
          '\\n', '\\u0041', '&amp;', '&quot;', '#a\\:b', '>', '<', '/', ' ', ';', 'ws://localhost:3000/_lr?a=1&b=2', '/pkg/x.js?v="1"', '\x01', '\x0b', '\x08', '\x1f']
def S04(ck):
    r = random.Random(ck.seed * 1000 + 29)
    k = 1 if ck.quick else 8
    import itertools
    names = ('js', 'wasm', 'sel', 'ws')
    plain = dict(js='/pkg/hotmeal_wasm.js', wasm='/pkg/hotmeal_wasm_bg.wasm', sel='body', ws='ws://localhost:3000/_lr')
    cs = [dict(plain)]
    for n in names:
        for p in itertools.product(LOADER, repeat=1 if ck.quick else 2): cs.append(dict(plain, **{n: ''.join(p)}))
    if ck.quick: cs += [dict(plain, sel=''.join(p)) for p in itertools.product(LOADER, repeat=2)]
    ck.cov['exhaustive_parts'] = [dict(space=f'each value made of {"at most 2" if not ck.quick else 1} of {len(LOADER)} pieces, the selector of at most 2, the other values plain', size=len(cs), complete=True)]
    any_ = [chr(i) for i in range(128)] + ['\x85', '\xa0', 'ÿ', 'Ā', '\u07ff', '\u0800', '\ufeff', '\ufffd', '\uffff', '\ue000', '\U00010000', '\U0010ffff', '\ud7ff']
    for _ in range(1200 * k):
        cs.append({n: ''.join(r.choice(LOADER) if r.random() < .7 else r.choice(any_) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))) if r.random() < .8 else plain[n] for n in names})
    for c in cs:
        c['chars'], c['pairs'] = {'none': ''}, {'none': {'none': ''}}
        for x in set(''.join(c[n] for n in names)):
            c['chars'][f'{ord(x):x}'] = x
            if ord(x) > 0xffff: c['pairs'].setdefault(f'{0xd800 + (ord(x) - 0x10000 >> 10):x}', {})[f'{0xdc00 + (ord(x) - 0x10000 & 0x3ff):x}'] = x
    r.shuffle(cs)
    parts, outs = record(build(), cs, lambda c: J(dict(op='loader', id=c['id'], **{n: c[n] for n in names})), lambda p: lambda i, why: J(dict(id=p[i]['id'], panic=why, out='')))
    ck.validate([('Script', [], ['InputsOk', 'S04'], {'S04'})], [([J(c) for c in p], o) for p, o in zip(parts, outs)])
    explain(ck, parts, outs)
    for c in cs[:3]: ck.cov['samples'].append({n: c[n] for n in names})
    return ck.finish()
