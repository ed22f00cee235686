"""Document trees and histories for the hotmeal checks. A tree is what a parser could have produced: no empty and no
adjacent texts, void elements without children."""
import copy, json, random
TAGS = ['div', 'p', 'span', 'ul', 'li', 'section', 'b', 'em', 'h1', 'a']
VOID = ['br', 'img', 'hr', 'input']
ATTRS = ['|class', '|id', '|href', '|data-x', '|title', '|style']
VALS = ['', 'a', 'b', 'c', 'x y', 'é']
LONG = ['z' * 5000, 'lorem ipsum dolor sit amet consectetur ' * 2, '0123456789' * 30, 'é' * 140, 'x' * 24, 'y' * 25]
TEXTS = ['a', 'b', 'c', 'hello', 'world ', ' ', '\n', 'x&y', '<', '"q"', 'é…']
def E(n, c=(), a=(), s='h'): return dict(g='e', n=n, s=s, t='', a=[list(x) for x in a], c=list(c))
def T(t): return dict(g='t', n='', s='h', t=t, a=[], c=[])
def C(t): return dict(g='c', n='', s='h', t=t, a=[], c=[])
def A(q, v): return [q, q.split('|', 1)[1], v]
def size(t): return 1 + sum(map(size, t['c']))
def walk(t, p=None):
    yield t, p
    for c in t['c']: yield from walk(c, t)
def tidy(t):
    """joins adjacent texts, drops empty ones"""
    out = []
    for c in t['c']:
        if c['g'] == 't':
            if not c['t']: continue
            if out and out[-1]['g'] == 't': out[-1]['t'] += c['t']; continue
        else:
            if c['g'] == 'e': place(c, t)
            tidy(c)
        out.append(c)
    t['c'] = out
    return t
def edit(r, s):
    """another text that is nearly the same"""
    k = r.randint(0, len(s))
    return r.choice([s + 'x', 'x' + s, s[:k] + 'q' + s[k:], s[:-1], s[1:], s + ' ', ' ' + s, s.swapcase(), s.strip() or 'e', s.replace('é', 'e\u0301') if 'é' in s else s + s])
def untidy(r, t, p=.15):
    """empty and adjacent texts, which no parser makes but the document API and patches do"""
    out = []
    for c in t['c']:
        untidy(r, c, p)
        if c['g'] == 't' and len(c['t']) > 1 and r.random() < p: out += [T(c['t'][:1]), T(c['t'][1:])]
        else: out.append(c)
        if r.random() < p: out.append(T(r.choice(['', '', 'a'])))
    if t['g'] == 'e' and t['n'] not in VOID and r.random() < p: out.insert(0, T(''))
    t['c'] = out
    return t
def nsin(ps, pn, n):
    """the namespace of an element in its parent, as a parser decides it"""
    html = ps == 'h' or (ps, pn) in (('s', 'foreignObject'), ('s', 'desc'), ('s', 'title'), ('m', 'mi'), ('m', 'mo'), ('m', 'mn'), ('m', 'ms'), ('m', 'mtext'))
    if n == 'svg' and (html or pn == 'annotation-xml'): return 's'
    if n == 'math' and html: return 'm'
    return 'h' if html else ps
def place(c, t):
    """gives the element c the namespace and the spelling that it has below t"""
    c['s'] = nsin(t['s'], t['n'], c['n'])
    if c['s'] != 's': c['n'] = c['n'].lower()
    else: c['n'] = CAMEL.get(c['n'].lower(), c['n'])
def retype(c, t):
    if c['g'] != 'e': return
    place(c, t)
    for x in c['c']: retype(x, c)
CAMEL = {'foreignobject': 'foreignObject', 'lineargradient': 'linearGradient'}
FOREIGN = ['svg', 'svg', 'math', 'foreignObject', 'desc', 'g', 'mi', 'annotation-xml', 'linearGradient', 'title']
class Gen:
    def __init__(self, r, tags=TAGS, texts=TEXTS, attrs=ATTRS, opaque=0., void=.1, comments=.08):
        self.r, self.tags, self.texts, self.attrs_, self.opaque, self.void, self.comments = r, tags, texts, attrs, opaque, void, comments
    def attrs(self):
        r = self.r
        k = r.choice([0, 0, 0, 1, 1, 2, 3])
        return [A(q, r.choice(VALS)) for q in r.sample(self.attrs_, min(k, len(self.attrs_)))]
    def leaf(self):
        r = self.r
        x = r.random()
        if x < self.comments: return C(r.choice(['x', 'y', ' note ']))
        if x < .65: return T(r.choice(self.texts))
        if x < .65 + self.void: return E(r.choice(VOID), a=self.attrs())
        return E(r.choice(self.tags), a=self.attrs())
    def element(self, n, depth=0):
        r = self.r
        e = E(r.choice(self.tags), a=self.attrs())
        if self.opaque and r.random() < self.opaque: e['a'].append(A('|data-hotmeal-opaque', r.choice(['k1', 'k2', ''])))
        self.fill(e, n - 1, depth)
        return e
    def fill(self, e, n, depth):
        r = self.r
        while n > 0:
            if n == 1 or depth > 8 or r.random() < .3: e['c'].append(self.leaf()); n -= 1
            else:
                k = r.randint(1, n)
                e['c'].append(self.element(k, depth + 1)); n -= k
    def body(self, n):
        b = E('body')
        self.fill(b, n - 1, 0)
        return tidy(b)
    def deep(self, n):
        """a body with a chain of n nested elements"""
        r = self.r
        t = self.leaf()
        for i in range(n):
            t = E(r.choice(self.tags), [t], self.attrs() if r.random() < .2 else [])
            if r.random() < .25: t['c'].insert(r.randint(0, 1), self.leaf())
            if self.opaque and r.random() < self.opaque / 8: t['a'].append(A('|data-hotmeal-opaque', 'k1'))
        return tidy(E('body', [t]))
    def wide(self, n):
        """a body or an element in it with about n children, or with n attributes"""
        r = self.r
        b = x = E('body')
        for _ in range(r.choice([0, 0, 1, 2])): x['c'] = [E(r.choice(self.tags))]; x = x['c'][0]
        if n <= 80 and r.random() < .3: x['a'] = [A(f'|data-a{i}', r.choice(VALS)) for i in range(n)]; self.fill(x, 5, 0)
        else: x['c'] = [self.leaf() if r.random() < .3 else E(r.choice(self.tags), [T(r.choice(LONG if r.random() < .1 else self.texts))] if r.random() < .7 else [], self.attrs() if r.random() < .3 else []) for _ in range(n)]
        return tidy(b)
    def mutate(self, t, k):
        r = self.r
        t = copy.deepcopy(t)
        for _ in range(k):
            ns = [(x, p) for x, p in walk(t)]
            x, p = r.choice(ns)
            elems = [y for y, _ in ns if y['g'] == 'e' and y['n'] not in VOID]
            m = r.choice(['ins', 'insl', 'del', 'text', 'attr', 'attr', 'move', 'move', 'swap', 'rot', 'wrap', 'unwrap', 'tag', 'dup', 'invert'])
            if m == 'ins':
                y = r.choice(elems); y['c'].insert(r.randint(0, len(y['c'])), self.element(r.randint(1, 4)))
            elif m == 'insl':
                y = r.choice(elems); y['c'].insert(r.randint(0, len(y['c'])), self.leaf())
            elif m == 'del' and p: p['c'].remove(x) if False else p['c'].pop(next(i for i, c in enumerate(p['c']) if c is x))
            elif m == 'text':
                ts = [y for y, _ in ns if y['g'] in 'tc']
                if ts: y = r.choice(ts); y['t'] = edit(r, y['t']) if r.random() < .4 else r.choice(self.texts) if y['g'] == 't' else r.choice(['x', 'y', 'z'])
            elif m == 'attr':
                es = [y for y, _ in ns if y['g'] == 'e']
                y = r.choice(es)
                z = r.random()
                if y['a'] and z < .3: y['a'].pop(r.randrange(len(y['a'])))
                elif y['a'] and z < .5: z = r.choice(y['a']); z[2] = r.choice([r.choice(VALS), edit(r, z[2])])
                elif y['a'] and z < .7: r.shuffle(y['a'])
                else:
                    q = r.choice(self.attrs_)
                    if all(a[0] != q for a in y['a']): y['a'].insert(r.randint(0, len(y['a'])), A(q, r.choice(VALS)))
            elif m == 'move' and p:
                sub = {id(y) for y, _ in walk(x)}
                to = [y for y in elems if id(y) not in sub]
                if to:
                    i = next(i for i, c in enumerate(p['c']) if c is x); p['c'].pop(i)
                    y = r.choice(to); y['c'].insert(r.randint(0, len(y['c'])), x)
            elif m == 'swap' and p and len(p['c']) > 1:
                i, j = r.sample(range(len(p['c'])), 2); p['c'][i], p['c'][j] = p['c'][j], p['c'][i]
            elif m == 'rot' and p and len(p['c']) > 1:
                j = r.randrange(len(p['c'])); p['c'] = p['c'][j:] + p['c'][:j]
            elif m == 'wrap' and p:
                i = next(i for i, c in enumerate(p['c']) if c is x); p['c'][i] = E(r.choice(self.tags), [x], self.attrs())
            elif m == 'unwrap' and p and x['g'] == 'e':
                i = next(i for i, c in enumerate(p['c']) if c is x); p['c'][i:i + 1] = x['c']
            elif m == 'tag' and p and x['g'] == 'e' and x['n'] not in VOID: x['n'] = r.choice(self.tags)
            elif m == 'dup' and p:
                y = r.choice(elems); y['c'].insert(r.randint(0, len(y['c'])), copy.deepcopy(x))
            elif m == 'invert' and p and x['g'] == 'e' and len(x['c']) and size(t) < 200:
                ks = [c for c in x['c'] if c['g'] == 'e' and c['n'] not in VOID]
                if ks:      # parent and child change places
                    y = r.choice(ks)
                    x['c'] = [c for c in x['c'] if c is not y]
                    i = next(i for i, c in enumerate(p['c']) if c is x); p['c'][i] = y
                    y['c'].insert(r.randint(0, len(y['c'])), x)
        return tidy(t)
STABLE = ['div', 'section', 'span', 'article', 'ul', 'main']   # nest in any order without a parser rearranging them
def esc(s): return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
def html(t):
    if t['g'] == 't': return esc(t['t'])
    if t['g'] == 'c': return f'<!--{t["t"]}-->'
    s = f'<{t["n"]}' + ''.join(f' {a[1]}="{esc(a[2])}"' for a in t['a']) + '>'
    return s if t['n'] in VOID else s + ''.join(map(html, t['c'])) + f'</{t["n"]}>'
