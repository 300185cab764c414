"""Random trees: cases, builders, plain models and tree algorithms."""
from . import gen

NAMES = ['int', 'int', 'str', 'bigint', 'neg', 'mixed', 'float', 'odd',
         'falsy', 'falsy2']


def shape(rng, n, binary, kind=None):
    """[[child, parent, side]...] in creation order, node 0 is the root"""
    kind = kind or rng.choice(['any', 'any', 'path', 'zigzag', 'bushy',
                               'left', 'right', 'balanced', 'star'])
    out = []
    free = {0: ['L', 'R']}
    for i in range(1, n):
        if kind in ('path', 'zigzag', 'left', 'right'):
            p = i - 1
        elif kind == 'balanced':
            p = (i - 1) // 2
        elif kind == 'star' and not binary:
            p = 0
        elif kind == 'bushy':
            p = rng.randrange(max(0, i - 4), i)
        else:
            p = rng.randrange(i)
        side = None
        if binary:
            if not free.get(p):
                p = rng.choice([x for x in free if free[x]])
            side = {'left': 'L', 'right': 'R',
                    'zigzag': 'LR'[i % 2]}.get(kind) or rng.choice(free[p])
            if side not in free[p]:
                side = free[p][0]
            free[p].remove(side)
            free[i] = ['L', 'R']
        out.append([i, p, side])
    return out


def build(gimpy, case, **kw):
    """{binary, n, scheme, links, nattr}"""
    nm = gen.namer(case['scheme'])
    t = (gimpy.BinaryTree if case['binary'] else gimpy.Tree)(**kw)
    nattr = case.get('nattr', {})
    t.add_root(nm(0), **nattr.get('0', {}))
    for i, p, side in case['links']:
        a = nattr.get(str(i), {})
        if side == 'L':
            t.add_left_child(nm(i), nm(p), **a)
        elif side == 'R':
            t.add_right_child(nm(i), nm(p), **a)
        else:
            t.add_child(nm(i), nm(p), **a)
    return t


class Model(object):
    def __init__(self, links, n=None):
        self.kids = {0: []}
        self.par = {0: None}
        self.side = {0: None}
        for i, p, s in links:
            self.kids[p].append(i)
            self.kids[i] = []
            self.par[i] = p
            self.side[i] = s

    def level(self, i):
        k = 0
        while self.par[i] is not None:
            i = self.par[i]
            k += 1
        return k

    def child(self, i, side):
        for c in self.kids[i]:
            if self.side[c] == side:
                return c
        return None

    def sub(self, r):
        out = []
        todo = [r]
        while todo:
            x = todo.pop()
            out.append(x)
            todo += self.kids[x]
        return out


def case(rng, tier, binary=None, names=NAMES, hi=9, big=20):
    binary = rng.random() < .6 if binary is None else binary
    n = gen.size(rng, tier, hi, big)
    return {'binary': binary, 'n': n, 'scheme': rng.choice(names),
            'links': shape(rng, n, binary)}


def shrink(case):
    """drop leaves"""
    links = case['links']
    parents = {l[1] for l in links}
    kept = set(case.get('keep', []))
    for k in range(len(links) - 1, -1, -1):
        i = links[k][0]
        if i not in parents and i not in kept:
            yield dict(case, links=links[:k] + links[k + 1:])
    if case['scheme'] != 'int':
        yield dict(case, scheme='int')


OPS = ['+', '-', '*', '/']


def expression(rng, tier, ops=OPS, hi=11):
    """a full binary tree with operators inside and integers at the leaves;
    'text' is the written form of every node, given as label, or as the node
    name where it is unique"""
    k = rng.randint(0, (hi if tier == 'quick' else 2 * hi) // 2)
    kids = {0: None}
    leaves = [0]
    links = []
    nxt = 1
    for _ in range(k):
        x = leaves.pop(rng.randrange(len(leaves)))
        pair = [(nxt, 'L'), (nxt + 1, 'R')]
        if rng.random() < .3:
            pair.reverse()
        for i, s in pair:
            links.append([i, x, s])
            leaves.append(i)
        kids[x] = (nxt, nxt + 1)
        nxt += 2
    text = {}
    # integers a float cannot hold, in some of the trees
    big = [5]
    if rng.random() < .15:
        big = [2 ** 53 + 1, -10 ** 17 - 3, 10 ** 20 + 7]
    for i in range(nxt):
        if kids.get(i):
            text[str(i)] = rng.choice(ops)
        else:
            text[str(i)] = str(rng.choice([0, 0, 1, 2, 3, 7, 10, 25, -1, -4,
                                           rng.randint(0, 10 ** 6),
                                           rng.choice(big)]))
    return {'binary': True, 'n': nxt, 'links': links, 'text': text,
            'scheme': rng.choice(['int', 'str', 'neg', 'mixed', 'name',
                                  'falsy', 'falsy2'])}


def expression_names(case):
    """node name and attributes per node: with scheme 'name' the text itself
    is the name where it occurs once"""
    text = case['text']
    names, attrs = {}, {}
    if case['scheme'] == 'name':
        used = set()
        for i in range(case['n']):
            s = text[str(i)]
            if s in used:
                names[i] = 'x%d' % i
                attrs[str(i)] = {'label': s}
            else:
                used.add(s)
                names[i] = s
                attrs[str(i)] = {}
    else:
        for i in range(case['n']):
            names[i] = gen.name(case['scheme'], i)
            attrs[str(i)] = {'label': text[str(i)]}
    return names, attrs


def build_expression(gimpy, case, **kw):
    names, attrs = expression_names(case)
    t = gimpy.BinaryTree(**kw)
    t.add_root(names[0], **attrs['0'])
    for i, p, s in case['links']:
        (t.add_left_child if s == 'L' else t.add_right_child)(
            names[i], names[p], **attrs[str(i)])
    return t, names
