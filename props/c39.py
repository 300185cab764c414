import gimpy
from mon import algos, gen, trees
from props import c04

PID = 'C39'
RULE = ('twin execution under two naming schemes: one run uses opaque tokens '
        '(hash salted per run, equal but never identical objects, no order, '
        'random truth value, random text), the other ordinary names '
        '(integers, strings, names that are false, names with equal text, '
        'tuples); graphs with updates and algorithms, trees, binary trees and '
        'disjoint sets. Every result of the token run, with the tokens '
        'replaced, must be equal to that of the named run. Distinct by names '
        'and operations.')
QUICK, THOROUGH = 72000, 1440000
REQUIRED = dict({'compared: ' + a['name']: 100 for a in algos.A},
                **{'actor: ' + k: 1500 for k in (
                    'algorithms', 'updates', 'tree', 'binary tree',
                    'disjoint set')},
                **{'false token': 5000, 'names with equal text': 1500,
                   'tuple names': 1500, 'tree call compared': 5000,
                   'set call compared': 5000, 'structure compared': 20000})

NAMES = ['int', 'str', 'neg', 'mixed', 'falsy', 'falsy2', 'bigint', 'collide',
         'collide', 'tuple', 'tuple', 'odd', 'st']


class Token(object):
    """a name that is nothing but equal to itself"""
    __slots__ = ('i', 'salt', 'truth')

    def __init__(self, i, salt):
        self.i, self.salt = i, salt
        self.truth = hash((i, salt, 1)) % 3 != 0

    def __eq__(self, other):
        return isinstance(other, Token) and other.i == self.i

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self.salt, self.i))

    def __bool__(self):
        return self.truth

    def __repr__(self):
        return 'token%d' % ((self.i * 7919 + self.salt) % 100003)


def name(scheme, i):
    if scheme == 'collide':
        return [i // 2, str(i // 2)][i % 2]
    return gen.name(scheme, i)


class Names(object):
    """fresh equal objects at every use"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        return self.f(i)


def gen_case(rng, i, tier):
    k = rng.choice(['a', 'a', 'a', 'a', 'a', 'u', 'u', 't', 'b', 's'])
    if k == 'a':
        a = c04.algorithm_actor(rng, tier, 'int')
        a['ops'] = [o for o in a['ops'] if o[0] == 'algo']
    elif k == 'u':
        a = c04.update_actor(rng, tier, 'int')
    elif k in 'tb':
        a = c04.tree_actor(rng, tier, 'int', k == 'b')
    else:
        a = c04.set_actor(rng, tier, 'int')
    # what is shown as text depends on the names, and so does nothing else
    a['ops'] = [o for o in a['ops'] if o[0] not in ('text', 'tabort',
                                                    'cluster', 'abort')]
    return {'actor': a, 'names': rng.choice(NAMES),
            'salt': rng.randrange(100000)}


def reduce(case):
    a = case['actor']
    ops = a['ops']
    for j in range(len(ops)):
        if ops[j][0] in ('node', 'edge', 'child', 'add', 'delnode'):
            continue
        yield dict(case, actor=dict(a, ops=ops[:j] + ops[j + 1:]))
    if a['kind'] == 'algorithms':
        for c in gen.drop_reducer(a['case']):
            yield dict(case, actor=dict(a, case=c))
    if case['names'] != 'str':
        yield dict(case, names='str')


class NamedActor(c04.Actor):
    def __init__(self, spec, pkg, nm):
        self.spec, self.pkg, self.pool = spec, pkg, c04.argument_pool()
        self.N = Names(nm)
        c, k = spec['case'], spec['kind']
        old = gen.namer
        gen.namer = lambda scheme: nm
        try:
            if k in ('tree', 'binary tree'):
                self.g = trees.build(pkg, c)
            elif k == 'disjoint set':
                self.g = pkg.graph.DisjointSet() if c['optimize'] is None \
                    else pkg.graph.DisjointSet(optimize=c['optimize'])
            else:
                self.g = gen.build(pkg, dict(c))
        finally:
            gen.namer = old


def mapped(x, nm):
    """the result with every token replaced by the other name"""
    if isinstance(x, Token):
        return nm(x.i)
    if isinstance(x, dict):
        return {mapped(k, nm): mapped(v, nm) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)([mapped(v, nm) for v in x])
    if isinstance(x, (set, frozenset)):
        return type(x)(mapped(v, nm) for v in x)
    return x


def shape(g):
    nodes = g.get_node_list()
    s = {'nodes': list(nodes), 'edges': list(g.get_edge_list()),
         'next': {n: list(g.get_neighbors(n)) for n in nodes}}
    if g.graph_type == 'digraph':
        s['in'] = {n: list(g.get_in_neighbors(n)) for n in nodes}
    if hasattr(g, 'sizes'):
        s['sizes'] = dict(g.sizes)
    if getattr(g, 'root', None) is not None:
        s['root'] = g.root.name
        s['parents'] = {n: g.get_parent(n) for n in nodes}
        if hasattr(g, 'get_left_child'):
            s['kids'] = {n: (g.get_left_child(n), g.get_right_child(n))
                         for n in nodes}
    return s


def perform(a, op, printed):
    """one operation; the result with names in it, or how it was refused"""
    import contextlib
    import io
    from mon import frames
    out = io.StringIO()
    seen = []

    def frame(g, highlight):
        if g is a.g:
            seen.extend(x.name if isinstance(x, gimpy.graph.Node) else x
                        for x in highlight or [])
    try:
        with contextlib.redirect_stdout(out):
            if op[0] == 'tree':
                with frames.observe(gimpy, frames.Frames(frame)):
                    r = getattr(a.g, op[1])(display='file', **a.kw(op[2]))
                r = [r, seen]
            else:
                r = a.do(op, None)
    except Exception as e:
        return 'raised ' + type(e).__name__
    if op[0] == 'tree' and op[1] == 'print_nodes':
        printed.append(out.getvalue().split('\n'))
    return r


def run(case, ob):
    spec = case['actor']
    kind = spec['kind']
    salt = case['salt']

    def nm(i):
        return name(case['names'], i)
    A = NamedActor(spec, gimpy, lambda i: Token(i, salt))
    B = NamedActor(spec, gimpy, nm)
    ob.ev('actor: ' + kind)
    if case['names'] == 'collide':
        ob.ev('names with equal text')
    elif case['names'] == 'tuple':
        ob.ev('tuple names')
    if any(not n for n in A.g.get_node_list()):
        ob.ev('false token')
    back = {}
    for i in range(60):
        back[str(Token(i, salt))] = str(nm(i))
    for op in spec['ops']:
        if op[0] == 'algo' and kind != 'updates':
            f = algos.Facts(spec['case'])
            if not algos.BY_NAME[op[1]]['domain'](f):
                continue
        pa, pb = [], []
        ra = mapped(perform(A, op, pa), nm)
        rb = perform(B, op, pb)
        what = '%r on a %s, names %s' % (op, kind, case['names'])
        ob.check(ra == rb, '%s: with opaque names %r, with these %r', what,
                 ra, rb)
        if isinstance(ra, dict):
            ob.eq(list(ra), list(rb), what + ': order of the keys')
        ob.check([[back.get(x, x) for x in l] for l in pa] == pb,
                 '%s: printed %r with opaque names, %r', what, pa, pb)
        if op[0] == 'algo':
            ob.ev('compared: ' + op[1])
        elif op[0] == 'tree':
            ob.ev('tree call compared')
        elif op[0] in ('add', 'union', 'find'):
            ob.ev('set call compared')
    sa, sb = mapped(shape(A.g), nm), shape(B.g)
    for k in sb:
        ob.eq(sa[k], sb[k], '%s of a %s named %s after the operations'
              % (k, kind, case['names']))
    ob.ev('structure compared')
    ob.key(kind, case['names'], spec['case'], spec['ops'])
    ob.sample({'kind': kind, 'names': case['names'],
               'ops': spec['ops'][:3]})
