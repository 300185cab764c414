"""Case generators and builders (cases are JSON data, names by scheme)."""
import itertools

# schemes whose names all have different text
PLAIN = ['int', 'int', 'bigint', 'str', 'str', 'neg', 'mixed', 'float',
         'falsy', 'falsy2', 'st']
SCHEMES = PLAIN + ['twins']
SCHEMES_T = SCHEMES + ['tuple']


def name(scheme, i):
    """the i-th node name; every call makes a fresh object (equal, and where
    Python allows it not identical, to the earlier ones)"""
    if scheme == 'int':
        return i
    if scheme == 'bigint':
        return int(str(100003 + 7 * i))
    if scheme == 'str':
        return ''.join(['n', str(i)])
    if scheme == 'neg':
        return int(str(-1000 - i)) if i else 0
    if scheme == 'float':
        return float(str(i) + '.5')
    if scheme == 'tuple':
        return tuple([i // 3, 'c%d' % (i % 3)])
    if scheme == 'mixed':
        return [i, ''.join(['n', str(i)]), float(str(i) + '.5'),
                int(str(70000 + i))][i % 4]
    if scheme in ('falsy', 'falsy2'):
        # names that are false in a condition, not at the first node
        k = i if scheme == 'falsy' else i - 2
        return [''.join(['n', str(i)]), int(str(0)), ''][k] \
            if 0 <= k < 3 else int(str(70000 + i))
    if scheme == 'st':
        # names the flow algorithms use for nodes of their own
        return ['s', 'n1', 't', 'tt', 'ss'][i] if i < 5 else \
            ''.join(['n', str(i)])
    if scheme == 'twins':
        # pairs of different names with equal text
        return int(str(i // 2)) if i % 2 else str(i // 2)
    if scheme == 'odd':
        # strings that need care: empty, spaces, quotes, unicode
        base = ['', ' ', 'a b', 'x,y', 'p:q', 'it"s', '\u00e9t\u00e9', '0',
                '3.4', '-', 'a-b', 'Graph', 'n;m', '#1', '[z]', '{y}', 'a=b',
                '->', '--', '5x', '"', "'", '/*', '//', '\u4f60\u597d']
        return base[i] if i < len(base) else 'odd %d' % i
    raise ValueError(scheme)


def gtype(directed):
    """the type of a graph, equal to gimpy's constant and another object"""
    return ''.join(['di', 'graph'] if directed else ['gra', 'ph'])


def namer(scheme):
    return lambda i: name(scheme, i)


SHAPES = ['sparse', 'medium', 'dense', 'path', 'cycle', 'star', 'complete',
          'bip', 'tree', 'union', 'grid', 'layered', 'empty', 'dag', 'wheel',
          'lollipop']


def shape_pairs(rng, n, shape):
    """unordered/ordered candidate pairs (u, v), u != v, no pair twice in any
    orientation unless the caller adds it"""
    allp = list(itertools.combinations(range(n), 2))
    if shape == 'empty':
        return []
    if shape in ('sparse', 'medium', 'dense'):
        p = {'sparse': 1.3 / max(n, 1), 'medium': .35, 'dense': .75}[shape]
        return [e for e in allp if rng.random() < p]
    if shape == 'complete':
        return allp
    if shape == 'path':
        return [(i, i + 1) for i in range(n - 1)]
    if shape == 'cycle':
        return [(i, (i + 1) % n) for i in range(n)] if n > 2 else \
            [(i, i + 1) for i in range(n - 1)]
    if shape == 'star':
        return [(0, i) for i in range(1, n)]
    if shape == 'wheel':
        return [(0, i) for i in range(1, n)] + \
            [(i, i + 1) for i in range(1, n - 1)]
    if shape == 'bip':
        k = n // 2
        return [(i, j) for i in range(k) for j in range(k, n)
                if rng.random() < .6]
    if shape == 'tree':
        return [(rng.randrange(i), i) for i in range(1, n)]
    if shape == 'union':
        parts = [rng.randrange(3) for _ in range(n)]
        return [(i, j) for (i, j) in allp
                if parts[i] == parts[j] and rng.random() < .6]
    if shape == 'grid':
        w = max(1, int(n ** .5))
        out = []
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                out.append((i, i + 1))
            if i + w < n:
                out.append((i, i + w))
        return out
    if shape == 'layered':
        w = rng.randint(1, 3)
        return [(i, j) for (i, j) in allp if j // w - i // w == 1]
    if shape == 'dag':
        return [e for e in allp if rng.random() < .45]
    if shape == 'lollipop':
        k = (n + 1) // 2
        return [(i, j) for (i, j) in allp if j < k] + \
            [(i, i + 1) for i in range(max(k - 1, 0), n - 1)]
    raise ValueError(shape)


def pairs(rng, n, shape=None, directed=True, acyclic=False, anti=None,
          loops=0.0):
    """edge list [[u, v]...] in random insertion order"""
    shape = shape or rng.choice(SHAPES)
    ps = shape_pairs(rng, n, shape)
    out = []
    orient = rng.choice(['fwd', 'back', 'rand', 'rand'])
    for (u, v) in ps:
        if not acyclic and (orient == 'back' or
                            (orient == 'rand' and rng.random() < .5)):
            u, v = v, u
        out.append((u, v))
        if directed and anti and rng.random() < anti:
            out.append((v, u))
    if acyclic:
        out = [(min(e), max(e)) for e in out]
        relabel = list(range(n))
        rng.shuffle(relabel)
        out = [(relabel[u], relabel[v]) for (u, v) in out]
    for i in range(n):
        if loops and rng.random() < loops:
            out.append((i, i))
    r = rng.random()
    if r < .7:
        rng.shuffle(out)
    elif r < .8:
        out.reverse()
    return [list(e) for e in out]


def size(rng, tier, hi=9, big=16):
    r = rng.random()
    if r < .08:
        return rng.randint(1, 2)
    if r < .8 or (tier == 'quick' and r < .93):
        return rng.randint(2, hi)
    return rng.randint(hi, big if tier == 'quick' else 2 * big)


# shapes with about as many edges as nodes
THIN = ['path', 'cycle', 'tree', 'grid', 'star', 'wheel', 'sparse',
        'layered', 'path', 'tree', 'grid']


def large_size(rng, tier):
    return rng.randint(25, 70 if tier == 'quick' else 120)


def node_order(rng, n):
    o = list(range(n))
    if rng.random() < .6:
        rng.shuffle(o)
    return o


def costs(rng, kind=None):
    """a sampler of edge costs"""
    kind = kind or rng.choice(['ties', 'small', 'wide', 'zero', 'dyadic',
                               'unit'])
    top = rng.choice([10 ** 4, 10 ** 4, 10 ** 10])
    part = rng.choice([8.0, 8.0, 2.0 ** 30])
    f = {'ties': lambda: rng.randint(1, 2),
         'small': lambda: rng.randint(0, 6),
         'wide': lambda: rng.randint(1, top),
         'zero': lambda: rng.choice([0, 0, 1]),
         'dyadic': lambda: rng.randint(0, 64) / part,
         'unit': lambda: 1,
         'neg': lambda: rng.randint(-5, 5),
         'negwide': lambda: rng.randint(-1000, 1000)}
    return f[kind]


def caps(rng, kind=None):
    kind = kind or rng.choice(['unit', 'small', 'zero', 'wide', 'inf',
                               'dyadic', 'mixed'])
    part = rng.choice([8.0, 8.0, 2.0 ** 30])
    f = {'unit': lambda: 1,
         'small': lambda: rng.randint(1, 6),
         'zero': lambda: rng.choice([0, 0, 1, 3]),
         'wide': lambda: rng.randint(1, 500),
         'inf': lambda: rng.choice([10000, 10000, 3, 20000]),
         'dyadic': lambda: rng.randint(0, 40) / part,
         'mixed': lambda: rng.choice([1, 2, 7, 100, 10000])}
    return f[kind]


def build(gimpy, case, cls=None, warm=None, **extra):
    """the graph of a case: {dir, n, scheme, order, edges:[[u,v,{attr}]],
    nattr:{str(i):{}}, gattr}"""
    cls = cls or gimpy.Graph
    nm = namer(case.get('scheme', 'int'))
    kw = dict(case.get('gattr', {}))
    kw.update(extra)
    g = cls(type=gtype(case['dir']), **kw)
    nattr = case.get('nattr', {})
    if warm and case.get('past'):
        past(g, case, nm, warm)
        return g
    for i in case.get('order', range(case['n'])):
        g.add_node(nm(i), **nattr.get(str(i), {}))
    for e in case['edges']:
        g.add_edge(nm(e[0]), nm(e[1]), **(e[2] if len(e) > 2 else {}))
    return g


def shuffled_alike(rng, items):
    """the dictionaries, permuted among those with the same keys"""
    groups = {}
    for k, d in enumerate(items):
        groups.setdefault(tuple(sorted(d)), []).append(k)
    out = list(items)
    for ks in groups.values():
        to = list(ks)
        rng.shuffle(to)
        for a, b in zip(ks, to):
            out[a] = items[b]
    return out


def ranks(n, edges):
    """a topological numbering of the nodes, None if there is a cycle"""
    indeg = [0] * n
    for e in edges:
        indeg[e[1]] += 1
    todo = [i for i in range(n) if not indeg[i]]
    rank = {}
    while todo:
        u = todo.pop()
        rank[u] = len(rank)
        for e in edges:
            if e[0] == u:
                indeg[e[1]] -= 1
                if not indeg[e[1]]:
                    todo.append(e[1])
    return rank if len(rank) == n else None


def past(g, case, nm, warm):
    """bring g into the state of the case by updates, with calls of the
    algorithm (warm) on an earlier state: other attribute values, edges and
    a node that are deleted later, edges that come later. Node, edge and
    adjacency order end as if built at once.

    case['past']: {seed, mode}; mode any (every absent pair may be an extra
    edge), noloop, simple (no loops and opposite arcs), dag (no cycles), and whether
    all edges are there from the start (keep)"""
    import random
    P = case['past']
    rng = random.Random(P['seed'])
    n, edges = case['n'], [list(e[:2]) for e in case['edges']]
    eattr = [dict(e[2]) if len(e) > 2 else {} for e in case['edges']]
    order = list(case.get('order', range(n)))
    nattr = [dict(case.get('nattr', {}).get(str(i), {})) for i in order]
    d, mode = case['dir'], P['mode']
    before = shuffled_alike(rng, eattr) if rng.random() < .7 else eattr
    nbefore = shuffled_alike(rng, nattr) if rng.random() < .4 else nattr
    rank = ranks(n, edges) if mode == 'dag' else None
    have = {tuple(e) for e in edges}

    def free(u, v):
        if (u, v) in have or (not d and (v, u) in have):
            return False
        if mode == 'any':
            return True
        if u == v:
            return False
        if mode == 'noloop':
            return True
        if (v, u) in have:
            return False
        return mode == 'simple' or (rank is not None and
                                    rank.get(u, n) < rank.get(v, n))
    late = 0
    if not P.get('keep') and edges and rng.random() < .4:
        late = rng.randint(1, min(3, len(edges)))
    first = [[u, v, a] for (u, v), a in zip(edges, before)]
    first = first[:len(first) - late]
    extra, nodes, alone = [], list(order), None
    if rng.random() < .3:
        # a node that will be deleted, with its edges
        alone = n
        nodes.insert(rng.randint(0, len(nodes)), alone)
    for _ in range(rng.choice([0, 1, 1, 2, 3]) + 2 * (alone is not None)):
        u, v = rng.choice(nodes), rng.choice(nodes)
        if alone is not None and rng.random() < .7:
            u = alone
        if rng.random() < .5 and mode != 'dag':
            u, v = v, u
        if not free(u, v):
            continue
        have.add((u, v))
        extra.append([u, v])
        first.insert(rng.randint(0, len(first)),
                     [u, v, dict(rng.choice(eattr)) if eattr else {}])
    if P.get('keep') and alone is not None and not any(
            alone in e for e in extra):
        nodes.remove(alone)
        alone = None
    number = dict(zip(order, nbefore))
    keys = set(nattr[0]) if nattr else set()
    for i in nodes:
        g.add_node(nm(i), **(dict.fromkeys(keys, 0) if i == alone
                             else number[i]))
    for u, v, a in first:
        g.add_edge(nm(u), nm(v), **a)
    for _ in range(rng.choice([1, 1, 2])):
        try:
            warm(g, rng, [nm(i) for i in nodes])
        except Exception:
            # judged where such a call is made as the call under test
            g.set_display_mode(case.get('gattr', {}).get('display', 'off'))
    rng.shuffle(extra)
    for u, v in extra:
        if alone in (u, v):
            continue
        g.del_edge((nm(u), nm(v)) if d or rng.random() < .5
                   else (nm(v), nm(u)))
    if alone is not None:
        g.del_node(nm(alone))
    for i, a, b in zip(order, nattr, nbefore):
        if a is not b:
            for k in a:
                g.set_node_attr(nm(i), k, a[k])
    m = len(edges) - late
    for (u, v), a, b in list(zip(edges, eattr, before))[:m]:
        if a is not b:
            for k in a:
                g.set_edge_attr(nm(u), nm(v), k, a[k])
    for (u, v), a in list(zip(edges, eattr))[m:]:
        g.add_edge(nm(u), nm(v), **a)


def drop_reducer(case, key='edges'):
    """generic reductions: fewer edges, fewer nodes at the end"""
    es = case[key]
    k = len(es)
    step = max(1, k // 2)
    while step >= 1:
        for i in range(0, k, step):
            c = dict(case)
            c[key] = es[:i] + es[i + step:]
            yield c
        if step == 1:
            break
        step //= 2


def graph_case(rng, tier, directed=None, hi=9, big=16, attrs=None,
               schemes=SCHEMES, shapes=None, acyclic=False, anti=.25,
               loops=0.0, n=None, large=0.0):
    """a random graph case; attrs(rng) returns a sampler of edge attributes;
    large: the share of large sparse graphs"""
    directed = rng.random() < .5 if directed is None else directed
    if large and not n and rng.random() < large:
        n, shapes = large_size(rng, tier), THIN
    n = n or size(rng, tier, hi, big)
    es = pairs(rng, n, rng.choice(shapes or SHAPES), directed, acyclic,
               anti if directed and rng.random() < .5 else None,
               loops if rng.random() < .3 else 0)
    if attrs is not None:
        f = attrs(rng)
        es = [e + [f()] for e in es]
    return {'dir': directed, 'n': n, 'scheme': rng.choice(schemes),
            'order': node_order(rng, n), 'edges': es}


def cost_attrs(kind=None):
    def make(rng):
        c = costs(rng, rng.choice(kind) if kind else None)
        return lambda: {'cost': c()}
    return make


def plain(case):
    """node indices, {(u, v): attrs} of a case"""
    return list(range(case['n'])), {(e[0], e[1]): (e[2] if len(e) > 2 else {})
                                    for e in case['edges']}


def shrink_graph(case, keep=()):
    """reductions of a graph case: fewer edges, one node less (nodes named in
    the case under `keep` stay), simpler names and order"""
    if case.get('past'):
        yield {k: v for k, v in case.items() if k != 'past'}
    yield from drop_reducer(case)
    n = case['n']
    used = {x for e in case['edges'] for x in e[:2]}
    kept = {case[k] for k in keep if isinstance(case.get(k), int)}
    if n > 1 and n - 1 not in used and n - 1 not in kept:
        c = dict(case, n=n - 1)
        if 'order' in c:
            c['order'] = [i for i in c['order'] if i != n - 1]
        if 'nattr' in c:
            c['nattr'] = {k: v for k, v in c['nattr'].items()
                          if k != str(n - 1)}
        yield c
    if case.get('scheme', 'int') != 'int':
        yield dict(case, scheme='int')
    if case.get('order') not in (None, list(range(n))):
        yield dict(case, order=list(range(n)))
