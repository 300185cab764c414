import gimpy
from coinor.blimpy import PriorityQueue
from mon import gen, oracle
from props import c05, c11

PID = 'C12'
RULE = ('undirected graphs of 16 shapes, connected or not, costs with ties, '
        'zero, negative, fractional, and instances on which a node is '
        're-prioritised several times; minimum_spanning_tree_prim and search '
        'Prim from random sources, several runs on one graph with costs '
        'changed between; tree over the component of the source, of minimum '
        'cost. Distinct by edges, costs, source and method.')
QUICK, THOROUGH = 180000, 4000000
PAST = {'mode': 'any'}
REQUIRED = {'large graph': 50, 'prim': 3000, 'search Prim': 3000, 'disconnected': 1000,
            'ties': 1000, 'negative costs': 500, 'not a shortest path tree':
            500}


def fixed(tier):
    import itertools
    es = list(itertools.combinations(range(4), 2))
    for k, w in enumerate(itertools.product(
            (1, 2, 3) if tier == 'thorough' else (1, 2), repeat=6)):
        yield {'dir': False, 'n': 4, 'scheme': 'str',
               'edges': [[u, v, {'cost': c}] for (u, v), c in zip(es, w)],
               'ask': [[0, 'prim', None], [3, 'search', None]]}


def gen_case(rng, i, tier):
    kinds = ['ties', 'small', 'wide', 'zero', 'dyadic', 'unit', 'neg',
             'negwide']
    c = gen.graph_case(rng, tier, large=.004, directed=False,
                       attrs=gen.cost_attrs(kinds), loops=.2,
                       shapes=gen.SHAPES + ['dense', 'complete', 'wheel',
                                            'cycle'])
    f = gen.costs(rng, rng.choice(kinds))
    c['ask'] = [[rng.randrange(c['n']), rng.choice(['prim', 'search']),
                 [f() for _ in c['edges']] if k and rng.random() < .5
                 else None] for k in range(rng.randint(1, 3))]
    return c


def reduce(case):
    ask = case['ask']
    for i in range(len(ask)):
        if len(ask) > 1:
            yield dict(case, ask=ask[:i] + ask[i + 1:])
    if not any(a[2] for a in ask):
        for c in gen.shrink_graph(case):
            if c['n'] > max(a[0] for a in ask):
                yield c


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    if rng.random() < .5:
        g.minimum_spanning_tree_prim(rng.choice(names))
    else:
        g.search(rng.choice(names), algo='Prim')


def run(case, ob):
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    idx = {N[i]: i for i in nodes}
    g = gen.build(gimpy, case, warm=warm)
    cost = {e: a['cost'] for e, a in E.items()}
    comp = oracle.undirected_components(nodes, E)
    for k, (s, meth, again) in enumerate(case['ask']):
        if again:
            for e, c in zip(cost, again):
                cost[e] = c
                g.set_edge_attr(N[e[0]], N[e[1]], 'cost', c)
        if meth == 'prim':
            what = 'minimum_spanning_tree_prim from %r' % (N[s],)
            r = (g.minimum_spanning_tree_prim(nm(s)) if k % 2 else
                 g.minimum_spanning_tree_prim(nm(s), q=PriorityQueue()))
            ob.ev('prim')
        else:
            what = 'search Prim from %r' % (N[s],)
            r = g.search(nm(s), algo='Prim')
            ob.ev('search Prim')
        mine = [i for i in nodes if comp[i] == comp[s]]
        sub = {e: cost[e] for e in E if e[0] in mine and e[0] != e[1]}
        c05.check_tree(ob, r, s, set(mine),
                       lambda u, v: c05.has_edge(E, False, u, v), N, what)
        total = 0
        for x, p in r.items():
            e = (idx[p], idx[x])
            total += cost[e] if e in cost else cost[e[::-1]]
        ob.eq(total, oracle.min_forest_weight(mine, sub, lambda c: c),
              what + ': cost of the tree')
        if len(mine) < len(nodes):
            ob.ev('disconnected')
        if len(set(sub.values())) < len(sub):
            ob.ev('ties')
        if any(c < 0 for c in sub.values()):
            ob.ev('negative costs')
        if len(mine) - 1 < len(sub):
            hops = oracle.hop_distances(oracle.out_adj(nodes, E, False), s)
            if any(hops[idx[x]] != hops[idx[p]] + 1 for x, p in r.items()):
                ob.ev('not a shortest path tree')
        ob.key(case['n'], case['scheme'], sorted(cost.items()), s, meth)
    ob.sample({'graph': case['edges'][:10], 'ask': case['ask'][:2]})
