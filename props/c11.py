import gimpy
from mon import gen, oracle

PID = 'C11'
RULE = ('graphs of 16 shapes, connected or not, a quarter of them directed '
        '(arcs taken as edges), some with loops, costs with ties, zero, negative, fractional; default disjoint set, optimizing or not; '
        'several runs on one graph with costs changed between; result checked '
        'as a forest of graph edges, spanning, of minimum cost. Distinct by '
        'edges and costs.')
QUICK, THOROUGH = 225000, 4500000
PAST = {'mode': 'any'}
REQUIRED = {'large graph': 50, 'forest checked': 5000, 'disconnected': 500, 'ties': 1000,
            'negative costs': 500, 'given set': 500, 'rejected edges': 1000,
            'directed': 3000, 'loops': 500}


def fixed(tier):
    import itertools
    es = list(itertools.combinations(range(4), 2))
    for w in itertools.product((1, 2, 3) if tier == 'thorough' else (1, 2),
                               repeat=6):
        yield {'dir': False, 'n': 4, 'scheme': 'str', 'opt': None,
               'edges': [[u, v, {'cost': c}] for (u, v), c in zip(es, w)],
               'again': []}


def gen_case(rng, i, tier):
    kinds = ['ties', 'small', 'wide', 'zero', 'dyadic', 'unit', 'neg',
             'negwide']
    c = gen.graph_case(rng, tier, large=.004, directed=rng.random() < .25, anti=.3,
                       loops=.1 if rng.random() < .2 else 0,
                       attrs=gen.cost_attrs(kinds),
                       shapes=gen.SHAPES + ['dense', 'complete', 'wheel'])
    f = gen.costs(rng, rng.choice(kinds))
    c['again'] = [[f() for _ in c['edges']]
                  for _ in range(rng.choice([0, 0, 1, 2]))]
    c['opt'] = rng.choice([None, None, True, False])
    return c


def reduce(case):
    if case['again']:
        yield dict(case, again=case['again'][:-1])
    else:
        yield from gen.shrink_graph(case)


def check(ob, edges, E, N, nodes, cost, what):
    idx = {N[i]: i for i in nodes}
    got = []
    for e in edges:
        ob.check(isinstance(e, tuple) and len(e) == 2 and e[0] in idx and
                 e[1] in idx, '%s: %r is not an edge', what, e)
        u, v = idx[e[0]], idx[e[1]]
        if (u, v) not in E:
            u, v = v, u
        ob.check((u, v) in E, '%s: %r is not an edge of the graph', what, e)
        got.append((u, v))
    ob.check(oracle.is_forest(nodes, got), '%s: %r contains a cycle', what,
             edges)
    comp = oracle.undirected_components(nodes, E)
    ob.eq(len(got), len(nodes) - len(set(comp.values())),
          what + ': number of edges')
    ob.eq(sum(cost[e] for e in got),
          oracle.min_forest_weight(nodes, {e: cost[e] for e in E},
                                   lambda c: c), what + ': total cost')
    ob.ev('forest checked')
    if len(set(comp.values())) > 1:
        ob.ev('disconnected')
    if any(u == v for u, v in E):
        ob.ev('loops')
    if len(set(cost.values())) < len(cost):
        ob.ev('ties')
    if any(c < 0 for c in cost.values()):
        ob.ev('negative costs')
    if len(got) < len(E):
        ob.ev('rejected edges')


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    g.minimum_spanning_tree_kruskal()


def run(case, ob):
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    g = gen.build(gimpy, case, warm=warm)
    cost = {e: a['cost'] for e, a in E.items()}
    if case['dir']:
        ob.ev('directed')
    for k, again in enumerate([None] + case['again']):
        if again:
            for e, c in zip(cost, again):
                cost[e] = c
                g.set_edge_attr(N[e[0]], N[e[1]], 'cost', c)
        kw = {}
        if case['opt'] is not None:
            kw['components'] = gimpy.DisjointSet(optimize=case['opt'])
            ob.ev('given set')
        r = g.minimum_spanning_tree_kruskal(**kw)
        check(ob, r, E, N, nodes, cost, 'kruskal, call %d' % (k + 1))
        ob.key(case['n'], case['scheme'], sorted(cost.items()))
    ob.sample({'graph': case['edges'][:10], 'optimize': case['opt']})
