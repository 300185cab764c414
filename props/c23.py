import gimpy
from mon import gen, oracle
from props import c05

PID = 'C23'
RULE = ('acyclic directed graphs (16 shapes oriented along a hidden random '
        'order, up to 32 nodes) with any costs; sources that reach all, some '
        'or no nodes; with and without destination; several calls on one '
        'graph, other searches before. Distinct by graph, costs, request.')
QUICK, THOROUGH = 240000, 4800000
PAST = {'mode': 'dag'}
REQUIRED = {'large graph': 50, 'chain priced': 10000, 'path priced': 3000,
            'source reaches a part': 3000, 'negative costs': 1000,
            'shorter path with more arcs': 500, 'after dfs': 500}


def gen_case(rng, i, tier):
    c = gen.graph_case(rng, tier, large=.004, directed=True, acyclic=True, anti=0,
                       attrs=gen.cost_attrs(['ties', 'small', 'neg', 'wide',
                                             'negwide', 'dyadic', 'zero']),
                       shapes=gen.SHAPES + ['dag', 'dag', 'dense'])
    c['ask'] = [{'s': rng.randrange(c['n']), 't': rng.randrange(c['n'])
                 if rng.random() < .4 else None,
                 'dfs': rng.random() < .2} for _ in range(rng.randint(1, 3))]
    return c


reduce = c05.reduce


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    g.acyclic_shortest_path(rng.choice(names))


def run(case, ob):
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    idx = {N[i]: i for i in nodes}
    g = gen.build(gimpy, case, warm=warm)
    arcs = oracle.weighted_arcs(E, True, lambda a: a['cost'])
    cost = {(u, v): w for (u, v, w) in arcs}
    if min(cost.values(), default=0) < 0:
        ob.ev('negative costs')
    for a in case['ask']:
        s, t = a['s'], a['t']
        if a['dfs']:
            g.dfs(N[(s + 1) % len(N)])
            ob.ev('after dfs')
        want, _ = oracle.bellman_ford(nodes, arcs, s)
        hops = oracle.hop_distances(oracle.out_adj(nodes, E, True), s)

        def step(u, v):
            return (u, v) in cost
        if t is not None and t not in want:
            t = None
        if len(want) < len(nodes):
            ob.ev('source reaches a part')
        ob.key(case['n'], case['scheme'], case['edges'], s, t)
        if t is not None:
            what = 'acyclic_shortest_path(%r, %r)' % (N[s], N[t])
            p = g.acyclic_shortest_path(nm(s), nm(t))
            c05.check_path(ob, p, s, t, step, N, what)
            ob.eq(sum(cost[idx[x], idx[y]] for x, y in zip(p, p[1:])),
                  want[t], what + ': cost')
            ob.ev('path priced')
            continue
        what = 'acyclic_shortest_path(%r)' % (N[s],)
        r = g.acyclic_shortest_path(nm(s))
        c05.check_tree(ob, r, s, set(want), step, N, what)
        for i in want:
            x, total, k = i, 0, 0
            while x != s:
                p = idx[r[N[x]]]
                total += cost[p, x]
                x = p
                k += 1
            ob.eq(total, want[i], '%s: cost of the path to %r' % (what, N[i]))
            ob.ev('chain priced')
            if k > hops[i]:
                ob.ev('shorter path with more arcs')
    ob.sample({'graph': case['edges'][:10], 'ask': case['ask'][:2]})
