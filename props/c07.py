import gimpy
from coinor.blimpy import PriorityQueue
from mon import gen, oracle
from props import c05

PID = 'C07'
RULE = ('random directed/undirected graphs (16 shapes, up to 32 nodes, loops '
        'and opposite arcs) with nonnegative costs: ties, zeros, wide, '
        'dyadic, and costs made so that the path with fewest edges is not '
        'cheapest; all weightings 0..2 of small digraphs; Dijkstra forward '
        'and reverse, with and without destination, after other searches. '
        'Distinct by graph, costs, request and distances.')
QUICK, THOROUGH = 200000, 6000000
PAST = {'mode': 'any'}
REQUIRED = {'large graph': 50, 'chain priced': 5000, 'path priced': 1000, 'reverse': 500,
            'label lowered twice': 300, 'zero cost edge': 300,
            'unreachable destination': 100}


def requests(rng, n, k):
    return [{'s': rng.randrange(n),
             't': rng.randrange(n) if rng.random() < .35 else None,
             'rev': rng.random() < .3, 'q': rng.random() < .3}
            for _ in range(k)]


def fixed(tier):
    import itertools
    import random
    rng = random.Random(7)
    es = [(0, 1), (1, 2), (0, 2), (2, 3), (1, 3), (0, 3)]
    for w in itertools.product(range(4 if tier == 'thorough' else 3),
                               repeat=len(es)):
        yield {'dir': rng.random() < .5, 'n': 4, 'scheme': 'int',
               'edges': [[u, v, {'cost': c}] for (u, v), c in zip(es, w)],
               'ask': requests(rng, 4, 2)}


def gen_case(rng, i, tier):
    def attrs(r):
        kind = r.choice(['ties', 'small', 'wide', 'zero', 'dyadic', 'quad'])
        if kind == 'quad':
            return lambda: {'cost': r.choice([1, 4, 9, 16, 25, 36])}
        c = gen.costs(r, kind)
        return lambda: {'cost': c()}
    c = gen.graph_case(rng, tier, large=.004, attrs=attrs, loops=.2,
                       shapes=gen.SHAPES + ['dense', 'medium', 'dag'])
    if rng.random() < .3:
        # long cheap chains against short dear edges
        for e in c['edges']:
            e[2]['cost'] = (e[1] - e[0]) ** 2
    c['ask'] = requests(rng, c['n'], rng.randint(1, 3))
    return c


reduce = c05.reduce


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    kw = {'destination': rng.choice(names)} if rng.random() < .4 else {}
    g.search(rng.choice(names), algo='Dijkstra', **kw)


def run(case, ob):
    d, n = case['dir'], case['n']
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(n)]
    idx = {N[i]: i for i in nodes}
    g = gen.build(gimpy, case, warm=warm)
    if any(x['cost'] == 0 for x in E.values()):
        ob.ev('zero cost edge')
    for a in case['ask']:
        rev = a['rev'] and d
        arcs = oracle.weighted_arcs(E, d, lambda x: x['cost'])
        if rev:
            arcs = [(v, u, w) for (u, v, w) in arcs]
        cost = {}
        for (u, v, w) in arcs:
            cost[u, v] = w
        dist, neg = oracle.bellman_ford(nodes, arcs, a['s'])
        hops = oracle.hop_distances(
            (oracle.in_adj if rev else oracle.out_adj)(nodes, E, d), a['s'])

        def step(u, v):
            return (u, v) in cost
        kw = {'algo': 'Dijkstra', 'reverse': a['rev']}
        if a['t'] is not None:
            kw['destination'] = nm(a['t'])
        if a['q']:
            kw['q'] = PriorityQueue()
        what = 'Dijkstra from %r %r' % (N[a['s']], kw)
        r = g.search(nm(a['s']), **kw)
        if rev:
            ob.ev('reverse')
        if a['t'] is None:
            c05.check_tree(ob, r, a['s'], set(dist), step, N, what)
            for i in dist:
                x, total, k = i, 0, 0
                while x != a['s']:
                    p = idx[r[N[x]]]
                    total += cost[p, x]
                    x = p
                    k += 1
                ob.eq(total, dist[i], '%s: cost of the path to %r' %
                      (what, N[i]))
                ob.ev('chain priced')
                if k > hops[i]:
                    ob.ev('label lowered twice')
        elif a['t'] in dist:
            c05.check_path(ob, r, a['s'], a['t'], step, N, what)
            ob.eq(sum(cost[idx[x], idx[y]] for x, y in zip(r, r[1:])),
                  dist[a['t']], what + ': cost of the path')
            ob.ev('path priced')
        else:
            ob.check(r is None, '%s: %r although unreachable', what, r)
            ob.ev('unreachable destination')
        ob.key(d, n, case['edges'], sorted(a.items(), key=str))
    ob.sample({'graph': case['edges'][:10], 'ask': case['ask'][:2]})
