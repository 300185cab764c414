import gimpy
from mon import gen, oracle
from props import c05

PID = 'C20'
RULE = ('directed graphs (16 shapes, up to 12 nodes, loops, opposite '
        'arcs) with nonnegative, negative and zero-cycle costs, all 3-node '
        'digraphs with costs from a small set; validity, every distance and '
        'every extracted path compared with Bellman-Ford. Distinct by graph '
        'and costs.')
QUICK, THOROUGH = 160000, 3200000
PAST = {'mode': 'any'}
REQUIRED = {'distance compared': 20000, 'path priced': 10000,
            'unreachable pair': 5000, 'negative cycle': 1000,
            'valid with negative costs': 1000, 'zero cycle': 300,
            'loop': 3000, 'negative loop': 500}


def fixed(tier):
    import itertools
    import random
    rng = random.Random(20)
    for es in oracle.small_digraphs(3):
        for k, w in enumerate(itertools.product((-1, 0, 1, 2),
                                                repeat=len(es))):
            if rng.random() < (.05 if tier == 'quick' else .6):
                yield {'dir': True, 'n': 3, 'scheme': 'int',
                       'edges': [[u, v, {'cost': c}] for (u, v), c in
                                 zip(es, w)]}


def potential_costs(rng, c):
    """costs without negative cycle: reduced costs plus potentials"""
    pot = [rng.randint(-8, 8) for _ in range(c['n'])]
    for e in c['edges']:
        e[2]['cost'] = rng.choice([0, 0, 1, 3]) + pot[e[1]] - pot[e[0]]


def plain_case(rng, i, tier):
    c = gen.graph_case(rng, tier, directed=True, hi=8, big=12, anti=.3,
                       loops=.2, large=.001,
                       attrs=gen.cost_attrs(['ties', 'small', 'zero', 'wide',
                                             'dyadic', 'neg', 'negwide',
                                             'unit']))
    if rng.random() < .45:
        potential_costs(rng, c)
    return c


def rescale(rng, c):
    """the same case with costs in other units, still exact"""
    q = rng.choice([1, 1, 1, .125, .125, 3 * 10 ** 8])
    if q != 1:
        for e in c['edges']:
            e[2]['cost'] *= q
    return c


def gen_case(rng, i, tier):
    return rescale(rng, plain_case(rng, i, tier))


reduce = gen.shrink_graph


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    valid, dist, nextn = g.floyd_warshall()
    if valid:
        for u in names:
            for v in names:
                g.floyd_warshall_get_path(dist, nextn, u, v)


def run(case, ob):
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    idx = {N[i]: i for i in nodes}
    g = gen.build(gimpy, case, warm=warm)
    arcs = oracle.weighted_arcs(E, True, lambda a: a['cost'])
    cost = {e: a['cost'] for e, a in E.items()}
    neg = oracle.has_negative_cycle(nodes, arcs)
    for (u, v) in cost:
        if u == v:
            ob.ev('negative loop' if cost[u, v] < 0 else 'loop')
    r = g.floyd_warshall()
    ob.check(isinstance(r, tuple) and len(r) == 3,
             'floyd_warshall returned %r', r)
    valid, dist, nextn = r
    ob.check(valid is (not neg), 'floyd_warshall reports validity %r, the '
             'graph has %s negative cycle', valid, 'a' if neg else 'no')
    if neg:
        ob.ev('negative cycle')
        ob.key(case['n'], case['scheme'], case['edges'])
        return
    if min(cost.values(), default=0) < 0:
        ob.ev('valid with negative costs')
    zero = False
    for i in nodes:
        want, _ = oracle.bellman_ford(nodes, arcs, i)
        for j in nodes:
            d = dist[N[i], N[j]]
            ob.check(d == want.get(j, 'infinity'), 'distance from %r to %r '
                     'is %r, expected %r', N[i], N[j], d,
                     want.get(j, 'infinity'))
            ob.ev('distance compared')
            p = g.floyd_warshall_get_path(dist, nextn, nm(i), nm(j))
            if j not in want:
                ob.check(p is None, 'path from %r to %r is %r, but there is '
                         'none', N[i], N[j], p)
                ob.ev('unreachable pair')
                continue
            what = 'path from %r to %r' % (N[i], N[j])
            if i == j:
                ob.eq(p, [N[i]], what)
                continue
            c05.check_path(ob, p, i, j, lambda u, v: (u, v) in E, N, what)
            ob.eq(sum(cost[idx[x], idx[y]] for x, y in zip(p, p[1:])),
                  want[j], what + ': cost')
            ob.ev('path priced')
            if (j, i) in cost and want[j] + cost[j, i] == 0:
                zero = True
    if zero:
        ob.ev('zero cycle')
    ob.key(case['n'], case['scheme'], case['edges'])
    ob.sample({'graph': case['edges'][:10]})
