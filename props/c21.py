import gimpy
from mon import gen, oracle
from props import c20

PID = 'C21'
RULE = ('directed graphs (up to 12 nodes, loops, opposite arcs) with '
        'no, one planted and many negative cycles, all 3-node digraphs with '
        'costs from a small set, the empty graph; get_negative_cycle and '
        'floyd_warshall_get_cycle (default and every admissible start '
        'element) checked arc by arc. Distinct by graph and costs.')
QUICK, THOROUGH = 200000, 4000000
PAST = {'mode': 'any'}
REQUIRED = {'cycle priced': 5000, 'no negative cycle': 2000,
            'cycle of 3 or more nodes': 1000, 'explicit start': 2000,
            'planted single cycle': 1000,
            'cycle of one node': 1000, 'start off the cycle': 50}
STEPS = 3000000


def fixed(tier):
    yield {'dir': True, 'n': 0, 'scheme': 'int', 'edges': []}
    yield from c20.fixed(tier)


def plain_case(rng, i, tier):
    c = c20.plain_case(rng, i, tier)
    if rng.random() < .4:
        # costs without negative cycle, then one cycle made negative
        c20.potential_costs(rng, c)
        k = rng.randint(2, max(2, min(c['n'], 6)))
        if c['n'] >= k:
            cyc = rng.sample(range(c['n']), k)
            have = {tuple(e[:2]): e for e in c['edges']}
            arcs = list(zip(cyc, cyc[1:] + cyc[:1]))
            for a in arcs:
                if a not in have:
                    have[a] = [a[0], a[1], {'cost': rng.randint(-3, 6)}]
                    c['edges'].append(have[a])
            total = sum(have[a][2]['cost'] for a in arcs)
            if total >= 0:
                have[rng.choice(arcs)][2]['cost'] -= total + 1
            rng.shuffle(c['edges'])
            c['planted'] = True
    return c


def gen_case(rng, i, tier):
    return c20.rescale(rng, plain_case(rng, i, tier))


reduce = gen.shrink_graph


def check_cycle(ob, cyc, cost, idx, what):
    ob.check(isinstance(cyc, list) and len(cyc) >= 1, '%s: %r is not a cycle',
             what, cyc)
    ob.check(len(set(cyc)) == len(cyc), '%s: %r repeats a node', what, cyc)
    total = 0
    for x, y in zip(cyc, cyc[1:] + cyc[:1]):
        ob.check(x in idx and y in idx and (idx[x], idx[y]) in cost,
                 '%s: %r uses a missing arc (%r, %r)', what, cyc, x, y)
        total += cost[idx[x], idx[y]]
    ob.check(total < 0, '%s: %r has total cost %r', what, cyc, total)
    ob.ev('cycle priced')
    if len(cyc) == 1:
        ob.ev('cycle of one node')
    if len(cyc) > 2:
        ob.ev('cycle of 3 or more nodes')


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    g.get_negative_cycle()


def run(case, ob):
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    idx = {N[i]: i for i in nodes}
    g = gen.build(gimpy, case, warm=warm)
    cost = {e: a['cost'] for e, a in E.items()}
    neg = oracle.has_negative_cycle(nodes, [(u, v, w) for (u, v), w in
                                            cost.items()])
    cyc = g.get_negative_cycle()
    ob.key(case['n'], case['scheme'], case['edges'])
    ob.sample({'graph': case['edges'][:10]})
    if not neg:
        ob.check(cyc is None, 'get_negative_cycle returned %r, there is no '
                 'negative cycle', cyc)
        ob.ev('no negative cycle')
        return
    if case.get('planted'):
        ob.ev('planted single cycle')
    ob.check(cyc is not None, 'get_negative_cycle returned None, there is a '
             'negative cycle')
    check_cycle(ob, cyc, cost, idx, 'get_negative_cycle')
    valid, dist, nextn = g.floyd_warshall()
    ob.check(valid is False, 'floyd_warshall reports validity %r', valid)
    check_cycle(ob, g.floyd_warshall_get_cycle(dist, nextn), cost, idx,
                'floyd_warshall_get_cycle')
    for i in nodes:
        if dist[N[i], N[i]] < 0:
            c = g.floyd_warshall_get_cycle(dist, nextn, nm(i))
            check_cycle(ob, c, cost, idx,
                        'floyd_warshall_get_cycle from %r' % (N[i],))
            ob.ev('explicit start')
            if N[i] not in c:
                ob.ev('start off the cycle')
