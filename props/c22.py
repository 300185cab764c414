import gimpy
from mon import gen, oracle
from props import c20, c21

PID = 'C22'
RULE = ('directed graphs (up to 24 nodes, loops, opposite arcs) with nonnegative, '
        'negative, zero-cycle costs and planted negative cycles reachable or '
        'not from the source; undirected graphs with nonnegative costs; '
        'several sources on one graph. Distinct by graph, costs and source.')
QUICK, THOROUGH = 300000, 6000000
PAST = {'mode': 'any'}
REQUIRED = {'distance compared': 20000, 'chain priced': 10000,
            'unreachable node': 3000, 'negative cycle returned': 2000,
            'negative cycle out of reach': 300, 'undirected': 1000,
            'negative costs, no negative cycle': 1000}
STEPS = 2000000


def gen_case(rng, i, tier):
    if rng.random() < .2:
        c = gen.graph_case(rng, tier, directed=False,
                           loops=.2,
                           attrs=gen.cost_attrs(['ties', 'small', 'zero',
                                                 'dyadic']))
    else:
        c = c21.plain_case(rng, i, tier)
        if rng.random() < .3 and 'planted' in c:
            # an extra part that cannot reach the cycle
            m = c['n']
            c['n'] += 3
            c['order'] += [m, m + 1, m + 2]
            for a, b in ((m, m + 1), (m + 1, m + 2)):
                c['edges'].append([a, b, {'cost': rng.randint(-3, 3)}])
            c['src'] = [m]
        c20.rescale(rng, c)
    c.setdefault('src', [])
    c['src'] = c['src'] + [rng.randrange(c['n'])
                           for _ in range(rng.randint(1, 2))]
    return c


def reduce(case):
    src = case['src']
    for i in range(len(src)):
        if len(src) > 1:
            yield dict(case, src=src[:i] + src[i + 1:])
    for c in gen.shrink_graph(case):
        if c['n'] > max(src):
            yield c


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    g.fifo_label_correcting(rng.choice(names))


def run(case, ob):
    d = case['dir']
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    idx = {N[i]: i for i in nodes}
    g = gen.build(gimpy, case, warm=warm)
    arcs = oracle.weighted_arcs(E, d, lambda a: a['cost'])
    cost = {(u, v): w for (u, v, w) in arcs}
    if not d:
        ob.ev('undirected')
    for s in case['src']:
        want, neg = oracle.bellman_ford(nodes, arcs, s)
        what = 'fifo_label_correcting from %r' % (N[s],)
        r = g.fifo_label_correcting(nm(s))
        ob.check(isinstance(r, tuple) and len(r) == 2, '%s returned %r', what,
                 r)
        ob.check(r[0] is (not neg), '%s returned %r, a negative cycle %s '
                 'reachable', what, r, 'is' if neg else 'is not')
        ob.key(d, case['n'], case['scheme'], case['edges'], s)
        if neg:
            c21.check_cycle(ob, r[1], cost, idx, what)
            ob.ev('negative cycle returned')
            continue
        if oracle.has_negative_cycle(nodes, arcs):
            ob.ev('negative cycle out of reach')
        elif min(cost.values(), default=0) < 0:
            ob.ev('negative costs, no negative cycle')
        pred = r[1]
        ob.eq(set(pred), {N[i] for i in want}, what + ': nodes in pred')
        ob.check(pred[N[s]] is None, '%s: source has predecessor %r', what,
                 pred[N[s]])
        for i in nodes:
            got = g.get_node_attr(N[i], 'distance')
            if i not in want:
                ob.check(got == 'inf', '%s: distance of the unreachable %r '
                         'is %r', what, N[i], got)
                ob.ev('unreachable node')
                continue
            ob.check(got == want[i], '%s: distance of %r is %r, expected %r',
                     what, N[i], got, want[i])
            ob.ev('distance compared')
            x, total, k = i, 0, 0
            while x != s:
                p = pred[N[x]]
                ob.check(p in idx and (idx[p], x) in cost and k <= len(N),
                         '%s: predecessor %r of %r', what, p, N[x])
                total += cost[idx[p], x]
                x = idx[p]
                k += 1
            ob.eq(total, want[i], '%s: cost of the path to %r' % (what, N[i]))
            ob.ev('chain priced')
    ob.sample({'graph': case['edges'][:10], 'sources': case['src']})
