import gimpy
from mon import gen, oracle

PID = 'C25'
RULE = ('directed graphs (16 shapes, up to 24 nodes, loops, opposite arcs, '
        'sinks and nodes without incoming arcs, the empty graph), damping '
        '0..0.99, tolerances 1e-3..1e-12, iteration limits that bind or not; '
        'residual of the defining equations, distance to the exact solution, '
        'and to what the allowed number of sweeps guarantees when the '
        'limit binds. Distinct by '
        'graph and parameters.')
QUICK, THOROUGH = 240000, 4800000
PAST = {'mode': 'any'}
REQUIRED = {'large graph': 50, 'converged residual checked': 5000, 'iteration limit bound': 500,
            'limit binds before the accuracy': 500,
            'graph with sinks': 1000, 'loop': 300, 'default arguments': 1000,
            'exact solution compared': 3000}
STEPS = 3000000


def fixed(tier):
    yield {'dir': True, 'n': 0, 'scheme': 'int', 'edges': [], 'args': {}}


def gen_case(rng, i, tier):
    c = gen.graph_case(rng, tier, directed=True, hi=8, big=12, anti=.3,
                       large=.004,
                       loops=.25)
    c['args'] = {}
    if rng.random() < .75:
        c['args']['damping_factor'] = rng.choice([0, .1, .5, .85, .9, .95,
                                                  .99])
    if rng.random() < .6:
        c['args']['min_delta'] = rng.choice([1e-3, 1e-6, 1e-9, 1e-12])
    if rng.random() < .5:
        c['args']['max_iterations'] = rng.choice([0, 1, 2, 3, 10, 1000])
    return c


reduce = gen.shrink_graph


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    g.page_rank(max_iterations=20)


def run(case, ob):
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    g = gen.build(gimpy, case, warm=warm)
    a = case['args']
    r = g.page_rank(**a)
    n = len(nodes)
    if not n:
        ob.eq(r, {}, 'page_rank of the empty graph')
        return
    if not a:
        ob.ev('default arguments')
    ob.check(isinstance(r, dict) and set(r) == set(N),
             'page_rank returned ranks for %r', list(r))
    d = a.get('damping_factor', .85)
    delta = a.get('min_delta', 0.00001)
    limit = a.get('max_iterations', 100)
    out = oracle.out_adj(nodes, E, True)
    inn = oracle.in_adj(nodes, E, True)
    if any(not out[i] for i in nodes):
        ob.ev('graph with sinks')
    if any(u == v for (u, v) in E):
        ob.ev('loop')

    def right(rank, i):
        return (1.0 - d) / n + d * sum(rank[j] / len(out[j]) for j in inn[i])
    rank = {i: r[N[i]] for i in nodes}
    for i in nodes:
        ob.check(isinstance(rank[i], float) or rank[i] >= 0,
                 'rank of %r is %r', N[i], rank[i])
    res = sum(abs(rank[i] - right(rank, i)) for i in nodes)
    # error of k sweeps from the uniform start is at most 2 d^k
    enough = limit > 0 and 2 * d ** limit * 2 < delta / 8
    mat = [[(1.0 if i == j else 0.0) - (d * inn[i].count(j) / len(out[j])
                                        if out[j] else 0.0)
            for j in nodes] for i in nodes]
    exact = oracle.solve_linear(mat, [(1.0 - d) / n] * n)
    err = sum(abs(rank[i] - exact[i]) for i in nodes)
    tiny = 1e-11
    if enough:
        ob.check(res <= delta * max(1, d) + tiny, 'page_rank%r: residual of '
                 'the defining equations is %g, accuracy asked is %g', a, res,
                 delta)
        ob.check(err <= delta / (1 - d) + tiny, 'page_rank%r: distance to '
                 'the exact ranks is %g', a, err)
        ob.ev('converged residual checked')
        ob.ev('exact solution compared')
    else:
        # either the limit bound or it converged early: the error must not
        # exceed what that many sweeps guarantee
        # (a sweep from the old ranks shrinks the sum of the errors by d; a
        # sweep in place shrinks it by d with each node weighted by one minus
        # what it passes on to nodes swept after it)
        seq = {x: k for k, x in enumerate(g.get_node_list())}
        place = {i: seq[N[i]] for i in nodes}
        w = {j: 1 - (d * sum(place[i] > place[j] for i in out[j]) /
                     len(out[j]) if out[j] else 0.0) for j in nodes}
        bound = d ** limit * sum(abs(1.0 / n - exact[i]) for i in nodes)
        wbound = d ** limit * sum(w[i] * abs(1.0 / n - exact[i])
                                  for i in nodes)
        werr = sum(w[i] * abs(rank[i] - exact[i]) for i in nodes)
        ob.check(err <= max(bound, delta / (1 - d)) + tiny or
                 werr <= wbound + tiny, 'page_rank%r: '
                 'distance to the exact ranks is %g after %d sweeps, which '
                 'leave at most %g', a, err, limit, bound)
        if limit and bound > delta / (1 - d) + 1e-9:
            ob.ev('limit binds before the accuracy')
        ob.ev('iteration limit bound')
        if limit == 0:
            for i in nodes:
                ob.check(abs(rank[i] - 1.0 / n) < tiny, 'page_rank with no '
                         'sweep gives %r', rank[i])
    ob.key(n, case['scheme'], case['edges'], sorted(a.items()))
    ob.sample({'graph': case['edges'][:10], 'args': a})
