import gimpy
from coinor.blimpy import Stack, Queue
from mon import gen, oracle

PID = 'C05'
RULE = ('random directed/undirected graphs of 16 shapes (loops and opposite '
        'arcs included), all digraphs on 3 and graphs on 4 nodes; search with '
        'DFS, BFS, UnweightedSPT, Prim, forward and reverse, default or given '
        'stack/queue, with and without destination and component; several '
        'searches on one graph. Distinct by graph, request and size of the '
        'reached set.')
QUICK, THOROUGH = 200000, 6000000
PAST = {'mode': 'any'}
REQUIRED = {'large graph': 50, 'tree checked': 3000, 'path checked': 800, 'no path': 300,
            'reverse': 500, 'component marked': 500, 'loop': 100,
            'Prim on a directed graph': 300, 'Prim reversed': 100}
ALGOS = ['DFS', 'BFS', 'UnweightedSPT', 'DFS', 'BFS', 'UnweightedSPT', 'Prim']


def requests(rng, n, k):
    out = []
    for _ in range(k):
        out.append({'s': rng.randrange(n),
                    't': rng.randrange(n) if rng.random() < .5 else None,
                    'algo': rng.choice(ALGOS),
                    'rev': rng.random() < .3,
                    'q': rng.choice([None, None, 'Stack', 'Queue']),
                    'comp': rng.choice([None, None, 0, 1, 7])})
        if out[-1]['algo'] == 'Prim':
            out[-1].update(q=None, comp=None)
    return out


def fixed(tier):
    import random
    rng = random.Random(5)
    for k, es in enumerate(oracle.small_digraphs(3)):
        yield {'dir': True, 'n': 3, 'scheme': 'int',
               'edges': [list(e) + [{'cost': (e[0] + 2 * e[1]) % 4}]
                         for e in es], 'ask': requests(rng, 3, 6)}
    for es in oracle.small_graphs(4):
        yield {'dir': False, 'n': 4, 'scheme': 'str',
               'edges': [list(e) + [{'cost': (e[0] + 2 * e[1]) % 4}]
                         for e in es], 'ask': requests(rng, 4, 6)}


def gen_case(rng, i, tier):
    c = gen.graph_case(rng, tier, large=.004, loops=.3,
                       attrs=gen.cost_attrs(['ties', 'small', 'zero']))
    c['ask'] = requests(rng, c['n'], rng.randint(1, 4))
    return c


def reduce(case):
    for i in range(len(case['ask'])):
        if len(case['ask']) > 1:
            yield dict(case, ask=case['ask'][:i] + case['ask'][i + 1:])
    hi = max(x for a in case['ask'] for x in (a['s'], a['t'] or 0))
    for c in gen.shrink_graph(case):
        if c['n'] > hi:
            yield c


def has_edge(E, d, u, v):
    return (u, v) in E or (not d and (v, u) in E)


def check_tree(ob, pred, s, reached, step, N, what):
    ob.check(isinstance(pred, dict), '%s returned %r', what, pred)
    ob.check(set(pred) == {N[i] for i in reached if i != s},
             '%s: predecessor map has keys %r, expected %r', what,
             sorted(map(str, pred)), [N[i] for i in reached if i != s])
    idx = {N[i]: i for i in range(len(N))}
    for k, v in pred.items():
        ob.check(v in idx and step(idx[v], idx[k]),
                 '%s: no edge for predecessor %r of %r', what, v, k)
    for k in pred:
        x, c = k, 0
        while x != N[s]:
            x = pred.get(x)
            c += 1
            ob.check(x is not None and c <= len(N),
                     '%s: predecessors of %r do not lead to the source', what,
                     k)
    ob.ev('tree checked')


def check_path(ob, path, s, t, step, N, what):
    idx = {N[i]: i for i in range(len(N))}
    ob.check(isinstance(path, list) and path and path[0] == N[s] and
             path[-1] == N[t], '%s: %r is not a path from %r to %r', what,
             path, N[s], N[t])
    ob.check(len(set(path)) == len(path), '%s: path %r repeats a node', what,
             path)
    for a, b in zip(path, path[1:]):
        ob.check(a in idx and b in idx and step(idx[a], idx[b]),
                 '%s: path %r uses a missing edge (%r, %r)', what, path, a, b)
    ob.ev('path checked')


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    g.search(rng.choice(names), algo=rng.choice(ALGOS),
             component=rng.choice([None, 3]))


def run(case, ob):
    d, n = case['dir'], case['n']
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(n)]
    g = gen.build(gimpy, case, warm=warm)
    if any(u == v for (u, v) in E):
        ob.ev('loop')
    for a in case['ask']:
        rev = a['rev'] and d
        adj = (oracle.in_adj if rev else oracle.out_adj)(nodes, E, d)
        reached = oracle.reach(adj, a['s'])

        def step(u, v):
            return has_edge(E, d, v, u) if rev else has_edge(E, d, u, v)
        kw = {'algo': a['algo'], 'reverse': a['rev']}
        if a['q']:
            kw['q'] = {'Stack': Stack, 'Queue': Queue}[a['q']]()
        if a['t'] is not None:
            kw['destination'] = nm(a['t'])
        if a['comp'] is not None:
            kw['component'] = a['comp']
        for i in nodes:
            g.set_node_attr(N[i], 'component', 'none')
        what = 'search(%r, %r)' % (N[a['s']], kw)
        r = g.search(nm(a['s']), **kw)
        if a['rev']:
            ob.ev('reverse')
        if a['algo'] == 'Prim' and d:
            ob.ev('Prim reversed' if rev else 'Prim on a directed graph')
        if a['t'] is None:
            check_tree(ob, r, a['s'], reached, step, N, what)
        elif a['t'] in reached:
            check_path(ob, r, a['s'], a['t'], step, N, what)
        else:
            ob.ev('no path')
            ob.check(r is None, '%s: %r although there is no path', what, r)
        if a['comp'] is not None and a['t'] is None:
            ob.ev('component marked')
            got = {i for i in nodes
                   if g.get_node_attr(N[i], 'component') == a['comp']}
            ob.check(got == reached, '%s marked %r, reached are %r', what,
                     [N[i] for i in got], [N[i] for i in reached])
        ob.key(d, n, case['scheme'], case['edges'], sorted(a.items(),
               key=str), len(reached))
    ob.sample({'graph': case['edges'][:10], 'ask': case['ask'][:2]})
