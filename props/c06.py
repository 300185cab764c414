import gimpy
from coinor.blimpy import Queue
from mon import gen, oracle
from props import c05

PID = 'C06'
RULE = ('random directed/undirected graphs of 16 shapes up to 32 nodes '
        '(loops, opposite arcs), all digraphs on 3 and graphs on 4 nodes; '
        'search BFS/UnweightedSPT with and without destination, forward and '
        'reverse, and Graph.bfs, several on one graph; distance attributes, '
        'path lengths and predecessor depths compared with hop counts. '
        'Distinct by graph, request and largest distance.')
QUICK, THOROUGH = 200000, 6000000
PAST = {'mode': 'any'}
REQUIRED = {'large graph': 50, 'distance checked': 5000, 'bfs call': 300, 'depth checked': 2000,
            'path length checked': 500, 'unreached': 500, 'reverse': 300,
            'distance above 3': 300}


def requests(rng, n, k):
    return [{'s': rng.randrange(n),
             't': rng.randrange(n) if rng.random() < .3 else None,
             'algo': rng.choice(['BFS', 'UnweightedSPT', 'bfs']),
             'rev': rng.random() < .3,
             'comp': rng.choice([None, None, 3])} for _ in range(k)]


def fixed(tier):
    import random
    rng = random.Random(6)
    for es in oracle.small_digraphs(3):
        yield {'dir': True, 'n': 3, 'scheme': 'int',
               'edges': [list(e) for e in es], 'ask': requests(rng, 3, 4)}
    for es in oracle.small_graphs(4):
        yield {'dir': False, 'n': 4, 'scheme': 'str',
               'edges': [list(e) for e in es], 'ask': requests(rng, 4, 4)}


def gen_case(rng, i, tier):
    c = gen.graph_case(rng, tier, large=.004, loops=.2, shapes=gen.SHAPES + [
        'path', 'cycle', 'tree', 'sparse', 'grid', 'lollipop'])
    c['ask'] = requests(rng, c['n'], rng.randint(1, 3))
    return c


reduce = c05.reduce


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    if rng.random() < .3:
        g.bfs(rng.choice(names))
    else:
        g.search(rng.choice(names), algo=rng.choice(['BFS', 'UnweightedSPT',
                                                     'DFS']))


def run(case, ob):
    d, n = case['dir'], case['n']
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(n)]
    g = gen.build(gimpy, case, warm=warm)
    for a in case['ask']:
        rev = a['rev'] and d and a['algo'] != 'bfs'
        adj = (oracle.in_adj if rev else oracle.out_adj)(nodes, E, d)
        dist = oracle.hop_distances(adj, a['s'])

        def step(u, v):
            return (c05.has_edge(E, d, v, u) if rev
                    else c05.has_edge(E, d, u, v))
        what = '%s from %r (reverse=%r, destination=%r)' % (
            a['algo'], N[a['s']], rev, a['t'])
        if a['algo'] == 'bfs':
            ob.ev('bfs call')
            g.bfs(nm(a['s']), component=a['comp'])
            r, full = None, True
        else:
            kw = {'algo': a['algo'], 'reverse': rev}
            if a['t'] is not None:
                kw['destination'] = nm(a['t'])
            r = g.search(nm(a['s']), component=a['comp'], **kw)
            full = a['t'] is None
        if rev:
            ob.ev('reverse')
        if full:
            for i in nodes:
                got = g.get_node_attr(N[i], 'distance')
                ob.check(got == dist.get(i) and
                         (got is None) == (i not in dist),
                         '%s: distance of %r is %r, expected %r', what, N[i],
                         got, dist.get(i))
                ob.ev('distance checked')
                if i not in dist:
                    ob.ev('unreached')
                elif dist[i] > 3:
                    ob.ev('distance above 3')
        if a['algo'] != 'bfs' and full:
            c05.check_tree(ob, r, a['s'], set(dist), step, N, what)
            for i in dist:
                x, c = N[i], 0
                while x != N[a['s']]:
                    x = r[x]
                    c += 1
                ob.eq(c, dist[i], '%s: depth of %r in the predecessor map'
                      % (what, N[i]))
                ob.ev('depth checked')
        elif a['algo'] != 'bfs':
            if a['t'] in dist:
                c05.check_path(ob, r, a['s'], a['t'], step, N, what)
                ob.eq(len(r) - 1, dist[a['t']], what + ': edges of the path')
                ob.ev('path length checked')
            else:
                ob.check(r is None, '%s: %r although unreachable', what, r)
        ob.key(d, n, case['edges'], sorted(a.items(), key=str),
               max(dist.values()))
    ob.sample({'graph': case['edges'][:10], 'ask': case['ask'][:2]})
