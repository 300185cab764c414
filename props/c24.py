import gimpy
from mon import gen, oracle
from props import c05

PID = 'C24'
RULE = ('directed and undirected graphs with at most 8 nodes (16 shapes, '
        'also graphs with a planted Hamiltonian path hidden in random '
        'order), all graphs on 4 and digraphs on 3 nodes; every source with '
        'and without destination, pred dictionary given or not, repeated on '
        'one graph. Distinct by graph, source, destination, answer.')
QUICK, THOROUGH = 128000, 2560000
PAST = {'mode': 'any'}
REQUIRED = {'large graph': 50,
            'path exists': 2000, 'no path': 2000, 'pred checked': 1000,
            'destination given': 1000, 'planted': 500, 'directed': 1000,
            'undirected': 1000, 'backtracking needed': 300}
STEPS = 3000000


def fixed(tier):
    for es in oracle.small_graphs(4):
        yield {'dir': False, 'n': 4, 'scheme': 'str',
               'edges': [list(e) for e in es],
               'ask': [{'s': 0, 't': None, 'pred': True},
                       {'s': 1, 't': 3, 'pred': True}]}
    for es in oracle.small_digraphs(3):
        yield {'dir': True, 'n': 3, 'scheme': 'int',
               'edges': [list(e) for e in es],
               'ask': [{'s': 0, 't': None, 'pred': True},
                       {'s': 1, 't': 2, 'pred': False}]}


def gen_case(rng, i, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 7, 8])
    shapes = gen.SHAPES + ['medium', 'cycle', 'path', 'lollipop', 'grid']
    large = rng.random() < .002
    if large:
        # few paths to try, so that a long one is found
        n, shapes = rng.randint(12, 40), ['path', 'cycle', 'tree', 'star']
    c = gen.graph_case(rng, tier, n=n, loops=.15, shapes=shapes)
    if n > 2 and rng.random() < .4 and not large:
        p = list(range(n))
        rng.shuffle(p)
        have = {tuple(e) for e in c['edges']}
        for a in zip(p, p[1:]):
            if a not in have and (c['dir'] or a[::-1] not in have):
                c['edges'].append(list(a))
        rng.shuffle(c['edges'])
        c['planted'] = True
    c['ask'] = [{'s': rng.randrange(n), 't': rng.randrange(n)
                 if rng.random() < .4 else None, 'pred': rng.random() < .7}
                for _ in range(rng.randint(1, 3))]
    if c.get('planted') and rng.random() < .6:
        c['ask'].append({'s': p[0], 't': rng.choice([None, p[-1]]),
                         'pred': True})
    return c


reduce = c05.reduce


def greedy(adj, s):
    seen, x = {s}, s
    while True:
        for y in adj[x]:
            if y not in seen:
                seen.add(y)
                x = y
                break
        else:
            return len(seen) == len(adj)


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    g.hamiltonian(rng.choice(names))


def run(case, ob):
    d, n = case['dir'], case['n']
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    g = gen.build(gimpy, case, warm=warm)
    adj = oracle.out_adj(nodes, E, d)
    ob.ev('directed' if d else 'undirected')
    for a in case['ask']:
        s, t = a['s'], a['t']
        want = oracle.hamiltonian_path_exists(adj, s, t)
        pred = {}
        kw = {}
        if t is not None:
            kw['destination'] = nm(t)
            ob.ev('destination given')
        if a['pred']:
            kw['pred'] = pred
        what = 'hamiltonian(%r, %r)' % (N[s], None if t is None else N[t])
        r = g.hamiltonian(nm(s), **kw)
        ob.check(r is want, '%s returned %r, a Hamiltonian path %s', what, r,
                 'exists' if want else 'does not exist')
        ob.ev('path exists' if want else 'no path')
        if want and not greedy(adj, s):
            ob.ev('backtracking needed')
        if want and a['pred']:
            # read the path: the last node is the one that precedes no other
            if t is not None:
                ends = [N[t]]
            else:
                ends = N
            good = False
            for e in ends:
                path = [e]
                while path[-1] != N[s] and path[-1] in pred and \
                        len(path) <= n:
                    path.append(pred[path[-1]])
                path.reverse()
                if len(path) == n and path[0] == N[s] and \
                        len(set(path)) == n and set(path) == set(N):
                    good = True
                    break
            ob.check(good, '%s: pred %r describes no Hamiltonian path', what,
                     pred)
            c05.check_path(ob, path, s, N.index(path[-1]),
                           lambda u, v: c05.has_edge(E, d, u, v), N, what)
            ob.ev('pred checked')
        if case.get('planted'):
            ob.ev('planted')
        ob.key(d, n, case['scheme'], case['edges'], s, t)
    ob.sample({'graph': case['edges'][:10], 'ask': case['ask'][:2]})
