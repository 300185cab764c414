import gimpy
from mon import gen, flow

PID = 'C14'
RULE = ('directed networks of 16 shapes up to 24 nodes without loops and '
        'opposite arcs; capacities unit, small, zero, wide, at and above '
        '10000, dyadic, missing; leftover flow values; several max_flow '
        'calls (DFS, BFS, random ends) on one network. Distinct by network, '
        'ends, algorithm and value.')
QUICK, THOROUGH = 160000, 3200000
PAST = {'mode': 'simple'}
REQUIRED = {'large graph': 50, 'maximum flow checked': 5000, 'positive flow': 2000,
            'inner minimum cut': 300, 'arcs back over the cut': 300,
            'missing capacity': 300, 'zero capacity': 500,
            'flow taken back': 200}
STEPS = 2000000


def fixed(tier):
    # networks on which a greedy path must be undone
    for k in range(2, 7):
        es = [[0, 1, {'capacity': 1}], [1, 4, {'capacity': 1}],
              [0, 2, {'capacity': 1}], [1, 2, {'capacity': 1}],
              [2, 3, {'capacity': 1}], [1, 3, {'capacity': 1}],
              [3, 4, {'capacity': 1}], [2, 4, {'capacity': 1}]]
        for r in range(len(es)):
            rot = es[r:] + es[:r]
            yield {'dir': True, 'n': 5, 'scheme': 'int', 'edges':
                   (rot if k % 2 else rot[::-1])[:k + 2],
                   'ask': [[0, 4, 'DFS'], [0, 4, 'BFS'], [4, 0, 'DFS']]}


def gen_case(rng, i, tier):
    if rng.random() < .2:
        c = rng.choice([flow.matching, flow.matching,
                        flow.crossing])(rng, tier)
        c['ask'] = [[*c['st'], rng.choice(['DFS', 'BFS', None])]]
        return c
    c = flow.network(rng, tier, large=.003)
    while c['n'] < 2:
        c = flow.network(rng, tier)
    c['ask'] = [[*flow.ends(rng, c['n']), rng.choice(['DFS', 'BFS', None])]
                for _ in range(rng.randint(1, 3))]
    if rng.random() < .5:
        c['ask'][0][:2] = [0, c['n'] - 1]
    return c


def reduce(case):
    ask = case['ask']
    for i in range(len(ask)):
        if len(ask) > 1:
            yield dict(case, ask=ask[:i] + ask[i + 1:])
    for c in gen.shrink_graph(case):
        if c['n'] > max(max(a[:2]) for a in ask):
            yield c


def watch(g, ob):
    """count flow units taken back between frames"""
    last = {}

    def frame(*args, **kw):
        for e, a in g.edge_attr.items():
            f = a.get('flow', 0)
            if f < last.get(e, 0):
                ob.ev('flow taken back')
            last[e] = f
    g.set_display_mode('file')
    g.display = frame
    return last


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    if len(names) > 1:
        g.max_flow(*rng.sample(names, 2), algo=rng.choice(['DFS', 'BFS']))


def run(case, ob):
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    g = gen.build(gimpy, case, warm=warm)
    cap = {e: a.get('capacity', flow.INF) for e, a in E.items()}
    if any('capacity' not in a for a in E.values()):
        ob.ev('missing capacity')
    if 0 in cap.values():
        ob.ev('zero capacity')
    last = watch(g, ob) if len(nodes) < 13 else {}
    for (s, t, algo) in case['ask']:
        last.clear()
        what = 'max_flow from %r to %r, %s' % (N[s], N[t], algo)
        if algo is None:
            g.max_flow(nm(s), nm(t))
        else:
            g.max_flow(nm(s), nm(t), algo=algo)
        v = flow.check_max(ob, nodes, flow.read(g, N, E), cap, s, t, N, what)
        ob.key(case['n'], case['scheme'], case['edges'], s, t, algo, v)
    ob.sample({'network': case['edges'][:8], 'ask': case['ask']})
