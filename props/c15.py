import gimpy
from mon import gen, flow, oracle
from props import c14

PID = 'C15'
RULE = ('directed networks of 16 shapes up to 24 nodes without loops and '
        'opposite arcs; capacities unit, small, zero, wide, at and above '
        '10000, dyadic, missing; several max_flow_preflowpush calls (FIFO, '
        'SAP, HighestLabel, random ends) on one network, also nodes without '
        'a path to the sink. Distinct by network, ends, algorithm, value.')
QUICK, THOROUGH = 100000, 2000000
PAST = {'mode': 'simple'}
REQUIRED = {'large graph': 50, 'maximum flow checked': 5000, 'positive flow': 2000,
            'inner minimum cut': 300, 'FIFO': 1000, 'SAP': 1000,
            'HighestLabel': 1000, 'node cut off from the sink': 1000,
            'excess returned': 500, 'zero capacity': 500}
STEPS = 5000000
ALGOS = ['FIFO', 'SAP', 'HighestLabel']


def fixed(tier):
    for c in c14.fixed(tier):
        yield dict(c, ask=[[0, 4, a] for a in ALGOS] + [[4, 0, 'FIFO']])


def gen_case(rng, i, tier):
    if rng.random() < .2:
        c = rng.choice([flow.matching, flow.matching,
                        flow.crossing])(rng, tier)
        c['ask'] = [[*c['st'], rng.choice(ALGOS)]]
        return c
    c = flow.network(rng, tier, large=.003)
    while c['n'] < 2:
        c = flow.network(rng, tier)
    c['ask'] = [[*flow.ends(rng, c['n']), rng.choice(ALGOS)]
                for _ in range(rng.randint(1, 3))]
    if rng.random() < .5:
        c['ask'][0][:2] = [0, c['n'] - 1]
    return c


reduce = c14.reduce


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    if len(names) > 1:
        g.max_flow_preflowpush(*rng.sample(names, 2), algo=rng.choice(ALGOS))


def run(case, ob):
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    g = gen.build(gimpy, case, warm=warm)
    cap = {e: a.get('capacity', flow.INF) for e, a in E.items()}
    if 0 in cap.values():
        ob.ev('zero capacity')
    for (s, t, algo) in case['ask']:
        what = 'max_flow_preflowpush from %r to %r, %s' % (N[s], N[t], algo)
        g.max_flow_preflowpush(nm(s), nm(t), algo=algo)
        f = flow.read(g, N, E)
        v = flow.check_max(ob, nodes, f, cap, s, t, N, what)
        ob.eq(g.get_node_attr(N[t], 'excess'), v, what + ': excess at sink')
        ob.ev(algo)
        if len(oracle.reach(oracle.in_adj(nodes, E, True), t)) < len(nodes):
            ob.ev('node cut off from the sink')
        if sum(c for e, c in cap.items() if e[0] == s) > v:
            ob.ev('excess returned')
        ob.key(case['n'], case['scheme'], case['edges'], s, t, algo, v)
    ob.sample({'network': case['edges'][:8], 'ask': case['ask']})
