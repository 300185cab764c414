import random
import gimpy
from mon import gen, flow, oracle, snap

PID = 'C16'
RULE = ('directed networks (16 shapes, no loops and opposite arcs, connected '
        'or not) with demands made from a random flow, tight, random, '
        'unbalanced or zero; find_feasible_flow twice, then the residual '
        'graph of the flow found and of random flows compared arc by arc, '
        'and random residual cycles priced and augmented. Distinct by '
        'network and demands.')
QUICK, THOROUGH = 100000, 2000000
PAST = {'mode': 'simple'}
REQUIRED = {'large graph': 200,
            'feasible': 2000, 'infeasible': 1000, 'unbalanced': 300,
            'no demand': 300,
            'fractional capacities': 1000, 'residual graph compared': 2000,
            'cycle augmented': 500, 'structure compared': 5000,
            'cycle over a reverse arc': 200}


def gen_case(rng, i, tier):
    c = flow.demand_network(rng, tier, rng.random() < .5, large=.004)
    c['seed'] = rng.randrange(10 ** 9)
    return c


reduce = flow.shrink


def state(g):
    return (snap.structure(g), snap.edge_attrs(g, ('flow', 'label', 'color')),
            {n: g.get_node_attr(n, 'demand') for n in g.get_node_list()})


def residual_arcs(cap, cost, fl):
    out = {}
    for (u, v), c in cap.items():
        if fl[u, v] > 0:
            out[v, u] = (fl[u, v], -cost[u, v])
        if c - fl[u, v] > 0:
            out[u, v] = (c - fl[u, v], cost[u, v])
    return out


def find_cycle(rng, arcs, nodes):
    """a random simple cycle with at least two nodes, or None"""
    out = {}
    for (u, v) in arcs:
        out.setdefault(u, []).append(v)
    x = rng.choice(nodes)
    path = [x]
    while True:
        nxt = out.get(path[-1], [])
        if not nxt:
            return None
        y = rng.choice(nxt)
        if y in path:
            return path[path.index(y):]
        path.append(y)


def check_residual(ob, g, N, nodes, cap, cost, fl, rng, what):
    want = residual_arcs(cap, cost, fl)
    r = g.create_residual_graph()
    idx = {N[i]: i for i in nodes}
    got = {}
    for e in r.get_edge_list():
        got[idx[e[0]], idx[e[1]]] = (r.get_edge_attr(*e, 'capacity'),
                                     r.get_edge_attr(*e, 'cost'))
    ob.eq(got, want, what + ': residual arcs (capacity, cost)')
    ob.ev('residual graph compared')
    cyc = find_cycle(rng, want, nodes)
    if cyc is None:
        return
    arcs = list(zip(cyc, cyc[1:] + cyc[:1]))
    m = min(want[a][0] for a in arcs)
    names = [N[i] for i in cyc]
    ob.eq(r.find_cycle_capacity(list(names)), m,
          '%s: capacity of the residual cycle %r' % (what, names))
    if len(cyc) < 3:
        return
    amount = rng.choice([m, 1, m]) if m >= 1 else m
    g.augment_cycle(amount, list(names))
    exp = dict(fl)
    for (u, v) in arcs:
        if (u, v) in cap:
            exp[u, v] += amount
        else:
            exp[v, u] -= amount
            ob.ev('cycle over a reverse arc')
    ob.eq(flow.read(g, N, cap), exp, '%s: flow after augment_cycle(%r, %r)'
          % (what, amount, names))
    ob.ev('cycle augmented')


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    g.find_feasible_flow()
    if rng.random() < .5:
        g.create_residual_graph()


def run(case, ob):
    rng = random.Random(case['seed'])
    nodes, E, cap, cost, dem = flow.demand_data(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    g = gen.build(gimpy, case, warm=warm)
    before = state(g)
    want = oracle.feasible_exists(nodes, cap, dem)
    for k in range(2):
        what = 'find_feasible_flow, call %d' % (k + 1)
        r = g.find_feasible_flow()
        ob.check(r is want, '%s returned %r, a feasible flow %s', what, r,
                 'exists' if want else 'does not exist')
        after = state(g)
        ob.check(before == after, '%s changed the network: %r -> %r', what,
                 before, after)
        ob.ev('structure compared')
        if want:
            fl = flow.read(g, N, E)
            flow.check_feasible(ob, nodes, fl, cap, dem, N, what)
            check_residual(ob, g, N, nodes, cap, cost, fl, rng, what)
    fl = {}
    for e in E:
        c = cap[e]
        fl[e] = rng.choice([0, c, flow.part(rng, c), flow.part(rng, c)])
        g.set_edge_attr(N[e[0]], N[e[1]], 'flow', fl[e])
    check_residual(ob, g, N, nodes, cap, cost, fl, rng, 'random flow')
    ob.ev('feasible' if want else 'infeasible')
    if sum(dem.values()):
        ob.ev('unbalanced')
    if not any(dem.values()):
        ob.ev('no demand')
    ob.key(case['n'], case['scheme'], case['edges'], sorted(dem.items()))
    if flow.fractional(case):
        ob.ev('fractional capacities')
    ob.sample({'network': case['edges'][:8], 'demand': dem})
