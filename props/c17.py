import contextlib
import io
import gimpy
from mon import gen, flow, oracle

PID = 'C17'
RULE = ('connected directed networks (16 shapes, no loops and opposite arcs, '
        'up to 20 nodes) with integer and fractional costs (negative, ties, zero, wide) and '
        'capacities (zero, unit, large), demands from a flow, tight, random, '
        'unbalanced or zero; min_cost_flow and network_simplex with both '
        'pivot rules, default and random roots, repeated on one network with '
        'changed costs. Distinct by network, demands, pivot rule, root.')
QUICK, THOROUGH = 80000, 1600000
PAST = {'mode': 'simple', 'keep': True}
REQUIRED = {'large graph': 50, 'optimal flow checked': 3000, 'infeasible reported': 500,
            'dantzig': 1000, 'first_eligible': 1000, 'given root': 1000,
            'negative costs': 1000,
            'fractional capacities': 1000, 'zero capacity': 500,
            'feasible flow was not optimal': 500, 'direct call': 1000,
            'arc at capacity and in use': 1000}
STEPS = 6000000
SIMPLEX = True


def gen_case(rng, i, tier):
    c = flow.demand_network(rng, tier, True, large=.003)
    asks = []
    for k in range(rng.choice([1, 1, 2])):
        asks.append({'pivot': rng.choice(['dantzig', 'first_eligible', None]),
                     'root': rng.choice([None, rng.randrange(c['n'])]),
                     'direct': rng.random() < .3,
                     'costs': [rng.randint(-6, 9) for _ in c['edges']]
                     if k else None})
    c['ask'] = asks
    return c


def reduce(case):
    ask = case['ask']
    if len(ask) > 1:
        for i in range(len(ask)):
            yield dict(case, ask=ask[:i] + ask[i + 1:])
    if any(a['costs'] for a in ask):
        return
    for c in flow.shrink(case):
        if all((a['root'] or 0) < c['n'] for a in ask) and \
                oracle.is_connected(range(c['n']),
                                    [tuple(e[:2]) for e in c['edges']]):
            yield c


def check_optimal(ob, g, N, data, what):
    nodes, E, cap, cost, dem = data
    fl = flow.read(g, N, E)
    flow.check_feasible(ob, nodes, fl, cap, dem, N, what)
    ob.check(oracle.flow_is_optimal(nodes, cap, cost, fl),
             '%s: the flow %r is feasible but not of minimum cost (the '
             'residual network has a negative cycle)', what, fl)
    ob.ev('optimal flow checked')
    if any(f and f == cap[e] for e, f in fl.items()):
        ob.ev('arc at capacity and in use')


def call(ob, g, case, a, nm):
    """(description, infeasible reported)"""
    if a['direct']:
        root = nm(a['root']) if a['root'] is not None else \
            g.get_node_list()[0]
        pivot = a['pivot'] or 'dantzig'
        what = 'network_simplex(off, %r, %r)' % (pivot, root)
        ob.ev('direct call')
        r = g.network_simplex('off', pivot, root)
        ob.check(r is True or r is False, '%s returned %r', what, r)
        return what, r is False
    kw = {}
    if a['pivot']:
        kw['pivot'] = a['pivot']
    if a['root'] is not None:
        kw['root'] = nm(a['root'])
        ob.ev('given root')
    if a.get('algo', 1):
        kw['algo'] = 'simplex'
    what = 'min_cost_flow(%r)' % kw
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g.min_cost_flow(**kw)
    return what, 'infeasible' in out.getvalue()


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    g.min_cost_flow(algo='simplex', pivot=rng.choice(['dantzig',
                                                      'first_eligible']))


def run(case, ob):
    nodes, E, cap, cost, dem = flow.demand_data(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    g = gen.build(gimpy, case, warm=warm)
    want = oracle.feasible_exists(nodes, cap, dem)
    if 0 in cap.values():
        ob.ev('zero capacity')
    for a in case['ask']:
        if a['costs']:
            for e, c in zip(list(cost), a['costs']):
                cost[e] = c
                g.set_edge_attr(N[e[0]], N[e[1]], 'cost', c)
        if min(cost.values(), default=0) < 0:
            ob.ev('negative costs')
        if want:
            # what the monitor would say about the starting flow
            g.find_feasible_flow()
            if not oracle.flow_is_optimal(nodes, cap, cost,
                                          flow.read(g, N, E)):
                ob.ev('feasible flow was not optimal')
        what, infeasible = call(ob, g, case, a, nm)
        ob.ev(a['pivot'] or 'dantzig')
        if infeasible:
            ob.check(not want, '%s reports that the problem is infeasible, '
                     'but a feasible flow exists', what)
            ob.ev('infeasible reported')
        else:
            ob.check(want, '%s does not report that the problem is '
                     'infeasible', what)
            check_optimal(ob, g, N, (nodes, E, cap, cost, dem), what)
        ob.key(case['n'], case['scheme'], case['edges'], sorted(dem.items()),
               a['pivot'], a['root'], a['costs'])
    if flow.fractional(case):
        ob.ev('fractional capacities')
    ob.sample({'network': case['edges'][:8], 'demand': dem,
               'ask': case['ask'][:2]})
