import contextlib
import io
import gimpy
from mon import gen, flow, oracle
from props import c17

PID = 'C18'
RULE = ('connected directed networks (16 shapes, no loops and opposite arcs, '
        'up to 9 nodes) with integer costs and capacities of at most 12, '
        'demands from a flow, tight, random, unbalanced or zero; '
        'min_cost_flow(algo=cycle_canceling) and cycle_canceling, repeated '
        'with changed costs. Distinct by network and demands.')
QUICK, THOROUGH = 75000, 1500000
PAST = {'mode': 'simple', 'keep': True}
REQUIRED = {'large graph': 15,
            'optimal flow checked': 2000, 'infeasible reported': 500,
            'negative costs': 500,
            'fractional capacities': 1000, 'zero capacity': 300,
            'feasible flow was not optimal': 500, 'direct call': 500}
STEPS = 20000000


def gen_case(rng, i, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 8, 9])
    big = rng.random() < .0006
    c = flow.demand_network(rng, tier, True, n=None if big else n, large=big,
                            capkinds=['unit', 'small', 'small', 'zero'])
    c['ask'] = [{'direct': rng.random() < .3, 'root': None, 'costs':
                 [rng.randint(-6, 9) for _ in c['edges']] if k else None}
                for k in range(rng.choice([1, 1, 2]))]
    return c


reduce = c17.reduce


def warm(g, rng, names):
    """calls made before the graph got its final state"""
    g.min_cost_flow(algo='cycle_canceling')


def run(case, ob):
    nodes, E, cap, cost, dem = flow.demand_data(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    g = gen.build(gimpy, case, warm=warm)
    want = oracle.feasible_exists(nodes, cap, dem)
    if 0 in cap.values():
        ob.ev('zero capacity')
    for a in case['ask']:
        if a['costs']:
            for e, c in zip(list(cost), a['costs']):
                cost[e] = c
                g.set_edge_attr(N[e[0]], N[e[1]], 'cost', c)
        if min(cost.values(), default=0) < 0:
            ob.ev('negative costs')
        if want:
            g.find_feasible_flow()
            if not oracle.flow_is_optimal(nodes, cap, cost,
                                          flow.read(g, N, E)):
                ob.ev('feasible flow was not optimal')
        if a['direct']:
            what = 'cycle_canceling'
            r = g.cycle_canceling('off')
            ob.check(r is True or r is False, '%s returned %r', what, r)
            infeasible = r is False
            ob.ev('direct call')
        else:
            what = 'min_cost_flow(cycle_canceling)'
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                g.min_cost_flow(algo='cycle_canceling')
            infeasible = 'infeasible' in out.getvalue()
        if infeasible:
            ob.check(not want, '%s reports that the problem is infeasible, '
                     'but a feasible flow exists', what)
            ob.ev('infeasible reported')
        else:
            ob.check(want, '%s does not report that the problem is '
                     'infeasible', what)
            c17.check_optimal(ob, g, N, (nodes, E, cap, cost, dem), what)
        ob.key(case['n'], case['scheme'], case['edges'], sorted(dem.items()),
               a['costs'])
    if flow.fractional(case):
        ob.ev('fractional capacities')
    ob.sample({'network': case['edges'][:8], 'demand': dem})
