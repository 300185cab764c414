import io
import re
from contextlib import redirect_stdout
import gimpy
from mon import flow, gen, oracle, snap

PID = 'C42'
RULE = ('flow networks, feasible or not, solved by network simplex and cycle '
        'canceling, augmenting paths and preflow push, flows written by hand, '
        'and requests naming an unknown algorithm; what is printed and the '
        'graph of partly used arcs are compared with the attributes on the '
        'graph and with an independent feasibility decision. Distinct by '
        'network and request.')
QUICK, THOROUGH = 180000, 3600000
STEPS = 20000000
REQUIRED = {'large graph': 20,
            'print_flow compared': 8000, 'flow printed': 8000,
            'solution graph compared': 8000, 'partly used arc': 5000,
            'flow below one': 500,
            'full arc': 3000, 'infeasible reported': 800,
            'feasible silent': 1500, 'unknown algorithm': 800,
            'sink not reached reported': 300, 'sink reached silent': 300,
            'adjacency printed': 3000, 'layout read back': 1000}


def gen_case(rng, i, tier):
    kind = rng.choice(['mcf', 'mcf', 'mcf', 'maxflow', 'hand', 'unknown',
                       'repr'])
    large = rng.random() < .0004
    if kind == 'repr':
        c = gen.graph_case(rng, tier, loops=.3, large=.002)
    else:
        c = flow.demand_network(rng, tier, connected=kind != 'maxflow' or
                                rng.random() < .5,
                                costkinds=['ties', 'small', 'zero', 'unit',
                                           'neg'],
                                capkinds=['unit', 'small', 'small', 'zero'],
                                n=None if large else rng.choice(
                                    [1, 2, 3, 4, 5, 6, 6, 7, 8]),
                                large=large)
    c['k'] = kind
    c['seed'] = rng.randrange(1 << 30)
    c['algo'] = rng.choice({
        'mcf': ['simplex', 'simplex', 'cycle_canceling'],
        'maxflow': ['FIFO', 'SAP', 'HighestLabel', 'DFS', 'BFS'],
        'hand': ['-'], 'repr': ['-'],
        'unknown': ['search', 'min_cost_flow']}[kind])
    c['pivot'] = rng.choice([None, 'dantzig', 'first_eligible'])
    c['bad'] = rng.choice(['', 'dfs', 'bfs', 'Dijsktra', 'prim', 'SIMPLEX',
                           'cycle canceling', 'dijkstra', 0, ('DFS',)])
    return c


def reduce(case):
    yield from (flow.shrink(case) if case['k'] != 'repr'
                else gen.shrink_graph(case))


def silent(f):
    out = io.StringIO()
    with redirect_stdout(out):
        r = f()
    return r, out.getvalue()


def run(case, ob):
    import random
    rng = random.Random(case['seed'])
    kind = case['k']
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    g = gen.build(gimpy, case)
    ob.key(kind, case['algo'], case['n'], case['edges'],
           case.get('nattr'))
    ob.sample({'kind': kind, 'graph': case['edges'][:6],
               'algo': case['algo']})
    if kind == 'repr':
        return adjacency(ob, case, g, rng, nodes, E, N)
    if kind == 'unknown':
        return unknown(ob, case, g, rng, N)
    dem = {i: case['nattr'][str(i)]['demand'] for i in nodes}
    cap = {e: a['capacity'] for e, a in E.items()}
    if kind == 'mcf':
        kw = {'algo': case['algo']}
        if case['algo'] == 'simplex':
            if case['pivot']:
                kw['pivot'] = case['pivot']
            if rng.random() < .5:
                kw['root'] = rng.choice(N)
        _, text = silent(lambda: g.min_cost_flow(**kw))
        ok = oracle.feasible_exists(nodes, cap, dem)
        ob.eq('infeasible' in text, not ok, 'min_cost_flow(%r) on demands %r '
              'of a %s network printed %r: reported infeasible' % (
                  kw, dem, 'feasible' if ok else 'infeasible', text))
        ob.ev('feasible silent' if ok else 'infeasible reported')
        if not ok:
            return
    elif kind == 'maxflow':
        if len(N) < 2:
            return
        s, t = rng.sample(nodes, 2)
        if case['algo'] in ('DFS', 'BFS'):
            silent(lambda: g.max_flow(nm(s), nm(t), algo=case['algo']))
        else:
            _, text = silent(lambda: g.max_flow_preflowpush(
                nm(s), nm(t), algo=case['algo']))
            away = set(nodes) - set(oracle.reach(
                oracle.in_adj(nodes, E, True), t))
            ob.eq('not connected to the sink' in text, bool(away),
                  'max_flow_preflowpush to %r printed %r, nodes with no path '
                  'to the sink are %r: warned' % (N[t], text, away))
            ob.ev('sink not reached reported' if away
                  else 'sink reached silent')
    else:
        for (u, v), c in cap.items():
            g.set_edge_attr(N[u], N[v], 'flow', rng.choice(
                [0, 0, c, flow.part(rng, c)]))
    # what the graph holds now
    data = {}
    for e in g.get_edge_list():
        a = g.edge_attr[e]
        data[e] = (a['flow'], a['capacity'])
    before = snap.full(g)
    _, text = silent(g.print_flow)
    rows = text.split('\n')[1:]
    ob.eq(rows[-1], '', 'last line printed by print_flow')
    got = []
    for row in rows[:-1]:
        m = re.match(r'^(.*?) *(\S+) +(\S+) *$', row)
        ob.check(m, 'print_flow printed the line %r', row)
        got.append((m.group(1), m.group(2), m.group(3)))
    want = [(str(e), str(f), str(c)) for e, (f, c) in data.items() if f != 0]
    ob.eq(sorted(got), sorted(want), 'arc, flow and capacity printed by '
          'print_flow')
    ob.ev('print_flow compared')
    ob.ev('flow printed', len(got))
    h = g.get_simplex_solution_graph()
    ob.check(h is not g, 'get_simplex_solution_graph returned the graph')
    ob.eq(set(h.get_node_list()), set(N), 'nodes of the solution graph')
    inside = {e for e, (f, c) in data.items() if 0 < f < c}
    ob.eq(set(h.get_edge_list()), inside, 'arcs of the solution graph')
    ob.eq(h.graph_type, gimpy.DIRECTED_GRAPH, 'type of the solution graph')
    ob.ev('solution graph compared')
    ob.ev('partly used arc', len(inside))
    ob.ev('flow below one', sum(1 for f, c in data.values() if 0 < f < 1))
    ob.ev('full arc', sum(1 for f, c in data.values() if f == c > 0))
    # the solution graph is the caller's own
    for e in list(h.get_edge_list()):
        h.del_edge(e)
    for x in list(h.get_node_list()):
        h.set_node_attr(x, 'label', 'changed')
    h.add_node('extra node')
    x = snap.diff(before, snap.full(g))
    ob.check(x is None, 'print_flow and get_simplex_solution_graph changed '
             'the graph: %s', x)


def unknown(ob, case, g, rng, N):
    bad = case['bad']
    if isinstance(bad, list):
        bad = tuple(bad)
    ob.ev('unknown algorithm')
    before = snap.full(g)
    if case['algo'] == 'search':
        if bad in ('Dijkstra', 'Prim', 'DFS', 'BFS', 'UnweightedSPT'):
            return
        s, t = rng.choice(N), rng.choice(N + [None])
        kw = {'algo': bad}
        if t is not None:
            kw['destination'] = t
        if rng.random() < .5:
            kw['display'] = rng.choice(['off', 'file'])
        r, text = silent(lambda: g.search(s, **kw))
        what = 'search(%r, %r)' % (s, kw)
    else:
        kw = {'algo': bad}
        if rng.random() < .5:
            kw['display'] = rng.choice(['off', 'file'])
        r, text = silent(lambda: g.min_cost_flow(**kw))
        what = 'min_cost_flow(%r)' % kw
    ob.check(r is None, '%s returned %r', what, r)
    ob.check(text.strip() != '', '%s printed nothing', what)
    x = snap.diff(before, snap.full(g))
    ob.check(x is None, '%s changed the graph: %s', what, x)


def adjacency(ob, case, g, rng, nodes, E, N):
    before = snap.full(g)
    lines = repr(g).split('\n') if case['n'] else []
    ob.eq(lines, ['%s -> %r' % (n, list(g.get_neighbors(n)))
                  for n in g.get_node_list()], 'lines of repr of the graph')
    ob.ev('adjacency printed')
    for n in g.get_node_list():
        ob.eq(repr(g.get_node(n)), g.get_node(n).to_string(),
              'repr of node %r' % (n,))
    x = snap.diff(before, snap.full(g))
    ob.check(x is None, 'repr changed the graph: %s', x)
    v = rng.choice(['dot', 'fdp', 'neato', 'circo', 'twopi'])
    g.set_layout(v)
    ob.eq(g.get_layout(), v, 'get_layout after set_layout')
    m = rng.choice(['off', 'file', 'pygame', 'PIL', 'matplotlib', 'svg'])
    g.set_display_mode(m)
    ob.eq(g.attr['display'], m, 'display mode after set_display_mode')
    before['gattr']['layout'] = v
    before['gattr']['display'] = m
    x = snap.diff(before, snap.full(g))
    ob.check(x is None, 'set_layout and set_display_mode changed: %s', x)
    ob.ev('layout read back')
