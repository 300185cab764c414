"""One table of the algorithms of gimpy.Graph: for which graphs each call is
in its domain, how its arguments are drawn, how it is called and what its
result is.  Used by the properties that quantify over all algorithms.

A result is (return value, {result attribute: {element: value}}); names of
nodes are kept as they are.
"""
from . import gen, oracle

STREAM = {}


class Facts(object):
    """what the domains below need to know of a graph case"""

    def __init__(self, case):
        self.case = case
        nodes, E = gen.plain(case)
        self.n = len(nodes)
        self.dir = case['dir']
        pairs = list(E)
        self.loops = any(u == v for (u, v) in pairs)
        self.anti = self.dir and any((v, u) in E for (u, v) in pairs
                                     if u != v)
        self.connected = oracle.is_connected(nodes, pairs)
        cs = [a.get('cost', 0) for a in E.values()]
        self.nonneg = all(c >= 0 for c in cs)
        self.integral = all(isinstance(c, int) for c in cs) and all(
            isinstance(a.get('capacity', 1), int) for a in E.values())
        self.caps = all('capacity' in a for a in E.values())
        self.m = len(pairs)
        nat = case.get('nattr', {})
        self.demand = all('demand' in nat.get(str(i), {}) for i in nodes) \
            and bool(nodes)
        self.negcycle = self.dir and not self.nonneg and \
            oracle.has_negative_cycle(nodes, [(u, v, E[u, v].get('cost', 0))
                                              for (u, v) in pairs])
        self.acyclic = self.dir and not self.loops and all(
            len(c) == 1 for c in oracle.strong_components(nodes, pairs))
        self.plain_net = self.dir and not self.loops and not self.anti


def _attr(g, name):
    return {n: g.get_node_attr(n, name) for n in g.get_node_list()}


def _flow(g):
    return {e: g.get_edge_attr(e[0], e[1], 'flow') for e in g.get_edge_list()}


def _clear(g, *names):
    for n in g.get_node_list():
        for a in names:
            g.get_node(n).attr.pop(a, None)


A = []


def algo(name, domain, draw=lambda rng, f: {}, display=True):
    """register; the function is called with (g, N, args, disp) and returns
    the result; disp is {} or {'display': mode}"""
    def deco(fn):
        A.append({'name': name, 'domain': domain, 'draw': draw, 'call': fn,
                  'display': display})
        return fn
    return deco


def node(rng, f):
    return rng.randrange(f.n)


def d_search(rng, f):
    a = {'s': node(rng, f)}
    if rng.random() < .5:
        a['t'] = node(rng, f)
    if f.dir and rng.random() < .4:
        a['reverse'] = True
    return a


def kw_search(g, N, a):
    kw = {}
    if 't' in a:
        kw['destination'] = N[a['t']]
    if a.get('reverse'):
        kw['reverse'] = True
    return kw


def search_with(algo_name):
    def fn(g, N, a, disp):
        r = g.search(N[a['s']], algo=algo_name, **dict(kw_search(g, N, a),
                                                       **disp))
        att = {}
        if algo_name in ('BFS', 'UnweightedSPT'):
            att['distance'] = _attr(g, 'distance')
        return r, att
    return fn


for _a in ('DFS', 'BFS', 'UnweightedSPT'):
    algo('search ' + _a, lambda f: True, d_search)(search_with(_a))
algo('search Dijkstra', lambda f: f.nonneg, d_search)(search_with('Dijkstra'))


def d_source(rng, f):
    return {'s': node(rng, f)}


algo('search Prim', lambda f: not f.dir, d_source)(search_with('Prim'))


@algo('search component', lambda f: True, d_source)
def _(g, N, a, disp):
    r = g.search(N[a['s']], component=7, algo='DFS', **disp)
    return r, {'marked': {n: g.get_node_attr(n, 'component') == 7
                          for n in r}}


@algo('Graph.bfs', lambda f: True, d_source)
def _(g, N, a, disp):
    r = g.bfs(N[a['s']], **disp)
    return r, {'distance': _attr(g, 'distance')}


def d_roots(rng, f):
    return {'roots': gen.node_order(rng, f.n)}


@algo('dfs', lambda f: True, d_roots)
def _(g, N, a, disp):
    _clear(g, 'disc_time', 'finish_time', 'component')
    order = []
    dc, fc = 0, 1
    for i in a['roots']:
        if g.get_node_attr(N[i], 'disc_time') is None:
            dc, fc = g.dfs(N[i], dc, fc, topological_order=order, **disp)
    return (dc, fc, order), {'disc_time': _attr(g, 'disc_time'),
                             'finish_time': _attr(g, 'finish_time')}


@algo('dfs twice', lambda f: f.dir, d_roots)
def _(g, N, a, disp):
    _clear(g, 'disc_time', 'finish_time', 'component')
    dc, fc = 0, 1
    for i in a['roots']:
        if g.get_node_attr(N[i], 'disc_time') is None:
            dc, fc = g.dfs(N[i], dc, fc, **disp)
    fin = _attr(g, 'finish_time')
    _clear(g, 'component')
    dc, fc, k = 0, 1, 0
    for n in sorted(fin, key=lambda n: -fin[n]):
        if g.get_node_attr(n, 'component') is None:
            dc, fc = g.dfs(n, dc, fc, component=k, transpose=True, **disp)
            k += 1
    return k, {'component': _attr(g, 'component')}


@algo('label_components', lambda f: not f.dir)
def _(g, N, a, disp):
    g.label_components(**disp)
    return g.num_components, {'component': _attr(g, 'component')}


@algo('tarjan', lambda f: f.dir, display=False)
def _(g, N, a, disp):
    g.tarjan()
    return None, {'component': _attr(g, 'component')}


@algo('label_strong_component', lambda f: f.dir, display=False)
def _(g, N, a, disp):
    g.label_strong_component()
    return g.num_components, {'component': _attr(g, 'component')}


@algo('minimum_spanning_tree_kruskal', lambda f: not f.dir)
def _(g, N, a, disp):
    return g.minimum_spanning_tree_kruskal(**disp), {}


@algo('minimum_spanning_tree_prim', lambda f: not f.dir, d_source)
def _(g, N, a, disp):
    return g.minimum_spanning_tree_prim(N[a['s']], **disp), {}


def d_ends(rng, f):
    s = node(rng, f)
    return {'s': s, 't': (s + 1 + rng.randrange(f.n - 1)) % f.n}


def two(f):
    return f.plain_net and f.n > 1


def max_flow_with(algo_name):
    def fn(g, N, a, disp):
        r = g.max_flow(N[a['s']], N[a['t']], algo=algo_name, **disp)
        return r, {'flow': _flow(g)}
    return fn


for _a in ('DFS', 'BFS'):
    algo('max_flow ' + _a, two, d_ends)(max_flow_with(_a))


def preflow_with(algo_name):
    def fn(g, N, a, disp):
        r = g.max_flow_preflowpush(N[a['s']], N[a['t']], algo=algo_name,
                                   **disp)
        return r, {'flow': _flow(g), 'excess at the sink':
                   g.get_node_attr(N[a['t']], 'excess')}
    return fn


for _a in ('FIFO', 'SAP', 'HighestLabel'):
    algo('preflowpush ' + _a, two, d_ends)(preflow_with(_a))


def network(f):
    return f.plain_net and f.demand and f.integral and f.caps


@algo('find_feasible_flow', network, display=False)
def _(g, N, a, disp):
    r = g.find_feasible_flow()
    return r, {'flow': _flow(g) if r else None}


@algo('residual graph', network, display=False)
def _(g, N, a, disp):
    if not g.find_feasible_flow():
        return False, {}
    r = g.create_residual_graph()
    return {e: (r.get_edge_attr(*e, 'capacity'), r.get_edge_attr(*e, 'cost'))
            for e in r.get_edge_list()}, {}


@algo('cycle_canceling', lambda f: network(f) and f.connected and f.n < 8)
def _(g, N, a, disp):
    r = g.cycle_canceling(disp.get('display', 'off'))
    return r, {'flow': _flow(g) if r else None}


def d_simplex(rng, f):
    return {'pivot': rng.choice(['dantzig', 'first_eligible']),
            'root': node(rng, f)}


@algo('network_simplex', lambda f: network(f) and f.connected, d_simplex)
def _(g, N, a, disp):
    r = g.network_simplex(disp.get('display', 'off'), a['pivot'],
                          N[a['root']])
    return r, {'flow': _flow(g) if r else None}


@algo('min_cost_flow', lambda f: network(f) and f.connected)
def _(g, N, a, disp):
    r = g.min_cost_flow(**disp)
    return r, {}


@algo('floyd_warshall', lambda f: f.dir, display=False)
def _(g, N, a, disp):
    valid, dist, nextn = g.floyd_warshall()
    if not valid:
        return valid, {}
    names = g.get_node_list()
    paths = {(i, j): g.floyd_warshall_get_path(dist, nextn, i, j)
             for i in names for j in names}
    return (valid, dist), {'paths': paths}


@algo('get_negative_cycle', lambda f: f.dir, display=False)
def _(g, N, a, disp):
    return g.get_negative_cycle(), {}


@algo('fifo_label_correcting', lambda f: f.dir or f.nonneg, d_source,
      display=False)
def _(g, N, a, disp):
    r = g.fifo_label_correcting(N[a['s']])
    return r, {'distance': _attr(g, 'distance') if r[0] else None}


@algo('acyclic_shortest_path', lambda f: f.acyclic, d_source, display=False)
def _(g, N, a, disp):
    return g.acyclic_shortest_path(N[a['s']]), {}


def d_ham(rng, f):
    a = {'s': node(rng, f)}
    if rng.random() < .5:
        a['t'] = node(rng, f)
    if rng.random() < .4:
        a['bare'] = True
    return a


@algo('hamiltonian', lambda f: f.n < 8, d_ham)
def _(g, N, a, disp):
    if a.get('bare'):
        # without a dictionary to fill in
        return g.hamiltonian(N[a['s']], N[a['t']] if 't' in a else None,
                             **disp), {}
    pred = {}
    r = g.hamiltonian(N[a['s']], N[a['t']] if 't' in a else None, pred=pred,
                      **disp)
    return r, {'pred': pred if r else None}


@algo('page_rank', lambda f: f.dir, display=False)
def _(g, N, a, disp):
    return g.page_rank(), {}


@algo('get_degrees', lambda f: True, display=False)
def _(g, N, a, disp):
    return g.get_degrees(), {}


@algo('get_in_degrees', lambda f: f.dir, display=False)
def _(g, N, a, disp):
    return g.get_in_degrees(), {}


@algo('get_out_degrees', lambda f: f.dir, display=False)
def _(g, N, a, disp):
    return g.get_out_degrees(), {}


@algo('get_diameter', lambda f: not f.dir, display=False)
def _(g, N, a, disp):
    return g.get_diameter(), {}


BY_NAME = {a['name']: a for a in A}


def draw(rng, facts, display_only=False, k=None):
    """a list of [name, args] in the domain of the graph"""
    pool = [a for a in A if a['domain'](facts) and
            (a['display'] or not display_only)]
    if not pool:
        return []
    out = []
    for _ in range(k or rng.randint(1, 3)):
        a = rng.choice(pool)
        out.append([a['name'], a['draw'](rng, facts)])
    return out


def call(g, N, name, args, disp=None):
    return BY_NAME[name]['call'](g, N, args, disp or {})


def same(x, y):
    return x == y and type(x) is type(y)


def universal(rng, tier, hi=8, big=11, large=.0012):
    """a graph on which many algorithms are defined"""
    kind = rng.choice(['network', 'network', 'graph', 'graph', 'digraph',
                       'dag'])
    if kind == 'network':
        from . import flow
        c = flow.demand_network(rng, tier, connected=rng.random() < .75,
                                hi=hi, big=big, large=large,
                                costkinds=['ties', 'small', 'wide', 'zero',
                                           'unit', 'small', 'neg'],
                                capkinds=['unit', 'small', 'small', 'zero',
                                          'mixed'])
        c.pop('kind')
    else:
        c = gen.graph_case(
            rng, tier, directed=kind != 'graph', acyclic=kind == 'dag',
            anti=0 if kind == 'dag' else .3, hi=hi, big=big, large=large,
            loops=.1 if kind != 'dag' and rng.random() < .2 else 0,
            attrs=gen.cost_attrs(['ties', 'small', 'wide', 'zero', 'dyadic',
                                  'unit'] + (['neg'] if kind == 'dag'
                                             else [])))
        c['nattr'] = {}
    return c


def shrink(case, key='calls'):
    """fewer calls, then fewer edges"""
    cs = case[key]
    for i in range(len(cs)):
        if len(cs) > 1:
            yield dict(case, **{key: cs[:i] + cs[i + 1:]})
    yield from gen.drop_reducer(case)
    if case['scheme'] != 'int':
        yield dict(case, scheme='int')
