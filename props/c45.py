import contextlib
import copy
import io
import random
import gimpy
from mon import algos, gen, oracle, snap, trees

PID = 'C45'
RULE = ('every algorithm and query, called on random graphs, networks, '
        'disjoint sets and trees: list and dictionary arguments are compared '
        'with copies after the call, then arguments and the returned lists, '
        'dictionaries and graphs are emptied and overwritten; the graph must '
        'not change by that, and the same call made again must give what it '
        'gives on an undisturbed twin. Distinct by graph and call.')
QUICK, THOROUGH = 60000, 1500000
REQUIRED = {'large graph': 15,
            'argument unchanged': 20000, 'result overwritten': 20000,
            'same again': 20000, 'graph returned': 500, 'cluster': 1000,
            'random': 1000, 'cycle given': 400, 'floyd tables given': 500,
            'items given': 1000, 'highlight': 500, 'tree': 1000,
            'edges removed along': 1000}
REQUIRED.update({'call ' + a['name']: 100 for a in algos.A})


# --- calls beyond the table of algorithms ------------------------------------

def cycles_of(g):
    """a closed walk along the edges in either direction, if one is found"""
    names = g.get_node_list()
    adj = {n: [] for n in names}
    for u, v in g.get_edge_list():
        if u != v:
            adj[u].append(v)
            adj[v].append(u)
    for s in names:
        up = {s: None}
        todo = [s]
        for x in todo:
            for y in adj[x]:
                if y not in up:
                    up[y] = x
                    todo.append(y)
                elif up[x] != y:
                    a, b = [x], [y]
                    while up[a[-1]] is not None:
                        a.append(up[a[-1]])
                    while up[b[-1]] is not None:
                        b.append(up[b[-1]])
                    while len(a) > 1 and len(b) > 1 and a[-2:] == b[-2:]:
                        a.pop()
                        b.pop()
                    if a[-1] == b[-1]:
                        c = a + b[-2::-1]
                        if len(c) > 2 and len(set(c)) == len(c):
                            return c
    return None


def x_cluster(g, N, a):
    nodes = [N[i] for i in a['nodes']]
    ca, na = copy.deepcopy(a['ca']), copy.deepcopy(a['na'])
    return lambda: g.create_cluster(nodes, ca, na), [nodes, ca, na]


def x_random(g, N, a):
    ef, nf = copy.deepcopy(a['ef']), copy.deepcopy(a['nf'])
    rg, ln = list(a['deg']), list(a['len'])
    return lambda: g.random(numnodes=5, edge_format=ef, node_format=nf,
                            degree_range=rg, length_range=ln,
                            seedInput=a['seed'], Euclidean=a['eu']), \
        [ef, nf, rg, ln]


def x_capacity(g, N, a):
    c = [N[i] for i in a['cycle']]
    return lambda: g.find_cycle_capacity(c), [c]


def x_augment(g, N, a):
    c = [N[i] for i in a['cycle']]
    return lambda: g.augment_cycle(1, c), [c]


def x_simplexcap(g, N, a):
    c = [N[i] for i in a['cycle']]
    return lambda: g.simplex_augment_cycle(c), [c]


def x_floydpath(g, N, a):
    ok, dist, nxt = g.floyd_warshall()
    u, v = N[a['u']], N[a['v']]
    if not ok:
        return lambda: g.floyd_warshall_get_cycle(dist, nxt), [dist, nxt]
    return lambda: g.floyd_warshall_get_path(dist, nxt, u, v), [dist, nxt]


def x_floyd(g, N, a):
    return g.floyd_warshall, []


def x_lists(g, N, a):
    def f():
        return [g.get_node_list(), g.get_edge_list(), g.get_degrees()] + \
            [q(n) for n in N for q in (g.get_neighbors, g.get_out_neighbors)] + \
            [g.get_in_neighbors(n) for n in N
             if g.graph_type == gimpy.DIRECTED_GRAPH]
    return f, []


def x_walk(g, N, a):
    """remove the edges at a node while going through its neighbors"""
    n = N[a['u']]

    def f():
        was = view(g.get_neighbors(n))
        for m in g.get_neighbors(n):
            if g.check_edge(n, m):
                g.del_edge((n, m))
        for m in (g.get_in_neighbors(n) if g.graph_type == gimpy.DIRECTED_GRAPH else []):
            if g.check_edge(m, n):
                g.del_edge((m, n))
        return [was, g.get_edge_list()]
    return f, []


def x_residual(g, N, a):
    return g.create_residual_graph, []


def x_solution(g, N, a):
    return g.get_simplex_solution_graph, []


def x_spanning(g, N, a):
    # a flow within the bounds is turned into a spanning tree solution
    return g.simplex_find_tree, []


def x_simplexsearch(g, N, a):
    return lambda: g.simplex_search(N[a['u']], 1), []


def x_simplexcycle(g, N, a):
    return g.simplex_find_cycle, []


def x_checkcycle(g, N, a):
    pred = {N[i]: (None if p is None else N[p]) for i, p in a['pred']}
    return lambda: g.label_correcting_check_cycle(N[a['j']], pred), [pred]


def x_highlight(g, N, a):
    hl = [N[i] if k else g.get_node(N[i]) for i, k in a['hl']]
    return lambda: g.display(highlight=hl), [hl]


EXTRA = {'cluster': x_cluster, 'random': x_random, 'capacity': x_capacity,
         'augment': x_augment, 'simplexcap': x_simplexcap,
         'floydpath': x_floydpath, 'floyd': x_floyd, 'lists': x_lists, 'walk': x_walk,
         'residual': x_residual, 'solution': x_solution,
         'checkcycle': x_checkcycle,
         'spanning': x_spanning, 'simplexsearch': x_simplexsearch,
         'simplexcycle': x_simplexcycle, 'highlight': x_highlight}


def gen_case(rng, i, tier):
    if rng.random() < .05:
        return dict(trees.case(rng, tier), k='tree')
    if rng.random() < .1:
        n = rng.randint(2, 8)
        parts, k = [], 0
        while k < n:
            z = min(n - k, rng.randint(1, 3))
            parts.append(list(range(k, k + z)))
            k += z
        return {'k': 'set', 'scheme': rng.choice(gen.SCHEMES), 'n': n,
                'parts': parts, 'opt': rng.random() < .5,
                'ops': [[rng.randrange(n), rng.randrange(n)]
                        for _ in range(rng.randint(1, 5))]}
    c = algos.universal(rng, tier, hi=6, big=8)
    f = algos.Facts(c)
    n = c['n']
    calls = [['algo', x] for x in algos.draw(rng, f, k=2)]
    for _ in range(2):
        r = rng.choice(['cluster', 'random', 'flow', 'flow', 'floydpath',
                        'floyd', 'lists', 'walk', 'checkcycle', 'highlight'])
        if r == 'walk':
            a = {'u': rng.randrange(n)}
        elif r == 'cluster':
            a = {'nodes': rng.sample(range(n), rng.randint(0, n)),
                 'ca': rng.choice([{}, {'color': 'red', 'note': [1]},
                                   {'name': 'n%d' % len(calls)}]),
                 'na': rng.choice([{}, {'shape': 'box', 'note': [2, [3]]}])}
        elif r == 'random':
            a = {'ef': rng.choice([None, {}, {'color': 'red'}]),
                 'nf': rng.choice([None, {}, {'shape': 'box'}]),
                 'deg': [1, rng.randint(1, 3)], 'len': [1, 9],
                 'seed': rng.randint(0, 50), 'eu': rng.random() < .3}
        elif r == 'flow':
            if not algos.network(f):
                continue
            r = rng.choice(['capacity', 'augment', 'simplexcap', 'residual',
                            'solution', 'spanning', 'simplexsearch',
                            'simplexcycle'])
            a = {'u': rng.randrange(n)}
        elif r in ('floydpath', 'floyd'):
            if not c['dir'] or f.loops:
                continue
            a = {'u': rng.randrange(n), 'v': rng.randrange(n)}
        elif r == 'checkcycle':
            up = []
            for x in range(n):
                up.append([x, rng.choice([None] + list(range(n)))])
            a = {'pred': up, 'j': rng.randrange(n)}
            # the chain from j ends or comes back to j
            p, x, k = dict(up), a['j'], 0
            while x is not None and k <= n:
                x = p[x]
                k += 1
                if x == a['j']:
                    break
            if k > n:
                continue
        elif r == 'highlight':
            a = {'hl': [[rng.randrange(n), rng.random() < .5]
                        for _ in range(rng.randint(0, 3))]}
        else:
            a = {}
        calls.append([r, a])
    c['calls'] = calls
    c['k'] = 'graph'
    return c


def reduce(case):
    if case['k'] == 'tree':
        yield from trees.shrink(case)
        return
    if case['k'] == 'set':
        for i in range(len(case['ops'])):
            yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
        return
    yield from algos.shrink(case)


def spoil(x, deep=0):
    """overwrite what was handed over"""
    if hasattr(x, 'edge_attr') and hasattr(x, 'neighbors'):
        for e in x.get_edge_list():
            for k in list(x.edge_attr[e]):
                x.edge_attr[e][k] = 'spoiled'
        for n in x.get_node_list():
            for k in list(x.get_node(n).attr):
                x.set_node_attr(n, k, 'spoiled')
        for n in x.get_node_list():
            x.del_node(n)
        return
    if deep > 4:
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, deep + 1)
        x.clear()
        x['spoiled'] = 'spoiled'
    elif isinstance(x, list):
        for v in x:
            spoil(v, deep + 1)
        x[:] = ['spoiled']
    elif isinstance(x, (tuple, set)):
        for v in x:
            spoil(v, deep + 1)


def view(x):
    """a copy that can be compared; graphs by what they hold"""
    if hasattr(x, 'edge_attr') and hasattr(x, 'neighbors'):
        return ['graph', snap.full(x)]
    if isinstance(x, dict):
        return {k: view(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [view(v) for v in x]
    return x


def prepare(g, call, N):
    """what the call needs to find on the graph"""
    k, a = call
    if k in ('capacity', 'augment', 'simplexcap', 'residual', 'solution',
             'spanning'):
        rng = random.Random(len(N))
        for e in g.get_edge_list():
            cap = g.get_edge_attr(e[0], e[1], 'capacity')
            g.set_edge_attr(e[0], e[1], 'flow', rng.randint(0, max(0, min(
                cap, 9))))


def bind(g, N, call):
    """(function without arguments, argument objects)"""
    k, a = call
    if k == 'algo':
        name, args = a
        if name == 'hamiltonian':
            return lambda: algos.call(g, N, name, args), []
        return lambda: algos.call(g, N, name, args)[0], []
    return EXTRA[k](g, N, a)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return f()
        except Exception as e:
            return ['raised', type(e).__name__]


def run(case, ob):
    if case['k'] == 'set':
        return sets(case, ob)
    if case['k'] == 'tree':
        return tree(case, ob)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(case['n'])]
    for call in case['calls']:
        k, a = call
        # the random generator names its nodes itself
        fresh = {'dir': case['dir'], 'n': 0, 'scheme': 'int', 'edges': [],
                 'order': []} if k == 'random' else case
        g, h = gen.build(gimpy, fresh), gen.build(gimpy, fresh)
        name = a[0] if k == 'algo' else k
        what = 'call %s %r' % (name, a)
        for x in (g, h):
            prepare(x, call, N)
        if k in ('capacity', 'augment', 'simplexcap'):
            c = cycles_of(g)
            if c is None:
                continue
            if k == 'capacity':
                # all arcs in one direction
                d = gen.build(gimpy, {'dir': True, 'n': 0, 'edges': [],
                                      'order': []})
                e = copy.deepcopy(d)
                for x in (d, e):
                    for j, u in enumerate(c):
                        x.add_edge(u, c[(j + 1) % len(c)],
                               capacity=(case['n'] + 2 * j) % 5)
                g, h = d, e
            a = dict(a, cycle=[N.index(x) for x in c])
            call = [k, a]
            ob.ev('cycle given')
        if k == 'floydpath':
            ob.ev('floyd tables given')
        if k in ('cluster', 'random', 'highlight'):
            ob.ev(k)
        if k == 'algo':
            ob.ev('call ' + name)
        if k == 'highlight':
            import mon.frames
            fr = mon.frames.Frames()
            g.attr['display'] = h.attr['display'] = 'file'
            real = [gimpy.Graph.display]
            gimpy_create = gimpy.Graph.__dict__['write']
            gimpy.Graph.write = lambda *x, **y: None
            try:
                one(ob, g, h, N, call, what)
            finally:
                gimpy.Graph.write = gimpy_create
            continue
        one(ob, g, h, N, call, what)
        ob.key(case['dir'], case['n'], case['scheme'], case['edges'], k,
               str(a))
    ob.sample({'graph': case['edges'][:6], 'calls': case['calls']})


def one(ob, g, h, N, call, what):
    f, args = bind(g, N, call)
    f2, args2 = bind(h, N, call)
    had = view(args)
    r = quiet(f)
    quiet(f2)
    ob.check(view(args) == had, '%s: arguments were %r and are %r', what, had,
             view(args))
    ob.ev('argument unchanged', max(1, len(args)))
    first = view(r)
    state = snap.full(g)
    d = snap.diff(snap.full(h), state)
    ob.check(d is None, '%s: two equal graphs differ afterwards: %s', what, d)
    if hasattr(r, 'edge_attr'):
        ob.ev('graph returned')
    if isinstance(r, (dict, list, tuple)) or hasattr(r, 'edge_attr'):
        ob.ev('result overwritten')
    spoil(r)
    for x in args:
        if call[0] == 'highlight':
            x[:] = []
        else:
            spoil(x)
    d = snap.diff(state, snap.full(g))
    ob.check(d is None, '%s: overwriting what was handed in and out changed '
             'the graph: %s', what, d)
    if call[0] == 'walk':
        n = N[call[1]['u']]
        left = [e for e in g.get_edge_list() if n in e]
        ob.check(not left, '%s: removing the edges at %r one by one along its '
                 'neighbors left %r', what, n, left)
        ob.ev('edges removed along')
    if call[0] in ('cluster', 'random', 'walk'):
        return
    f, args = bind(g, N, call)
    again, twin = view(quiet(f)), view(quiet(f2))
    ob.check(again == twin, '%s: gave %r, and after its result was '
             'overwritten %r; undisturbed %r', what, first, again, twin)
    d = snap.diff(snap.full(h), snap.full(g))
    ob.check(d is None, '%s: the graph whose results were overwritten '
             'differs: %s', what, d)
    ob.ev('same again')


def tree(case, ob):
    t = trees.build(gimpy, case)
    state = snap.full(t)
    for n in t.get_node_list():
        for q in ('get_children', 'get_neighbors', 'get_in_neighbors',
                  'get_out_neighbors'):
            was = list(getattr(t, q)(n))
            spoil(getattr(t, q)(n))
            ob.ev('result overwritten')
            ob.check(getattr(t, q)(n) == was, '%s(%r) gave %r, and after the '
                     'list was overwritten %r', q, n, was, getattr(t, q)(n))
    d = snap.diff(state, snap.full(t))
    ob.check(d is None, 'overwriting lists of neighbors and children changed '
             'the tree: %s', d)
    ob.ev('tree')
    ob.key('tree', case['links'], case['scheme'])


def sets(case, ob):
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(case['n'])]
    s = gimpy.DisjointSet(optimize=case['opt'])
    for p in case['parts']:
        items = [N[i] for i in p]
        had = list(items)
        s.add(items)
        ob.check(items == had, 'add(%r) left the list as %r', had, items)
        state = snap.full(s)
        items[:] = ['spoiled']
        d = snap.diff(state, snap.full(s))
        ob.check(d is None, 'add(%r): changing the list changed the set: %s',
                 had, d)
        ob.ev('items given')
        ob.ev('argument unchanged')
    for u, v in case['ops']:
        s.union(N[u], N[v])
    ob.key('set', case['parts'], case['ops'], case['scheme'])
