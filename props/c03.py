import contextlib
import io
import gimpy
from gimpy.global_constants import MultipleNodeException, MultipleEdgeException
from mon import gen, snap
from props import c01

PID = 'C03'
RULE = ('a random graph, tree or binary tree (built by a random history, '
        'with attributes and sometimes a cluster), then a sequence of '
        'invalid requests of every kind applicable (duplicate node, edge in '
        'either orientation, duplicate child, occupied child slot, missing '
        'parent, deletion or attribute access of something absent, duplicate '
        'cluster name, algorithm on the wrong graph type, unknown algorithm, '
        'no negative cycle); each must raise (or print a message and return '
        'None where the code says so), '
        'with the documented exception for duplicates, and a full snapshot '
        '(structure, order, numbers, degrees, attributes, clusters, root) must '
        'be unchanged, and later accepted updates act as on a twin object '
        'that never saw the rejected ones. '
        'Distinct by (kind of object, request kind, outcome state).')
QUICK, THOROUGH = 36000, 720000
KINDS = ['dupnode', 'dupedge', 'dupedge-rev', 'delmissingnode',
         'delmissingedge', 'delreversed', 'getnodeattr', 'setnodeattr',
         'getedgeattr', 'setedgeattr', 'dupcluster', 'wrongtype',
         'neighbors-missing', 'tree-duproot', 'tree-dupchild',
         'tree-noparent', 'bt-occupied-left', 'bt-occupied-right',
         'bt-dup-left', 'bt-dup-right', 'bt-noparent',
         'edgecost', 'wrongtype-told', 'unknown-search', 'unknown-mincost',
         'no-negative-cycle']
# requests that may be refused by a message and the result None
TOLD = ['wrongtype-told', 'unknown-search', 'unknown-mincost']
REQUIRED = dict({'request ' + k: 30 for k in KINDS},
                **{'accepted update after rejected ones': 1000})


def gen_case(rng, i, tier):
    kind = rng.choice(['graph', 'graph', 'graph', 'tree', 'btree'])
    n = rng.choice([2, 3, 4, 6])
    case = {'kind': kind, 'n': n, 'scheme': rng.choice(gen.SCHEMES),
            'seed': rng.randrange(10 ** 9),
            'ask': [rng.choice(KINDS) for _ in range(25)]}
    if kind == 'graph':
        case['dir'] = rng.random() < .5
        case['ops'] = c01.gen_ops(rng, case['dir'], n, rng.randint(3, 25))
    else:
        case['dir'] = True
        case['par'] = [rng.randrange(k) for k in range(1, n)]
        case['side'] = [rng.choice('LR') for _ in range(1, n)]
    return case


def make(case, nm):
    if case['kind'] == 'graph':
        g = gimpy.Graph(type=gen.gtype(case['dir']))
        for op in case['ops']:
            if op[0] == 'node':
                g.add_node(nm(op[1]), color='red')
            elif op[0] == 'edge':
                g.add_edge(nm(op[1]), nm(op[2]), cost=3)
            elif op[0] == 'deledge':
                g.del_edge((nm(op[1]), nm(op[2])))
            else:
                g.del_node(nm(op[1]))
        return g
    if case['kind'] == 'tree':
        g = gimpy.Tree()
        g.add_root(nm(0), label='r')
        for k, p in enumerate(case['par'], 1):
            g.add_child(nm(k), nm(p), color='blue')
        return g
    g = gimpy.BinaryTree()
    g.add_root(nm(0), label='r')
    used = set()
    for k, (p, s) in enumerate(zip(case['par'], case['side']), 1):
        while (p, s) in used:
            if s == 'L' and (p, 'R') not in used:
                s = 'R'
            elif s == 'R' and (p, 'L') not in used:
                s = 'L'
            else:
                p = (p + 1) % k
        used.add((p, s))
        (g.add_left_child if s == 'L' else g.add_right_child)(
            nm(k), nm(p), color='blue')
    return g


def told(ob, todo, what):
    said = io.StringIO()
    try:
        with contextlib.redirect_stdout(said):
            r = todo()
    except Exception:
        ob.ev('refused by an exception')
        return
    ob.check(r is None and said.getvalue().strip(), '%s: returned %r and '
             'said %r, neither an exception nor a message', what, r,
             said.getvalue())
    ob.ev('refused by a message')


def asked(g, N):
    """what the object answers to every question about its contents"""
    s = snap.full(g)
    s['edge?'] = [(u, v) for u in N for v in N if g.check_edge(u, v)]
    s['node?'] = [u for u in N if u in g] if N and \
        not isinstance(N[0], tuple) else None
    s['degrees'] = g.get_degrees()
    if g.graph_type == gimpy.DIRECTED_GRAPH:
        s['in-degrees'] = g.get_in_degrees()
        s['out-degrees'] = g.get_out_degrees()
    return s


def run(case, ob):
    import random
    rng = random.Random(case['seed'])
    nm = gen.namer(case['scheme'])
    g = make(case, nm)
    d = case['dir']
    n = case['n']
    N = [nm(i) for i in range(n + 2)]
    have = [i for i in range(n) if N[i] in g.get_node_list()]
    missing = [i for i in range(n + 2) if i not in have]
    edges = [(i, j) for i in range(n) for j in range(n)
             if (N[i], N[j]) in g.get_edge_list()]
    absent = [(i, j) for i in range(n + 2) for j in range(n + 2)
              if (i, j) not in edges and (d or (j, i) not in edges)]
    tree = case['kind'] != 'graph'
    if rng.random() < .4 and have:
        g.create_cluster([N[i] for i in have[:2]], {'name': 'cl'})
    cn = 'cl' in g.cluster

    for kind in case['ask']:
        todo = None
        exc = ()
        if kind == 'dupnode' and have:
            i = rng.choice(have)
            exc = (MultipleNodeException,)
            todo = lambda: g.add_node(nm(i), color='new', extra=1)
        elif kind == 'dupedge' and edges:
            i, j = rng.choice(edges)
            exc = (MultipleEdgeException,)
            todo = lambda: g.add_edge(nm(i), nm(j), cost=99, extra=1)
        elif kind == 'dupedge-rev' and edges and not d:
            i, j = rng.choice(edges)
            exc = (MultipleEdgeException,)
            todo = lambda: g.add_edge(nm(j), nm(i), cost=99, extra=1)
        elif kind == 'delmissingnode' and case['kind'] != 'btree':
            i = rng.choice(missing)
            todo = lambda: g.del_node(nm(i))
        elif kind == 'delmissingnode':
            i = rng.choice(missing)
            todo = lambda: g.del_node(nm(i))
        elif kind == 'delmissingedge' and absent:
            i, j = rng.choice(absent)
            todo = lambda: g.del_edge((nm(i), nm(j)))
        elif kind == 'delreversed' and d:
            rev = [e for e in edges if e[::-1] not in edges]
            if rev:
                i, j = rng.choice(rev)
                todo = lambda: g.del_edge((nm(j), nm(i)))
        elif kind == 'getnodeattr':
            i = rng.choice(missing)
            todo = lambda: g.get_node_attr(nm(i), 'color')
        elif kind == 'setnodeattr':
            i = rng.choice(missing)
            todo = lambda: g.set_node_attr(nm(i), 'color', 'x')
        elif kind == 'getedgeattr' and absent:
            i, j = rng.choice(absent)
            todo = lambda: g.get_edge_attr(nm(i), nm(j), 'cost')
        elif kind == 'setedgeattr' and absent:
            i, j = rng.choice(absent)
            todo = lambda: g.set_edge_attr(nm(i), nm(j), 'cost', 5)
        elif kind == 'dupcluster' and cn:
            todo = lambda: g.create_cluster([N[i] for i in have],
                                            {'name': 'cl', 'color': 'red'})
        elif kind == 'wrongtype':
            todo = (lambda: g.label_components()) if d else \
                (lambda: g.create_residual_graph())
        elif kind == 'neighbors-missing':
            i = rng.choice(missing)
            todo = rng.choice([lambda: g.get_neighbors(nm(i)),
                               lambda: g.get_out_neighbors(nm(i))])
        elif kind == 'tree-duproot' and tree:
            i = rng.choice(have)
            todo = lambda: g.add_root(nm(i), label='new')
        elif kind == 'tree-dupchild' and tree:
            i, p = rng.choice(have), rng.choice(have)
            exc = (MultipleNodeException,)
            todo = lambda: g.add_child(nm(i), nm(p), label='new')
        elif kind == 'tree-noparent' and tree:
            i, p = rng.choice(missing), rng.choice(missing)
            if i == p:
                i = rng.choice(have)
            todo = lambda: g.add_child(nm(i), nm(p), label='new')
        elif case['kind'] == 'btree' and kind.startswith('bt-'):
            left = [i for i in have if g.get_left_child(N[i]) is not None]
            right = [i for i in have if g.get_right_child(N[i]) is not None]
            if kind == 'bt-occupied-left' and left:
                p = rng.choice(left)
                i = rng.choice(missing + have)
                todo = lambda: g.add_left_child(nm(i), nm(p), label='new')
            elif kind == 'bt-occupied-right' and right:
                p = rng.choice(right)
                i = rng.choice(missing + have)
                todo = lambda: g.add_right_child(nm(i), nm(p), label='new')
            elif kind == 'bt-dup-left' and len(left) < len(have):
                p = rng.choice([x for x in have if x not in left])
                i = rng.choice(have)
                todo = lambda: g.add_left_child(nm(i), nm(p), label='new')
            elif kind == 'bt-dup-right' and len(right) < len(have):
                p = rng.choice([x for x in have if x not in right])
                i = rng.choice(have)
                todo = lambda: g.add_right_child(nm(i), nm(p), label='new')
            elif kind == 'bt-noparent':
                i, p = rng.choice(missing), rng.choice(missing)
                if i == p:
                    i = rng.choice(have)
                todo = lambda: rng.choice([g.add_left_child,
                                           g.add_right_child])(nm(i), nm(p))
        elif kind == 'edgecost' and absent:
            i, j = rng.choice(absent)
            todo = lambda: g.get_edge_cost((nm(i), nm(j)))
        elif kind == 'wrongtype-told':
            todo = g.get_diameter if d else rng.choice([g.get_in_degrees,
                                                        g.get_out_degrees])
        elif kind == 'unknown-search' and have:
            a = {'algo': rng.choice(['dijkstra', 'bfs', '', 'A*', None])}
            if rng.random() < .4:
                a['display'] = rng.choice(['file', 'matplotlib', 'off'])
            if rng.random() < .4:
                a['component'] = 3
            if rng.random() < .4:
                a['destination'] = nm(rng.choice(have))
            i = rng.choice(have)
            todo = lambda: g.search(nm(i), **a)
        elif kind == 'unknown-mincost':
            a = {'algo': rng.choice(['Simplex', 'cycle canceling', '', None])}
            if rng.random() < .4:
                a['display'] = rng.choice(['file', 'matplotlib', 'off'])
            todo = lambda: g.min_cost_flow(**a)
        elif kind == 'no-negative-cycle' and have:
            # distances as floyd_warshall makes them where none is negative
            dist = {(N[i], N[j]): 0 if i == j else 'infinity'
                    for i in have for j in have}
            nxt = {e: None for e in dist}
            a = {} if rng.random() < .5 else {'element': nm(rng.choice(have))}
            todo = lambda: g.floyd_warshall_get_cycle(dist, nxt, **a)
        if todo is None:
            continue
        ob.ev('request ' + kind)
        before = asked(g, N)
        if kind in TOLD:
            told(ob, todo, '%s on a %s' % (kind, case['kind']))
        else:
            with ob.raises('%s on a %s' % (kind, case['kind']), *exc):
                todo()
        after = asked(g, N)
        ob.check(before == after, '%s on a %s was rejected but changed %s',
                 kind, case['kind'], snap.diff(before, after))
        ob.key(case['kind'], kind, d, len(have), len(edges), case['scheme'],
               str(before))
    afterwards(case, ob, nm, g, N)
    ob.sample({k: case[k] for k in ('kind', 'dir', 'n', 'ask')})


def afterwards(case, ob, nm, g, N):
    """later updates that are accepted act as on a twin that never saw the
    rejected ones"""
    import random
    rng = random.Random(case['seed'] + 1)
    twin = make(case, nm)
    if g.cluster:
        c = list(g.cluster['cl']['node_list']) if 'cl' in g.cluster else None
        if c is None:
            return
        twin.create_cluster(c, {'name': 'cl'})
    if asked(twin, N) != asked(g, N):
        # a rejected call left no visible change (checked above), so the
        # workload's own set-up differs; nothing to compare
        return
    for _ in range(3):
        nodes, edges = list(g.get_node_list()), list(g.get_edge_list())
        what = rng.choice(('node', 'edge', 'noedge', 'nonode'))
        both = ()
        if case['kind'] != 'graph':
            x = nm(case['n'] + 5 + _)
            if not nodes:
                return
            p = rng.choice(nodes)
            if case['kind'] == 'tree':
                both = [lambda t: t.add_child(x, p)]
            else:
                if what in ('node', 'edge'):
                    free = [v for v in nodes if g.get_left_child(v) is None]
                    both = [lambda t: t.add_left_child(x, p)]
                else:
                    free = [v for v in nodes if g.get_right_child(v) is None]
                    both = [lambda t: t.add_right_child(x, p)]
                if not free:
                    continue
                p = rng.choice(free)
        elif what == 'node':
            x = nm(case['n'] + 5 + _)
            both = [lambda t: t.add_node(x, color='green')]
        elif what == 'edge':
            new = [(u, v) for u in N for v in N
                   if u != v and not g.check_edge(u, v)]
            if not new:
                continue
            u, v = rng.choice(new)
            both = [lambda t: t.add_edge(u, v, cost=4)]
        elif what == 'noedge' and edges:
            e = rng.choice(edges)
            both = [lambda t: t.del_edge(e)]
        elif what == 'nonode' and nodes:
            x = rng.choice(nodes)
            both = [lambda t: t.del_node(x)]
        for f in both:
            f(g)
            f(twin)
            a, b = asked(g, N), asked(twin, N)
            ob.check(a == b, '%s after rejected updates (%s) acts '
                     'differently than without them: %s', what,
                     ','.join(case['ask']), snap.diff(b, a))
            ob.ev('accepted update after rejected ones')


def reduce(case):
    for i in range(len(case['ask'])):
        yield dict(case, ask=case['ask'][:i] + case['ask'][i + 1:])
    if case['kind'] == 'graph':
        for i in range(len(case['ops'])):
            c = dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
            if c01.valid(c):
                yield c
