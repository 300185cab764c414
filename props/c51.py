import gimpy
from mon import algos, core, flow, gen, trees

PID = 'C51'
RULE = ('every algorithm on graphs made to provoke work (chains of diamonds '
        'with exponentially many paths, costs that make label correcting '
        'improve exponentially often in a wrong order, zigzag networks with '
        'huge capacities, dense, thin and complete graphs of up to 40 nodes, '
        'numbers up to 10**12); the loop iterations executed inside the code '
        'under test are counted by a hook on its backward jumps and compared '
        'with the bound of the algorithm in nodes and edges alone (max_flow '
        'with DFS: also the flow value; cycle canceling: also the cost '
        'range). Distinct by graph and call.')
QUICK, THOROUGH = 24000, 600000
STEPS = 10 ** 8


def lin(n, m, x):
    return n + m + 1


def quad(n, m, x):
    return (n + 1) * (n + m + 1)


def cube(n, m, x):
    return (n + 1) * quad(n, m, x)


def push(n, m, x):
    # O(n * n * m) pushes, each with a look at the neighbors and the queue
    return (n + 1) ** 2 * (m + 1) * (n + 1)


# loop iterations, up to FACTOR; x is what else a run may depend on
BOUND = {
    'search DFS': quad, 'search BFS': quad, 'search UnweightedSPT': quad,
    'search Dijkstra': quad, 'search Prim': quad, 'search component': quad,
    'Graph.bfs': quad, 'dfs': quad, 'dfs twice': quad,
    'label_components': quad, 'tarjan': quad,
    'label_strong_component': quad,
    'minimum_spanning_tree_kruskal': quad,
    'minimum_spanning_tree_prim': quad,
    # at most n * m / 2 shortest augmenting paths
    'max_flow BFS': lambda n, m, x: (n + m + 1) * (n * m + 1),
    # each augmenting path carries one unit or more
    'max_flow DFS': lambda n, m, x: (x + 1) * quad(n, m, x),
    'preflowpush FIFO': push, 'preflowpush SAP': push,
    'preflowpush HighestLabel': push,
    'find_feasible_flow': lambda n, m, x: (x + 1) * quad(n + 2, m + n, x),
    # each cycle lowers the cost by one or more
    'cycle_canceling': lambda n, m, x: (x + 2) * cube(n + 2, m + n, x) * 2,
    'floyd_warshall': cube, 'get_negative_cycle': cube,
    # n passes over the edges, with a look for a cycle after each change
    'fifo_label_correcting': cube,
    'acyclic_shortest_path': quad, 'get_degrees': lin,
    'get_in_degrees': lin, 'get_out_degrees': lin,
    # one search for each pair of nodes
    'get_diameter': lambda n, m, x: (n + 1) ** 2 * quad(n, m, x),
    'page_rank': lambda n, m, x: 100 * lin(n, m, x),
}
FACTOR = 6
TREE = ['dfs', 'bfs', 'traverse', 'print_nodes', 'printexp', 'postordereval']
OTHER = ['to_string', 'DisjointSet', 'del_node']
REQUIRED = dict({'run: ' + a: 100 for a in list(BOUND) + ['tree ' + t for t in TREE] +
                 OTHER},
                **{'run on 30 nodes or more': 8000, 'ladder': 3000,
                   'steep': 3000, 'weave': 5000,
                   'container handed in': 1500, 'zigzag': 3000, 'huge numbers': 4000})


def extra(name, case, args):
    """the quantity x of a call, None: out of the scope"""
    E = case['edges']
    if name == 'max_flow DFS':
        x = sum(e[2].get('capacity', 10000) for e in E if e[0] == args['s'])
    elif name == 'find_feasible_flow':
        x = sum(abs(a['demand']) for a in case['nattr'].values())
    elif name == 'cycle_canceling':
        x = sum(abs(e[2]['cost']) * e[2]['capacity'] for e in E) + \
            sum(abs(a['demand']) for a in case['nattr'].values())
    else:
        return 0
    return x if x < 5000 and x == int(x) else None


def counted(call, allowed):
    """(iterations, finished within them)"""
    S = core.STEPS
    limit, at = S.limit, S.count
    S.limit = at + allowed
    try:
        call()
    except core.StepLimit:
        return allowed, False
    finally:
        S.limit = limit
    return S.count - at, True


def limited(call, allowed, what, ob):
    used, ended = counted(call, allowed)
    ob.check(ended, '%s: not finished after %d loop iterations', what,
             allowed)
    ob.ev('iterations counted', used)


def run_tree(case, ob):
    op = case['op']
    if op in ('printexp', 'postordereval'):
        t, _ = trees.build_expression(gimpy, case)
    else:
        t = trees.build(gimpy, case)
    n = case['n']
    kw = {}
    if 'root' in case:
        kw['root'] = gen.name(case['scheme'], case['root'])
    if op == 'print_nodes':
        kw['order'] = case['how']
    limited(lambda: getattr(t, op)(**kw), FACTOR * quad(n, n, 0) + 60,
            '%s %r on a tree of %d nodes' % (op, kw, n), ob)
    ob.ev('run: tree ' + op)
    ob.key(op, case['links'], kw)


def run_set(case, ob):
    n = case['n']
    S = gimpy.graph.DisjointSet(optimize=case['optimize'])

    def work():
        S.add(list(range(n)))
        for a, b in case['edges']:
            S.union(a, b)
        for i in range(n):
            S.find(i)
    # sets built one by one, found along paths of up to n items
    limited(work, FACTOR * (n + len(case['edges']) + 1) * quad(n, n, 0) + 60,
            'DisjointSet(optimize=%r), %d items, %d unions'
            % (case['optimize'], n, len(case['edges'])), ob)
    ob.ev('run: DisjointSet')
    ob.key('set', case['optimize'], case['edges'])


def run_plain(case, ob):
    g = gen.build(gimpy, case)
    n, m = case['n'], len(case['edges'])
    # a few iterations for each character of the attributes
    limited(g.to_string, 400 * lin(n, m, 0), 'to_string on %d nodes '
            'and %d edges' % (n, m), ob)
    ob.ev('run: to_string')
    for i in case['order']:
        limited(lambda: g.del_node(gen.name(case['scheme'], i)),
                FACTOR * quad(n, m, 0) + 60,
                'del_node on %d nodes and %d edges' % (n, m), ob)
        ob.ev('run: del_node')
    ob.key('plain', case['edges'])


def run(case, ob):
    if case['family'] in ('tree', 'set', 'plain'):
        {'tree': run_tree, 'set': run_set,
         'plain': run_plain}[case['family']](case, ob)
        return
    f = algos.Facts(case)
    n, m = f.n, f.m
    N = [gen.name(case['scheme'], i) for i in range(case['n'])]
    done = []
    for name, args in case['calls']:
        if not algos.BY_NAME[name]['domain'](f):
            continue
        x = extra(name, case, args)
        if x is None:
            continue
        g = gen.build(gimpy, case)
        call = lambda: algos.call(g, N, name, args)
        if 'q' in args:
            kw = algos.kw_search(g, N, args)
            q = getattr(gimpy.graph, args['q'])()
            call = lambda: g.search(N[args['s']], algo=name[7:], q=q, **kw)
            ob.ev('container handed in')
        allowed = FACTOR * int(BOUND[name](n, m, x)) + 60
        used, ended = counted(call, allowed)
        ob.check(ended, '%s %r on %d nodes and %d edges: not finished after '
                 '%d loop iterations', name, args, n, m, allowed)
        ob.ev('run: ' + name)
        ob.ev('iterations counted', used)
        done.append(name)
        if n >= 30:
            ob.ev('run on 30 nodes or more')
        if case['family'] in ('ladder', 'steep', 'zigzag', 'weave'):
            ob.ev(case['family'])
        if any(e[2].get('capacity', 0) >= 10 ** 6 for e in case['edges']):
            ob.ev('huge numbers')
    if done:
        ob.key(case['edges'], case['calls'])
        ob.sample({'family': case['family'], 'nodes': n, 'edges': m,
                   'calls': case['calls'][:3]})


def reduce(case):
    cs = case.get('calls', [])
    for i in range(len(cs)):
        if len(cs) > 1:
            yield dict(case, calls=cs[:i] + cs[i + 1:])
    if case['family'] == 'tree':
        if 'text' not in case:
            yield from trees.shrink(dict(case, keep=[case.get('root', 0)]))
    elif case['family'] != 'set':
        yield from gen.drop_reducer(case)


def ladder(rng, big):
    """a chain of diamonds: 2**k paths"""
    k = rng.randint(2, big // 3)
    out, at = [], 0
    for j in range(k):
        a, b, c = at + 1, at + 2, at + 3
        out += [(at, a), (at, b), (a, c), (b, c)]
        at = c
    return at + 1, out


def steep(rng, big):
    """v0 .. vk; costs under which a wrong order of label correcting
    improves the later nodes exponentially often"""
    k = rng.randint(2, big // 2)
    out, at = [], 0
    cost = {}
    for j in range(k):
        a, c = at + 1, at + 2
        w = 2 ** (k - j)
        cost[at, c] = w
        cost[at, a] = 0
        cost[a, c] = 0
        at = c
    return at + 1, list(cost), cost


def zigzag(rng, big):
    """networks with arcs that tempt to augment one unit at a time"""
    k = rng.randint(1, 3)
    out = {}
    top = rng.choice([100, 10 ** 6, 10 ** 12])
    n = 2 + 2 * k
    for j in range(k):
        a, b = 2 + 2 * j, 3 + 2 * j
        out[0, a] = out[a, 1] = out[0, b] = out[b, 1] = top
        out[a, b] = 1
    return n, list(out), out


def tree_case(rng, tier):
    op = rng.choice(TREE)
    if op in ('printexp', 'postordereval'):
        c = trees.expression(rng, tier, ops=['+', '-', '*'], hi=60)
    else:
        c = trees.case(rng, tier, hi=20, big=60,
                       binary=True if op == 'print_nodes' else None)
        if rng.random() < .4:
            c['root'] = rng.randrange(c['n'])
        c['how'] = rng.choice(['in', 'pre', 'post'])
    return dict(c, family='tree', op=op)


def gen_case(rng, i, tier):
    fam = rng.choice(['ladder', 'steep', 'weave', 'weave', 'zigzag', 'shape', 'shape',
                      'universal', 'network', 'network'] +
                     (['tree'] * 3 + ['set'] if i % 3 == 0 else []))
    if fam == 'tree':
        return tree_case(rng, tier)
    if fam == 'set':
        n = rng.choice([2, 5, 9, 17, 25])
        return {'family': 'set', 'n': n, 'optimize': rng.random() < .5,
                'edges': [[rng.randrange(n), rng.randrange(n)]
                          for _ in range(rng.randrange(2 * n))]
                if rng.random() < .6 else [[k, k + 1] for k in range(n - 1)]}
    directed = rng.random() < .7
    cost = cap = None
    if fam == 'universal':
        c = algos.universal(rng, tier)
    elif fam == 'network':
        c = flow.demand_network(rng, tier, connected=rng.random() < .75,
                                hi=7, big=9, costkinds=['small', 'neg',
                                                        'unit'],
                                capkinds=['unit', 'small'])
        c.pop('kind')
    else:
        if fam == 'weave':
            n = rng.randint(6, 60)
            E = [tuple(e) for e in gen.pairs(rng, n, 'layered',
                                             directed=directed)]
        elif fam == 'ladder':
            n, E = ladder(rng, 60)
        elif fam == 'steep':
            n, E, cost = steep(rng, 60)
        elif fam == 'zigzag':
            n, E, cap = zigzag(rng, 40)
        else:
            acyclic = rng.random() < .3
            n = rng.choice([3, 5, 8, 12, 20, 20, 30, 40])
            E = [tuple(e) for e in gen.pairs(
                rng, n, rng.choice(['dense', 'complete', 'path', 'cycle',
                                    'star', 'grid', 'dag', 'layered',
                                    'medium', 'tree', 'bip'])
                if n <= 20 else rng.choice(gen.THIN + ['medium']),
                directed=directed, acyclic=acyclic,
                loops=0 if acyclic else rng.choice([0, 0, .15]),
                anti=0 if acyclic else rng.choice([0, 0, .3]))]
        fc = gen.costs(rng)
        fu = gen.caps(rng, rng.choice(['unit', 'small', 'wide', 'mixed',
                                       'zero', 'inf']))
        big = rng.choice([1, 1, 10 ** 9])
        es = [[u, v, {'cost': cost[u, v] if cost else fc(),
                      'capacity': cap[u, v] if cap else fu() * big}]
              for (u, v) in E]
        label = list(range(n))
        if rng.random() < .6:
            rng.shuffle(label)
        r = rng.random()
        if r < .4:
            rng.shuffle(es)
        elif r < .6:
            es.reverse()
        es = [[label[u], label[v], a] for (u, v, a) in es]
        c = {'dir': directed, 'n': n, 'scheme': rng.choice(['int', 'str']),
             'order': gen.node_order(rng, n), 'edges': es, 'nattr': {}}
        ends = (label[0], label[1] if fam == 'zigzag' else label[n - 1])
    if rng.random() < .05:
        return dict(c, family='plain')
    f = algos.Facts(c)
    pool = [a for a in algos.A if a['domain'](f) and a['name'] in BOUND and
            (a['name'] != 'get_diameter' or c['n'] < 14)]
    calls = []
    few = rng.sample(pool, min(len(pool), 5))
    if fam == 'network':
        few = [a for a in pool if a['name'] in
               ('find_feasible_flow', 'cycle_canceling')] + few[:2]
    if fam == 'weave':
        # the algorithms with the sharp bounds
        few = [a for a in pool if BOUND[a['name']] is quad]
        few = rng.sample(few, min(len(few), 8))
    for a in few:
        args = a['draw'](rng, f)
        if fam not in ('universal', 'network') and rng.random() < .7:
            for k, v in (('s', ends[0]), ('t', ends[1])):
                if k in args:
                    args[k] = v
        if a['name'] in ('search DFS', 'search BFS') and rng.random() < .5:
            args['q'] = rng.choice(['Stack', 'Queue'])
        calls.append([a['name'], args])
    return dict(c, calls=calls, family=fam)
