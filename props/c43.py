import gimpy
from coinor.blimpy import Stack
from mon import gen, oracle
from props import c05

PID = 'C43'
RULE = ('random directed/undirected graphs of 16 shapes (loops and opposite '
        'arcs included), all digraphs on 3 and graphs on 4 nodes; search '
        'with DFS, forward and reverse, own or supplied stack, with a '
        'component number or without; the predecessor map is judged by a '
        'recognizer of depth-first trees: some order of the children puts '
        'no edge from an earlier to a later branch. Distinct by graph, '
        'request and depth.')
QUICK, THOROUGH = 200000, 6000000
PAST = {'mode': 'any'}
REQUIRED = {'large graph': 50, 'tree judged': 3000, 'undirected': 1000, 'directed': 1000,
            'reverse': 300, 'tree that branches': 500, 'back edge': 1000,
            'edge between branches': 200, 'depth above 5': 300}


def requests(rng, n, k):
    return [{'s': rng.randrange(n), 't': None, 'rev': rng.random() < .3,
             'q': rng.random() < .3, 'comp': rng.choice([None, None, 0, 5])}
            for _ in range(k)]


def fixed(tier):
    import random
    rng = random.Random(43)
    for es in oracle.small_digraphs(3):
        yield {'dir': True, 'n': 3, 'scheme': 'int',
               'edges': [list(e) for e in es], 'ask': requests(rng, 3, 4)}
    for es in oracle.small_graphs(4):
        yield {'dir': False, 'n': 4, 'scheme': 'str',
               'edges': [list(e) for e in es], 'ask': requests(rng, 4, 4)}


def gen_case(rng, i, tier):
    c = gen.graph_case(rng, tier, large=.004, loops=.2)
    c['ask'] = requests(rng, c['n'], rng.randint(1, 3))
    return c


reduce = c05.reduce
warm = c05.warm


def chain(up, x):
    """x and its ancestors, root first"""
    out = [x]
    while x in up:
        x = up[x]
        out.append(x)
    out.reverse()
    return out


def crossing(up, reached, arcs):
    """None if the tree is depth-first for the arcs, else an explanation;
    also the number of arcs between branches and back to an ancestor"""
    line = {x: chain(up, x) for x in reached}
    before = {}      # (sibling to be explored first, sibling later)
    cross = back = 0
    for u, v in arcs:
        a, b = line[u], line[v]
        k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]:
            k += 1
        if k == len(a):
            continue
        if k == len(b):
            back += up.get(u) != v
            continue
        cross += 1
        before.setdefault(b[k], {})[a[k]] = (u, v)
    # the branch that is entered by the arc has to be finished before the one
    # the arc leaves is begun
    state = {}

    def visit(x, trail):
        state[x] = 1
        for y, arc in before.get(x, {}).items():
            if state.get(y) == 1:
                return trail + [arc]
            if y not in state:
                r = visit(y, trail + [arc])
                if r:
                    return r
        state[x] = 2
        return None
    for x in before:
        if x not in state:
            r = visit(x, [])
            if r:
                return r, cross, back
    return None, cross, back


def run(case, ob):
    d, n = case['dir'], case['n']
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(n)]
    idx = {N[i]: i for i in nodes}
    g = gen.build(gimpy, case, warm=warm)
    for a in case['ask']:
        rev = a['rev'] and d
        adj = (oracle.in_adj if rev else oracle.out_adj)(nodes, E, d)
        reached = oracle.reach(adj, a['s'])

        def step(u, v):
            return c05.has_edge(E, d, v, u) if rev else \
                c05.has_edge(E, d, u, v)
        kw = {'algo': 'DFS', 'reverse': a['rev']}
        if a['q']:
            kw['q'] = Stack()
        if a['comp'] is not None:
            kw['component'] = a['comp']
        what = 'search(%r, %r)' % (N[a['s']], kw)
        r = g.search(nm(a['s']), **kw)
        c05.check_tree(ob, r, a['s'], reached, step, N, what)
        up = {idx[k]: idx[v] for k, v in r.items()}
        arcs = [(u, v) for u in reached for v in adj[u] if u != v]
        bad, cross, back = crossing(up, reached, arcs)
        ob.check(bad is None, '%s: no depth-first search has the tree %r: '
                 'the edges %r cannot all lead from later to earlier '
                 'branches', what, r,
                 [(N[u], N[v]) for u, v in bad or []])
        ob.ev('tree judged')
        ob.ev('directed' if d else 'undirected')
        if rev:
            ob.ev('reverse')
        if len(set(up.values())) < len(up):
            ob.ev('tree that branches')
        if cross:
            ob.ev('edge between branches')
        if back:
            ob.ev('back edge')
        deep = max(len(chain(up, x)) for x in reached) - 1
        if deep > 5:
            ob.ev('depth above 5')
        ob.key(d, n, case['scheme'], case['edges'], sorted(a.items(),
               key=str), deep)
    ob.sample({'graph': case['edges'][:10], 'ask': case['ask'][:2]})
