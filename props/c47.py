import gimpy
from mon import flow, gen, oracle, snap

PID = 'C47'
RULE = ('connected networks carrying a random flow, on which the building '
        'blocks of the flow algorithms are called one by one: solution '
        'graph, cycle search, cycle capacity, augmentation, connection, tree '
        'search, potentials, entering and leaving arc, pivot, redrawing; '
        'random digraphs for cycle and tree search, predecessor maps with '
        'and without a cycle. Each result is compared with its documented '
        'meaning. Distinct by network, flow and choices.')
QUICK, THOROUGH = 60000, 1500000
REQUIRED = {'cycle found': 3000, 'no cycle': 3000, 'amount to break': 800,
            'augmented': 800, 'arc added': 3000, 'connected already': 3000,
            'tree found': 5000, 'cycles broken for the tree': 1000,
            'indexes checked': 8000, 'potentials checked': 8000,
            'optimal': 1000, 'not optimal': 2000, 'entering dantzig': 800,
            'entering first_eligible': 800, 'pivot': 2000,
            'degenerate pivot': 100, 'entering at capacity': 300,
            'redrawn': 3000, 'marked': 3000, 'refused to mark': 300,
            'capacity of a cycle': 3000, 'predecessors with a cycle': 1000,
            'predecessors without a cycle': 1000, 'cycle off the root': 500,
            'two trees searched': 500}


def gen_case(rng, i, tier):
    r = rng.random()
    if r < .15:
        # predecessor map: a forest, or one cycle with a way from j to itself
        n = rng.randint(1, 9)
        return {'k': 'pred', 'n': n, 'scheme': rng.choice(gen.SCHEMES),
                'perm': gen.node_order(rng, n),
                'up': [rng.randrange(x) if x else None for x in range(n)],
                'loop': rng.randint(0, n) if rng.random() < .6 else 0}
    if r < .3:
        k = rng.randint(1, 7)
        return {'k': 'cycle', 'n': k, 'scheme': rng.choice(gen.SCHEMES),
                'cap': [rng.choice([0, 1, 2, 5, 9, 10000, 30000, 2.5])
                        for _ in range(k)],
                'back': [rng.randint(0, 9) if rng.random() < .4 else None
                         for _ in range(k)], 'turn': rng.randrange(k)}
    if r < .5:
        c = gen.graph_case(rng, tier, directed=True, anti=0, loops=0,
                           large=.002)
        return {'k': 'search', 'g': c, 's': rng.randrange(c['n']),
                'nr': rng.choice([1, 7, 'a'])}
    c = flow.demand_network(rng, tier, True, capkinds=[
        'unit', 'small', 'small', 'zero', 'wide', 'mixed'], hi=8, big=14, large=.001)
    kind = rng.choice(['any', 'any', 'bounds', 'inside', 'zero'])
    for e in c['edges']:
        cap = e[2]['capacity']
        w = kind if kind != 'any' else rng.choice(['bounds', 'inside'])
        e[2]['flow'] = 0 if kind == 'zero' else rng.choice([0, cap]) \
            if w == 'bounds' else flow.part(rng, cap)
    return {'k': 'net', 'g': c, 'root': rng.randrange(c['n']),
            'pivot': rng.choice(['dantzig', 'first_eligible']),
            'turn': rng.randrange(20), 'cut': rng.randrange(10 ** 6)}


def reduce(case):
    if case['k'] == 'search':
        for c in gen.shrink_graph(case['g']):
            if c['n'] > case['s']:
                yield dict(case, g=c)
    elif case['k'] == 'net':
        for c in flow.shrink(case['g']):
            if c['n'] > case['root'] and oracle.is_connected(
                    range(c['n']), [tuple(e[:2]) for e in c['edges']]):
                yield dict(case, g=c)


def run(case, ob):
    {'pred': predecessors, 'cycle': capacity, 'search': search,
     'net': network}[case['k']](case, ob)
    ob.key({k: v for k, v in case.items()})


# --- predecessor maps ---------------------------------------------------------

def predecessors(case, ob):
    n = case['n']
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in case['perm']]
    g = gimpy.Graph(type=gen.gtype(True))
    for x in N:
        g.add_node(x)
    pred = {N[i]: None if p is None else nm(case['perm'][p])
            for i, p in enumerate(case['up'])}
    j = N[n - 1]
    k = min(case['loop'], n)
    if k:
        # the last k nodes are a cycle
        ring = list(range(n - k, n))
        for a, b in zip(ring, ring[1:] + ring[:1]):
            pred[N[b]] = nm(case['perm'][a])
    had = dict(pred)
    r = g.label_correcting_check_cycle(j, pred)
    what = 'label_correcting_check_cycle(%r, %r)' % (j, had)
    ob.eq(pred, had, what + ': predecessors afterwards')
    if not k:
        ob.check(r is None, '%s: got %r, there is no cycle', what, r)
        ob.ev('predecessors without a cycle')
        return
    ob.check(isinstance(r, list) and len(r) == k and set(r) ==
             {N[i] for i in ring} and all(had[b] == a for a, b in
                                          zip(r, r[1:] + r[:1])),
             '%s: got %r', what, r)
    r2 = g.label_correcting_get_cycle(j, pred)
    ob.check(r2 == r, 'label_correcting_get_cycle(%r, %r): got %r', j, had,
             r2)
    ob.ev('predecessors with a cycle')


def capacity(case, ob):
    """find_cycle_capacity and augment_cycle along arcs of a cycle"""
    k = case['n']
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(k)]
    g = gimpy.Graph(type=gen.gtype(True))
    arcs = {}
    for i in range(k):
        e = (i, (i + 1) % k)
        arcs[e] = case['cap'][i]
    for i in range(k):
        # another arc back must not matter
        e = ((i + 1) % k, i)
        if case['back'][i] is not None and e not in arcs:
            arcs[e] = case['back'][i]
    for (u, v), c in arcs.items():
        g.add_edge(N[u], N[v], capacity=c, flow=1)
    t = case['turn']
    cyc = [nm((i + t) % k) for i in range(k)]
    r = g.find_cycle_capacity(cyc)
    ob.eq(r, min(case['cap']), 'find_cycle_capacity(%r) with capacities %r' % (
        cyc, arcs))
    g.augment_cycle(3, cyc)
    for (u, v) in arcs:
        ob.eq(g.get_edge_attr(N[u], N[v], 'flow'),
              4 if v == (u + 1) % k and (u, v) in list(arcs)[:k] else 1,
              'flow of %r after augment_cycle(3, %r)' % ((N[u], N[v]), cyc))
    ob.ev('capacity of a cycle')


# --- searches -----------------------------------------------------------------

def is_cycle(cyc, E, idx):
    return isinstance(cyc, list) and len(cyc) > 2 and \
        len(set(cyc)) == len(cyc) and all(
            x in idx for x in cyc) and all(
            (idx[a], idx[b]) in E or (idx[b], idx[a]) in E
            for a, b in zip(cyc, cyc[1:] + cyc[:1]))


def search(case, ob):
    c = case['g']
    nodes, E = gen.plain(c)
    nm = gen.namer(c['scheme'])
    N = [nm(i) for i in nodes]
    idx = {N[i]: i for i in nodes}
    g = gen.build(gimpy, c)
    find_cycle(ob, g, nodes, E, idx)
    pred = g.simplex_search(nm(case['s']), case['nr'])
    indexes(ob, g, g, nodes, E, N, idx, case['s'], case['nr'], pred)


def find_cycle(ob, h, nodes, E, idx):
    r = h.simplex_find_cycle()
    if oracle.is_forest(nodes, list(E)):
        ob.check(r is None, 'simplex_find_cycle on arcs %r without a cycle: '
                 '%r', list(E), r)
        ob.ev('no cycle')
        return None
    ob.check(is_cycle(r, E, idx), 'simplex_find_cycle on arcs %r: %r is no '
             'cycle', list(E), r)
    if h.get_node_list()[0] not in r:
        ob.ev('cycle off the root')
    ob.ev('cycle found')
    return r


def indexes(ob, g, t, nodes, E, N, idx, root, nr, pred):
    """what simplex_search returns and stores"""
    both = oracle.out_adj(nodes, E, False)
    comp = oracle.reach(both, root)
    what = 'simplex_search(%r, %r)' % (N[root], nr)
    ob.check(isinstance(pred, dict) and set(pred) == {N[i] for i in comp},
             '%s: predecessors %r', what, pred)
    ob.check(pred[N[root]] is None, '%s: predecessor of the root', what)
    for x, p in pred.items():
        if x == N[root]:
            continue
        ob.check(p in idx and idx[p] in both[idx[x]], '%s: predecessor %r of '
                 '%r', what, p, x)
    for i in nodes:
        ob.eq(t.get_node_attr(N[i], 'component'), nr if i in comp else None,
              '%s: component of %r' % (what, N[i]))
    arcs = [e for e in E if e[0] in comp]
    if len(arcs) != len(comp) - 1:
        return
    # a tree: depths and the thread, a preorder that returns to the root
    depth = {N[root]: 0}
    while len(depth) < len(comp):
        n = len(depth)
        for x, p in pred.items():
            if p in depth and x not in depth:
                depth[x] = depth[p] + 1
        ob.check(len(depth) > n, '%s: predecessors %r do not lead to the '
                 'root', what, pred)
    seq, x = [], N[root]
    for _ in comp:
        ob.eq(t.get_node_attr(x, 'pred'), pred[x], '%s: pred of %r' % (what,
                                                                     x))
        ob.eq(t.get_node_attr(x, 'depth'), depth[x], '%s: depth of %r' % (
            what, x))
        seq.append(x)
        x = t.get_node_attr(x, 'thread')
        ob.check(x in idx, '%s: thread leads to %r', what, x)
    ob.check(x == N[root] and len(set(seq)) == len(comp), '%s: the thread '
             'visits %r', what, seq)
    for a, b in zip(seq, seq[1:]):
        while a is not None and a != pred[b]:
            a = pred[a]
        ob.check(a is not None, '%s: the thread %r is no preorder: %r comes '
                 'after another branch', what, seq, b)
    if len(comp) < len(nodes):
        ob.ev('two trees searched')
    ob.ev('indexes checked')


# --- the parts of the network simplex -------------------------------------------

class Net(object):
    def __init__(self, case, ob):
        c = case['g']
        self.nodes, self.E = gen.plain(c)
        self.nm = gen.namer(c['scheme'])
        self.N = [self.nm(i) for i in self.nodes]
        self.idx = {self.N[i]: i for i in self.nodes}
        self.cap = {e: a['capacity'] for e, a in self.E.items()}
        self.cost = {e: a['cost'] for e, a in self.E.items()}
        self.g = gen.build(gimpy, c)
        self.ob = ob
        self.flow0 = {e: a['flow'] for e, a in self.E.items()}
        self.bal = oracle.flow_balance(self.nodes, self.flow0)
        self.whole = all(isinstance(x, int) for d in
                         (self.cap, self.cost, self.flow0)
                         for x in d.values())

    def flow(self):
        return flow.read(self.g, self.N, self.E)

    def arcs(self, h):
        return {(self.idx[u], self.idx[v]) for u, v in h.get_edge_list()}

    def legal(self, what):
        """bounds and the balances of the beginning"""
        f = self.flow()
        flow.check_bounds(self.ob, f, self.cap, self.N, what)
        self.ob.eq(oracle.flow_balance(self.nodes, f), self.bal,
                   what + ': outflow - inflow')
        return f

    def residual(self, f, i, j):
        """how much more can go from i to j"""
        if (i, j) in self.E:
            return self.cap[i, j] - f[i, j]
        return f[j, i]

    def spanning(self, t, what):
        arcs = self.arcs(t)
        self.ob.check(set(t.get_node_list()) == set(self.N) and
                      arcs <= set(self.E) and
                      len(arcs) == len(self.nodes) - 1 and
                      oracle.is_forest(self.nodes, sorted(arcs)),
                      '%s: %r is no spanning tree', what, sorted(arcs))
        return arcs

    def names(self, e):
        return self.nm(e[0]), self.nm(e[1])

    def reduced(self, e):
        pot = [self.g.get_node_attr(self.N[x], 'potential') for x in e]
        return self.cost[e] - pot[0] + pot[1]

    def violated(self, f, tree):
        out = {}
        for e in self.E:
            if e in tree or not self.cap[e]:
                continue
            r = self.reduced(e)
            if f[e] == 0 and r < 0 or f[e] == self.cap[e] and r > 0:
                out[e] = abs(r)
        return out


def network(case, ob):
    w = Net(case, ob)
    g, nodes, E = w.g, w.nodes, w.E
    f = w.flow0
    # cycles of the arcs within bounds
    h = g.get_simplex_solution_graph()
    inside = {e for e in E if 0 < f[e] < w.cap[e]}
    ob.eq(w.arcs(h), inside, 'arcs of the solution graph')
    cyc = find_cycle(ob, h, nodes, inside, w.idx)
    if cyc is not None:
        t = case['turn'] % len(cyc)
        cyc = cyc[t:] + cyc[:t]
        if case['turn'] % 2:
            cyc.reverse()
        way = [(w.idx[a], w.idx[b]) for a, b in zip(cyc, cyc[1:] + cyc[:1])]
        most = min(w.residual(f, i, j) for i, j in way)
        r = g.simplex_augment_cycle(list(cyc))
        ob.eq(w.flow(), f, 'flow after simplex_augment_cycle')
        ob.eq(r, most, 'simplex_augment_cycle(%r)' % cyc)
        ob.ev('amount to break')
        g.augment_cycle(r, list(cyc))
        want = dict(f)
        for i, j in way:
            if (i, j) in E:
                want[i, j] += r
            else:
                want[j, i] -= r
        ob.eq(w.flow(), want, 'flow after augment_cycle(%r, %r)' % (r, cyc))
        ob.ev('augmented')
    connect(ob, case, w)
    # the spanning tree solution
    t = g.simplex_find_tree()
    what = 'simplex_find_tree'
    if cyc is not None:
        ob.ev('cycles broken for the tree')
    f = w.legal(what)
    tree = w.spanning(t, what)
    left = [e for e in E if 0 < f[e] < w.cap[e] and e not in tree]
    ob.check(not left, '%s: arcs %r between their bounds are outside', what,
             left)
    ob.ev('tree found')
    labels(ob, w, t, f, what, E)
    pivots(ob, case, w, t, tree, f)
    ob.sample({'network': case['g']['edges'][:6]})


def labels(ob, w, t, f, what, arcs):
    for e in arcs:
        u, v = w.names(e)
        lab = w.g.get_edge_attr(u, v, 'label')
        ob.check(flow.states(lab, f[e], w.cap[e], w.cost[e]),
                 '%s: label of %r with flow %r of %r at cost %r is %r', what,
                 (u, v), f[e], w.cap[e], w.cost[e], lab)
    for u, v in t.get_edge_list():
        e = (w.idx[u], w.idx[v])
        ob.eq([t.get_edge_attr(u, v, a) for a in
               ('flow', 'capacity', 'cost')], [f[e], w.cap[e], w.cost[e]],
              '%s: data on tree arc %r' % (what, (u, v)))
        lab = t.get_edge_attr(u, v, 'label')
        ob.check(flow.states(lab, f[e], w.cap[e], w.cost[e]),
                 '%s: label of tree arc %r is %r', what, (u, v), lab)


def connect(ob, case, w):
    """a forest of arcs is completed arc by arc"""
    import random
    rng = random.Random(case['cut'])
    es = list(w.E)
    rng.shuffle(es)
    part = []
    for e in es[:rng.randint(0, len(es))]:
        if oracle.is_forest(w.nodes, part + [e]):
            part.append(e)
    s = gimpy.Graph(type=gen.gtype(True))
    for i in w.g.get_node_list():
        s.add_node(i)
    for e in part:
        s.add_edge(*w.names(e))
    have = set(part)
    before = snap.structure(w.g), w.flow()
    while True:
        missing = len(w.nodes) - 1 - len(have)
        r = w.g.simplex_connect(s)
        now = w.arcs(s)
        what = 'simplex_connect on arcs %r' % sorted(have)
        ob.check(bool(r) == (missing > 0), '%s returned %r', what, r)
        ob.check(have <= now and len(now - have) == (missing > 0) and
                 now <= set(w.E) and oracle.is_forest(w.nodes, sorted(now)),
                 '%s: added %r', what, now - have)
        if not missing:
            ob.ev('connected already')
            break
        ob.ev('arc added')
        have = now
    ob.eq((snap.structure(w.g), w.flow()), before,
          'the network after simplex_connect')


def pivots(ob, case, w, t, tree, f):
    g, root = w.g, case['root']
    for step in range(12):
        pred = t.simplex_search(w.nm(root), 1)
        indexes(ob, g, t, w.nodes, {e: {} for e in tree}, w.N, w.idx, root, 1,
                pred)
        g.simplex_compute_potentials(t, w.nm(root))
        what = 'simplex_compute_potentials with root %r' % (w.N[root],)
        ob.eq(g.get_node_attr(w.N[root], 'potential'), 0, what)
        for e in tree:
            ob.eq(w.reduced(e), 0, '%s: reduced cost of tree arc %r' % (
                what, w.names(e)))
        ob.ev('potentials checked')
        redraw(ob, w, t, root)
        g.simplex_mark_st_arcs(t)
        for e in w.E:
            u, v = w.names(e)
            ob.eq(g.get_edge_attr(u, v, 'color'),
                  'blue' if e in tree else 'black',
                  'color of %r after simplex_mark_st_arcs' % ((u, v),))
        ob.ev('marked')
        if not step:
            refuse(ob, w, t, tree, f)
        bad = w.violated(f, tree)
        r = g.simplex_optimal(t)
        ob.eq(r, not bad, 'simplex_optimal with violating arcs %r' % [
            w.names(e) for e in bad])
        if not bad:
            ob.ev('optimal')
            return
        ob.ev('not optimal')
        k, l = e = enter(ob, case, w, t, bad)
        f, tree = exchange(ob, w, t, tree, f, k, l)


def enter(ob, case, w, t, bad):
    p = case['pivot']
    a = w.g.simplex_select_entering_arc(t, p)
    what = 'simplex_select_entering_arc(%r)' % p
    e = tuple(w.idx[x] for x in a)
    ob.check(e in bad, '%s: %r is not eligible, these are: %r', what, a,
             [w.names(x) for x in bad])
    if p == 'dantzig':
        ob.eq(bad[e], max(bad.values()), what + ': violation of the arc')
    with ob.raises('simplex_select_entering_arc with an unknown rule'):
        w.g.simplex_select_entering_arc(t, 'none')
    ob.ev('entering ' + p)
    return e


def exchange(ob, w, t, tree, f, k, l):
    g = w.g
    K, L = w.names((k, l))
    cyc = g.simplex_identify_cycle(t, K, L)
    what = 'simplex_identify_cycle for %r' % ((K, L),)
    ok = {(w.idx[a], w.idx[b]) for a, b in zip(cyc, cyc[1:] + cyc[:1])}
    ok |= {(b, a) for a, b in ok}
    ob.check(is_cycle(cyc, set(tree) | {(k, l)}, w.idx) and (k, l) in ok,
             '%s: %r', what, cyc)
    up = f[k, l] == 0
    if not up:
        ob.ev('entering at capacity')
    (p, q), most, cyc = g.simplex_determine_leaving_arc(t, K, L)
    what = 'simplex_determine_leaving_arc for %r' % ((K, L),)
    way = [(w.idx[a], w.idx[b]) for a, b in zip(cyc, cyc[1:] + cyc[:1])]
    ob.check(is_cycle(cyc, set(tree) | {(k, l)}, w.idx) and
             ((k, l) if up else (l, k)) in way, '%s: cycle %r', what, cyc)
    res = {((i, j) if (i, j) in w.E else (j, i)): w.residual(f, i, j)
           for i, j in way}
    ob.eq(most, min(res.values()), what + ': capacity of the cycle %r' % cyc)
    out = (w.idx[p], w.idx[q])
    ob.check(out in res and res[out] == most, '%s: arc %r is not blocking',
             what, (p, q))
    ob.eq(w.flow(), f, what + ': flow')
    g.simplex_mark_entering_arc(K, L)
    g.simplex_mark_leaving_arc(p, q)
    ob.eq(g.get_edge_attr(p, q, 'color'), 'red', 'color of the leaving arc')
    if out != (k, l):
        ob.eq(g.get_edge_attr(K, L, 'color'), 'green',
              'color of the entering arc')
    g.simplex_remove_arc(t, p, q, most, list(cyc))
    what = 'simplex_remove_arc(%r) for %r' % ((p, q), (K, L))
    want = dict(f)
    for i, j in way:
        if (i, j) in w.E:
            want[i, j] += most
        else:
            want[j, i] -= most
    ob.eq(w.flow(), want, what + ': flow')
    f = w.legal(what)
    new = w.spanning(t, what)
    ob.eq(new, (set(tree) | {(k, l)}) - {out}, what + ': tree')
    labels(ob, w, t, f, what, set(new) | {out})
    ob.ev('pivot')
    if not most:
        ob.ev('degenerate pivot')
    return f, new


def redraw(ob, w, t, root):
    had = snap.full(t)
    r = t.simplex_redraw('off', w.nm(root))
    what = 'simplex_redraw from %r' % (w.N[root],)
    ob.check(r is not t, '%s returned the tree itself', what)
    d = snap.diff(had, snap.full(t))
    ob.check(d is None, '%s changed the tree: %s', what, d)
    ob.eq(r.graph_type, t.graph_type, what + ': graph kind')
    ob.eq(set(r.get_node_list()), set(w.N), what + ': nodes')
    ob.eq(w.arcs(r), w.arcs(t), what + ': arcs')
    for x in w.N:
        for a in ('pred', 'thread', 'depth'):
            ob.eq(r.get_node_attr(x, a), t.get_node_attr(x, a),
                  '%s: %s of %r' % (what, a, x))
    for u, v in t.get_edge_list():
        for a in ('flow', 'capacity', 'cost', 'label'):
            ob.eq(r.get_edge_attr(u, v, a), t.get_edge_attr(u, v, a),
                  '%s: %s of %r' % (what, a, (u, v)))
    ob.ev('redrawn')


def refuse(ob, w, t, tree, f):
    """an arc between its bounds outside the tree is an error"""
    for e in w.E:
        if e not in tree and w.cap[e] > 1:
            u, v = w.names(e)
            w.g.set_edge_attr(u, v, 'flow', 1)
            with ob.raises('simplex_mark_st_arcs with flow 1 on the arc %r '
                           'outside the tree' % ((u, v),)):
                w.g.simplex_mark_st_arcs(t)
            w.g.set_edge_attr(u, v, 'flow', f[e])
            ob.ev('refused to mark')
            return
