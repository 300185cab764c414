import gimpy
from coinor.blimpy import PriorityQueue, Queue, Stack
from mon import gen, oracle, snap, trees
from props import c05

PID = 'C40'
RULE = ('twin execution: a search, Prim, Kruskal or tree traversal with its '
        'own container and, on an equal graph, with a container of the same '
        'kind handed in (recording subclasses, some of which are false while '
        'empty); result, markings and printed order compared, the container '
        'handed in must have been used and be empty after a search without '
        'destination; the set handed to Kruskal must hold the components. '
        'Searches with a container of another kind must give a search tree '
        'with the depths it records. Distinct by graph and request.')
QUICK, THOROUGH = 180000, 3600000
KIND = {'DFS': 'Stack', 'BFS': 'Queue', 'UnweightedSPT': 'Queue',
        'Dijkstra': 'PriorityQueue', 'Prim': 'PriorityQueue'}
REQUIRED = dict({'twin ' + a: 400 for a in KIND},
                **{'twin mst prim': 600, 'kruskal set': 600,
                   'traverse': 600, 'emptied': 3000, 'destination': 800,
                   'other kind': 800, 'DFS with a priority queue': 200,
                   'false while empty': 1500, 'reverse': 300,
                   'several components': 300})


def container(kind, false_when_empty):
    """a recording container of the kind"""
    base = {'Stack': Stack, 'Queue': Queue,
            'PriorityQueue': PriorityQueue}[kind]

    class Recorded(base):
        used = 0

        def push(self, *a, **k):
            self.used += 1
            return base.push(self, *a, **k)

        if kind == 'Queue':
            def enqueue(self, *a, **k):
                self.used += 1
                return base.enqueue(self, *a, **k)

        if false_when_empty:
            def __len__(self):
                return 0 if self.isEmpty() else 1

    return Recorded()


class Components(gimpy.DisjointSet):
    """a caller's disjoint set; false while it holds nothing"""

    def __len__(self):
        return len(self.get_node_list())


def gen_case(rng, i, tier):
    r = rng.random()
    if r < .12:
        t = trees.case(rng, tier)
        return {'k': 'tree', 'tree': t, 'kind': rng.choice(['Stack', 'Queue']),
                'pri': rng.choice('LR'), 'root': rng.random(),
                'false': rng.random() < .5}
    und = rng.random() < .6
    c = gen.graph_case(rng, tier, directed=not und, loops=.2, large=.001,
                       attrs=gen.cost_attrs(['ties', 'small', 'wide', 'zero',
                                             'unit', 'dyadic']))
    ask = []
    for _ in range(rng.randint(1, 3)):
        m = rng.choice(list(KIND) + ['mst', 'kruskal', 'mst', 'kruskal']
                       if und else [a for a in KIND if a != 'Prim'])
        q = KIND.get(m)
        if q and m in ('DFS', 'BFS', 'UnweightedSPT') and rng.random() < .4:
            q = rng.choice(['Stack', 'Queue', 'PriorityQueue'])
        ask.append({'m': m, 's': rng.randrange(c['n']), 'q': q,
                    't': rng.randrange(c['n']) if rng.random() < .3 else None,
                    'rev': not und and rng.random() < .4,
                    'comp': rng.choice([None, None, None, 1, 4]),
                    'opt': rng.random() < .5, 'false': rng.random() < .5})
    return {'k': 'graph', 'g': c, 'ask': ask}


def reduce(case):
    if case['k'] == 'tree':
        for t in trees.shrink(case['tree']):
            yield dict(case, tree=t)
        return
    ask = case['ask']
    for i in range(len(ask)):
        if len(ask) > 1:
            yield dict(case, ask=ask[:i] + ask[i + 1:])
    hi = max(x for a in ask for x in (a['s'], a['t'] or 0))
    for c in gen.shrink_graph(case['g']):
        if c['n'] > hi:
            yield dict(case, g=c)


def run(case, ob):
    if case['k'] == 'tree':
        return run_tree(case, ob)
    c = case['g']
    d, n = c['dir'], c['n']
    nodes, E = gen.plain(c)
    nm = gen.namer(c['scheme'])
    N = [nm(i) for i in nodes]
    idx = {N[i]: i for i in nodes}
    g, h = gen.build(gimpy, c), gen.build(gimpy, c)
    for a in case['ask']:
        m, s = a['m'], a['s']
        if a['false']:
            ob.ev('false while empty')
        if m == 'kruskal':
            cs = Components(optimize=a['opt']) if a['false'] else \
                gimpy.DisjointSet(optimize=a['opt'])
            what = 'minimum_spanning_tree_kruskal(components=%r)' % (
                'optimize' if a['opt'] else 'plain')
            r1 = g.minimum_spanning_tree_kruskal()
            r2 = h.minimum_spanning_tree_kruskal(components=cs)
            comp = oracle.undirected_components(nodes, E)
            ob.eq(set(cs.get_node_list()), set(N), what + ': items of the set')
            rep = {}
            for i in nodes:
                rep.setdefault(comp[i], set()).add(cs.find(nm(i)))
            ob.check(all(len(x) == 1 for x in rep.values()) and
                     len(set().union(*rep.values())) == len(rep),
                     '%s: representatives %r of the components', what, rep)
            if len(rep) > 1:
                ob.ev('several components')
            ob.ev('kruskal set')
        elif m == 'mst':
            q = container('PriorityQueue', a['false'])
            what = 'minimum_spanning_tree_prim(%r, q)' % (N[s],)
            r1 = g.minimum_spanning_tree_prim(nm(s))
            r2 = h.minimum_spanning_tree_prim(nm(s), q=q)
            ob.check(q.used > 0, '%s: the container was not used', what)
            ob.check(q.isEmpty(), '%s: the container was not emptied', what)
            ob.ev('emptied')
            ob.ev('twin mst prim')
        else:
            kw = {'algo': m, 'reverse': a['rev']}
            if a['t'] is not None:
                kw['destination'] = nm(a['t'])
                ob.ev('destination')
            if a['comp'] is not None:
                kw['component'] = a['comp']
            if a['rev']:
                ob.ev('reverse')
            q = container(a['q'], a['false'])
            what = 'search(%r, %r) with a %s' % (N[s], kw, a['q'])
            r2 = h.search(nm(s), q=q, **kw)
            ob.check(q.used > 0, '%s: the container was not used', what)
            if a['t'] is None:
                ob.check(q.isEmpty(), '%s: the container was not emptied',
                         what)
                ob.ev('emptied')
            if a['q'] != KIND[m]:
                ob.ev('other kind')
                if m == 'DFS' and a['q'] == 'PriorityQueue':
                    ob.ev('DFS with a priority queue')
                other_kind(ob, c, h, a, r2, N, idx, E, what)
                h = gen.build(gimpy, c)
                g = gen.build(gimpy, c)
                continue
            r1 = g.search(nm(s), **kw)
            ob.ev('twin ' + m)
        ob.check(r1 == r2, '%s: got %r, without a container %r', what, r2, r1)
        x = snap.diff(snap.full(g), snap.full(h))
        ob.check(x is None, '%s: the graph differs: %s', what, x)
        ob.key(d, n, c['scheme'], c['edges'], sorted(a.items(), key=str))
    ob.sample({'graph': c['edges'][:8], 'ask': case['ask']})


def other_kind(ob, c, h, a, r, N, idx, E, what):
    d = c['dir']
    rev = a['rev'] and d
    nodes = range(c['n'])
    adj = (oracle.in_adj if rev else oracle.out_adj)(list(nodes), E, d)
    reached = oracle.reach(adj, a['s'])

    def step(u, v):
        return c05.has_edge(E, d, v, u) if rev else c05.has_edge(E, d, u, v)
    if a['t'] is None:
        c05.check_tree(ob, r, a['s'], reached, step, N, what)
        depth = {N[a['s']]: 0}
        while len(depth) < len(reached):
            for k, p in r.items():
                if p in depth:
                    depth[k] = depth[p] + 1
        if a['m'] == 'DFS':
            for i in nodes:
                ob.eq(h.get_node_attr(N[i], 'distance'), depth.get(N[i]),
                      '%s: depth recorded for %r' % (what, N[i]))
        else:
            for k in depth:
                ob.eq(h.get_node_attr(k, 'distance'), depth[k],
                      '%s: distance recorded for %r' % (what, k))
        if a['m'] != 'DFS' and a['q'] != 'Stack':
            # first in first out, or by distance: shortest paths
            hops = oracle.hop_distances(adj, a['s'])
            for k in depth:
                ob.eq(depth[k], hops[idx[k]], '%s: distance of %r' % (what, k))
    elif a['t'] in reached:
        c05.check_path(ob, r, a['s'], a['t'], step, N, what)
    else:
        ob.check(r is None, '%s: %r although there is no path', what, r)


class Trace(object):
    """records what a tree shows"""

    def __init__(self, t):
        self.seen = []
        t.display = self.display

    def display(self, highlight=None, *a, **k):
        for x in highlight or []:
            self.seen.append(getattr(x, 'name', x))


def run_tree(case, ob):
    tc = case['tree']
    kw = {'priority': case['pri']} if tc['binary'] else {}
    out = []
    have = [0] + [x[0] for x in tc['links']]
    start = have[int(2 * case['root'] * len(have))] if case['root'] < .5 \
        else None
    nm = gen.namer(tc['scheme'])
    for given in (False, True):
        t = trees.build(gimpy, tc)
        t.set_display_mode('file')
        tr = Trace(t)
        if start is not None:
            kw['root'] = nm(start)
        if given:
            q = container(case['kind'], case['false'])
            t.traverse(q=q, **kw)
            ob.check(q.used > 0 and q.isEmpty(), 'traverse(%r) with a %s: '
                     'the container was not used and emptied', kw,
                     case['kind'])
            ob.ev('emptied')
        elif case['kind'] == 'Stack':
            t.traverse(**kw)
        else:
            t.bfs(**kw)
        out.append(tr.seen)
    ob.ev('traverse')
    if case['false']:
        ob.ev('false while empty')
    ob.eq(out[1], out[0], 'nodes visited by traverse(%r, %s()) and without '
          'the argument' % (kw, case['kind']))
    ob.check(len(out[0]) > 0, 'traverse visited nothing')
    ob.key(tc, case['kind'], case['pri'], start)
    ob.sample({'tree': tc, 'kind': case['kind'], 'visited': len(out[0])})
