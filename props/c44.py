import gimpy
from mon import flow, frames, gen, oracle
from props import c41

PID = 'C44'
RULE = ('searches (five algorithms, forward and reverse, with destination or '
        'component), Prim, Kruskal, dfs, hamiltonian, label_components and '
        'augmenting path runs with the display on; at every display call the '
        'colors and labels are read and judged: what is marked finished '
        'stays finished, the marked edges are the tree, path or forest of '
        'the nodes marked, distances and costs shown are final and right, '
        'the next node or edge is one the algorithm may take. Distinct by '
        'graph and request.')
QUICK, THOROUGH = 150000, 3000000
SEARCH = ['DFS', 'BFS', 'UnweightedSPT', 'Dijkstra', 'Prim']
REQUIRED = dict({'frames of ' + a: 3000 for a in SEARCH + [
    'mst prim', 'kruskal', 'dfs', 'hamiltonian', 'components', 'max_flow']},
    **{'node taken': 10000, 'edge taken': 2000, 'edge refused': 500,
       'backtracked': 300, 'set shown': 2000, 'found red first': 8000,
       'several components shown': 500, 'search state shown': 2000,
       'reverse': 300, 'destination': 300, 'arc state shown': 50000,
       'augmenting path shown': 2000, 'shortest augmenting path': 800,
       'part of the flow of a full arc taken back': 300})


def gen_case(rng, i, tier):
    r = rng.random()
    if r < .06:
        c = (flow.crossing if rng.random() < .6 else flow.matching)(rng, tier)
        s, t = c.pop('st')
        c['ask'] = [{'m': 'max_flow', 's': s, 't': t, 'rev': False,
                     'algo': rng.choice(['DFS', 'BFS'])}]
        return c
    if r < .2:
        c = gen.graph_case(rng, tier, directed=True, hi=7, big=10, anti=0,
                           large=.001)
        f = gen.caps(rng)
        c['edges'] = [e + [{'capacity': f()}] for e in c['edges']]
        if c['n'] < 2:
            c['n'], c['order'] = 2, [0, 1]
        s, t = rng.sample(range(c['n']), 2)
        c['ask'] = [{'m': 'max_flow', 's': s, 't': t, 'rev': False,
                     'algo': rng.choice(['DFS', 'BFS'])}]
        return c
    c = gen.graph_case(rng, tier, loops=.2, hi=8, big=12, large=.001,
                       attrs=gen.cost_attrs(['ties', 'small', 'wide', 'zero',
                                             'unit', 'dyadic']))
    ask = []
    for k in range(rng.randint(1, 2)):
        ms = list(SEARCH)
        if not c['dir']:
            ms += ['mst prim', 'components']
        if not k:
            ms += ['dfs'] + ['hamiltonian'] * (c['n'] < 7)
            if not c['dir']:
                ms += ['kruskal', 'kruskal']
        m = rng.choice(ms)
        if m == 'Prim' and c['dir']:
            m = 'Dijkstra'
        ask.append({'m': m, 's': rng.randrange(c['n']),
                    't': rng.randrange(c['n']) if
                    m in SEARCH + ['hamiltonian'] and rng.random() < .25
                    else None,
                    'comp': rng.choice([None, None, None, 2])
                    if m in ('DFS', 'BFS') else None,
                    'rev': c['dir'] and m in SEARCH and rng.random() < .3})
    c['ask'] = ask
    return c


def reduce(case):
    ask = case['ask']
    for i in range(len(ask)):
        if len(ask) > 1 and (i or ask[1]['m'] not in c41.KEEP):
            yield dict(case, ask=ask[:i] + ask[i + 1:])
    hi = max(x for a in ask for x in (a['s'], a['t'] or 0))
    for c in gen.shrink_graph(case):
        if c['n'] > hi and (ask[0]['m'] != 'max_flow' or
                            not any(e[0] == e[1] for e in c['edges'])):
            yield c


class Screen(object):
    """one frame, in node numbers"""

    def __init__(self, w):
        g = w.g
        self.col = {i: g.get_node_attr(w.N[i], 'color') for i in w.nodes}
        self.lab = {i: g.get_node_attr(w.N[i], 'label') for i in w.nodes}
        self.ecol = {(w.idx[u], w.idx[v]): x.get('color')
                     for (u, v), x in g.edge_attr.items()}

    def nodes(self, color):
        return {i for i, c in self.col.items() if c == color}

    def edges(self, color):
        return {e for e, c in self.ecol.items() if c == color}


class Watch(object):
    """base of the frame monitors"""

    def __init__(self, ob, case, a, g, nodes, E, N, idx, d):
        self.ob, self.a, self.g = ob, a, g
        self.nodes, self.E, self.N, self.idx, self.d = nodes, E, N, idx, d
        self.rev = a['rev']
        self.adj = (oracle.in_adj if self.rev else oracle.out_adj)(
            nodes, E, d)
        self.s = a['s']
        self.count = 0
        self.m = a['m']
        self.start()

    def start(self):
        pass

    def what(self):
        return 'frame %d of %s from %r%s' % (
            self.count, self.m, self.N[self.s],
            '' if self.a['t'] is None else ' to %r' % (self.N[self.a['t']],))

    def __call__(self, which, highlight):
        if which is not self.g:
            return self.helper(which)
        self.frame(Screen(self), self.what())
        self.ob.ev('frames of ' + self.m)
        self.count += 1

    def helper(self, which):
        pass

    def end(self, result):
        pass

    def edge(self, p, x):
        """the edge by which x is reached from p, as the graph has it"""
        e = (x, p) if self.rev else (p, x)
        return e if self.d or e in self.E else e[::-1]

    def names(self, xs):
        return [self.N[i] for i in xs]

    def enames(self, es):
        return [(self.N[u], self.N[v]) for u, v in es]

    def oneyellow(self, scr, what):
        y = scr.edges('yellow')
        self.ob.check(len(y) <= 1, '%s: more than one edge is being looked '
                      'at: %r', what, self.enames(y))
        return y


class Growth(Watch):
    """a tree that grows from the source"""

    def start(self):
        self.order = []
        self.green = set()
        self.red = set()
        self.yellow = set()
        self.value = {}
        self.up = {}
        if self.m in ('BFS', 'UnweightedSPT'):
            self.true = oracle.hop_distances(self.adj, self.s)
        elif self.m == 'Dijkstra':
            self.true = c41.shortest(self.nodes, {e: x['cost'] for e, x in
                                     self.E.items()}, self.d, self.s,
                                     self.rev)

    def cost(self, p, x):
        return self.E[self.edge(p, x)]['cost']

    def frame(self, scr, what):
        ob = self.ob
        blue, green = scr.nodes('blue'), scr.nodes('green')
        red = scr.nodes('red')
        odd = set(scr.col.values()) - {'blue', 'green', 'red', 'black'}
        ob.check(not odd, '%s: node colors %r', what, odd)
        ob.check(len(blue) <= 1, '%s: more than one node is being worked on: '
                 '%r', what, self.names(blue))
        done = blue | green
        ob.check(self.green <= green, '%s: %r had been finished before', what,
                 self.names(self.green - green))
        ob.check(set(self.order) <= done, '%s: %r had been taken before',
                 what, self.names(set(self.order) - done))
        new = done - set(self.order)
        ob.check(len(new) <= 1 and new <= blue, '%s: %r taken at once, worked '
                 'on is %r', what, self.names(new), self.names(blue))
        ge = scr.edges('green')
        ob.check(all(u in done and v in done for u, v in ge) and
                 len(ge) == max(0, len(done) - 1) and
                 oracle.is_forest(sorted(done), sorted(ge)),
                 '%s: the green edges %r are no tree of the nodes taken %r',
                 what, self.enames(ge), self.names(done))
        y = self.oneyellow(scr, what)
        for e in y:
            ob.check(blue and (e[0] in blue or (not self.d and e[1] in blue)
                               if not self.rev else e[1] in blue),
                     '%s: edge %r is looked at, worked on is %r', what,
                     self.enames([e]), self.names(blue))
            self.yellow.add(e)
        odd = {c for c in scr.ecol.values()} - {'green', 'yellow', 'black',
                                                None}
        ob.check(not odd, '%s: edge colors %r', what, odd)
        near = {x for i in done for x in self.adj[i]}
        ob.check(red <= near | {self.s}, '%s: %r found, but no node taken has '
                 'an edge to it', what, self.names(red - near))
        self.red |= red
        for x in new:
            self.take(x, ge, what)
            self.order.append(x)
        self.green = green
        self.labels(scr, done, what)
        self.reds(red, what)

    def reds(self, red, what):
        if self.m in ('Dijkstra', 'Prim', 'mst prim'):
            self.ob.check(len(red) <= 1, '%s: %r found at once', what,
                          self.names(red))

    def take(self, x, ge, what):
        ob, m = self.ob, self.m
        if not self.order:
            ob.check(x == self.s, '%s: begins with %r', what, self.N[x])
            self.value[x] = 0
            return
        ps = [p for p in self.order if self.edge(p, x) in ge and
              x in self.adj[p]]
        ob.check(len(ps) == 1, '%s: %r is joined by green edges to %r', what,
                 self.N[x], self.names(ps))
        p = self.up[x] = ps[0]
        ob.check(x in self.red, '%s: %r is taken without having been shown '
                 'as found', what, self.N[x])
        ob.check(self.edge(p, x) in self.yellow, '%s: the edge from %r to %r '
                 'is taken without having been looked at', what, self.N[p],
                 self.N[x])
        ob.ev('node taken')
        ob.ev('found red first')
        if m in ('BFS', 'UnweightedSPT', 'Dijkstra'):
            v = self.value[x] = self.value[p] + (
                self.cost(p, x) if m == 'Dijkstra' else 1)
            ob.check(v == self.true[x], '%s: %r is taken over %r at distance '
                     '%r, its distance is %r', what, self.N[x], self.N[p], v,
                     self.true[x])
            ob.check(v >= self.value[self.order[-1]], '%s: %r at distance '
                     '%r is taken after %r at distance %r', what, self.N[x],
                     v, self.N[self.order[-1]], self.value[self.order[-1]])
        elif m == 'DFS':
            self.value[x] = self.value[p] + 1
            open_ = [q for q in self.order if any(
                z not in self.order for z in self.adj[q])]
            ob.check(p == open_[-1], '%s: %r is taken from %r, the node '
                     'taken last with a new neighbor is %r', what, self.N[x],
                     self.N[p], self.N[open_[-1]])
        else:
            c = self.value[x] = self.cost(p, x)
            least = min(self.cost(q, z) for q in self.order
                        for z in self.adj[q] if z not in self.order)
            ob.check(c == least, '%s: %r is taken over an edge of cost %r, '
                     'the least way out costs %r', what, self.N[x], c, least)

    def labels(self, scr, done, what):
        for i in done:
            if i == self.s and self.m == 'mst prim':
                continue
            want = self.value[i] if self.a.get('comp') is None else \
                self.a['comp']
            self.ob.check(str(scr.lab[i]) == str(want), '%s: %r shows %r, '
                          'expected %r', what, self.N[i], scr.lab[i], want)

    def end(self, result):
        if self.a['t'] is None:
            self.ob.eq(set(self.order), set(oracle.reach(self.adj, self.s)),
                       'nodes shown as taken by %s from %r' % (
                           self.m, self.N[self.s]))
        else:
            self.ob.ev('destination')
        if self.rev:
            self.ob.ev('reverse')


class Kruskal(Watch):
    def start(self):
        self.last = None
        self.pending = None
        self.looked = set()

    def comps(self, green):
        c = oracle.undirected_components(
            self.nodes, {e: {} for e in green})
        out = {}
        for i in self.nodes:
            out.setdefault(c[i], set()).add(i)
        return sorted(sorted(x) for x in out.values())

    def frame(self, scr, what):
        ob = self.ob
        y, ge = self.oneyellow(scr, what), scr.edges('green')
        ob.check(oracle.is_forest(self.nodes, sorted(ge)), '%s: the green '
                 'edges %r close a cycle', what, self.enames(ge))
        if y:
            e = min(y)
            c = self.E[e]['cost']
            ob.check(e not in self.looked, '%s: edge %r is looked at again',
                     what, self.enames(y))
            self.looked.add(e)
            ob.check(self.last is None or self.last <= c, '%s: an edge of '
                     'cost %r after one of cost %r', what, c, self.last)
            self.last = c
            self.pending = e
        elif self.pending:
            e, self.pending = self.pending, None
            fits = oracle.is_forest(self.nodes, sorted((ge - {e}) | {e})) \
                and e[0] != e[1]
            ob.check((e in ge) == fits, '%s: edge %r %s', what,
                     self.enames([e]), 'is left out' if fits else 'is taken')
            ob.ev('edge taken' if fits else 'edge refused')
        ob.check(ge <= self.looked, '%s: %r taken without having been looked '
                 'at', what, self.enames(ge - self.looked))

    def helper(self, which):
        """the disjoint set is shown: its sets are those of the forest"""
        if not isinstance(which, gimpy.DisjointSet):
            return
        ge = Screen(self).edges('green')
        up = {u: v for (u, v) in which.get_edge_list()}
        out = {}
        for i in self.nodes:
            x, k = self.N[i], 0
            while x in up and k <= len(up):
                x = up[x]
                k += 1
            out.setdefault(x, set()).add(i)
        self.ob.eq(sorted(sorted(x) for x in out.values()), self.comps(ge),
                   'frame %d of Kruskal: sets shown, and components of the '
                   'green edges' % self.count)
        self.ob.ev('set shown')


class Depth(Watch):
    """Graph.dfs"""

    def start(self):
        self.stack = []
        self.seen = []
        self.closed = []

    def frame(self, scr, what):
        ob = self.ob
        blue, green = scr.nodes('blue'), scr.nodes('green')
        ge = scr.edges('green')
        new = (blue | green) - set(self.seen)
        ob.check(len(new) <= 1, '%s: %r taken at once', what,
                 self.names(new))
        gone = set(self.stack) - blue
        ob.check(len(gone) + len(new) <= 1 and gone <= green and
                 set(self.closed) <= green, '%s: nodes left %r, begun %r, '
                 'finished %r', what, self.names(gone), self.names(new),
                 self.names(green))
        for x in gone:
            ob.check(x == self.stack[-1], '%s: %r is finished before %r, '
                     'which it led to', what, self.N[x],
                     self.N[self.stack[-1]])
            ob.check(set(self.adj[x]) <= set(self.seen), '%s: %r is finished '
                     'without having taken %r', what, self.N[x],
                     self.names(set(self.adj[x]) - set(self.seen)))
            self.stack.pop()
            self.closed.append(x)
        for x in new:
            if self.stack:
                p = self.stack[-1]
                ob.check(x in self.adj[p] and self.edge(p, x) in ge, '%s: %r '
                         'is taken, which %r does not lead to', what,
                         self.N[x], self.N[p])
            else:
                ob.check(x == self.s and not self.seen, '%s: begins with %r',
                         what, self.N[x])
            self.stack.append(x)
            self.seen.append(x)
            ob.ev('node taken')
        ob.eq(blue, set(self.stack), what + ': nodes being worked on')
        ob.check(len(ge) == len(self.seen) - 1, '%s: green edges %r for '
                 'nodes %r', what, self.enames(ge), self.names(self.seen))
        for k, x in enumerate(self.seen):
            want = '%d,%s' % (k + 1, self.closed.index(x) + 1
                              if x in self.closed else '-')
            ob.check(str(scr.lab[x]).strip('"') == want, '%s: %r shows %r, '
                     'expected %r', what, self.N[x], scr.lab[x], want)

    def end(self, result):
        self.ob.eq(set(self.closed), set(oracle.reach(self.adj, self.s)),
                   'nodes shown as finished by dfs')


class Path(Watch):
    """hamiltonian"""

    def start(self):
        self.path = []

    def frame(self, scr, what):
        ob = self.ob
        blue, ge = scr.nodes('blue'), scr.edges('green')
        at = {}
        for i in blue:
            at.setdefault(str(scr.lab[i]), []).append(i)
        path = []
        for k in range(len(blue)):
            x = at.get(str(k), [])
            ob.check(len(x) == 1, '%s: blue nodes %r with labels %r', what,
                     self.names(blue), sorted(at))
            path.append(x[0])
        ob.check(not path or path[0] == self.s, '%s: the path %r', what,
                 self.names(path))
        ob.eq(ge, {self.edge(u, v) for u, v in zip(path, path[1:])},
              '%s: green edges, and those of the path %r' % (
                  what, self.names(path)))
        ob.check(len(path) - len(self.path) in (-1, 0, 1) and
                 path[:min(len(path), len(self.path))] ==
                 self.path[:len(path)],
                 '%s: path %r after path %r', what, self.names(path),
                 self.names(self.path))
        if len(path) < len(self.path):
            ob.ev('backtracked')
        self.path = path


class Components(Watch):
    def start(self):
        self.comp = oracle.undirected_components(self.nodes, self.E)

    def frame(self, scr, what):
        ob = self.ob
        if self.a.get('skip'):
            return
        where = {}
        for i in self.nodes:
            if str(scr.lab[i]) == '-':
                continue
            c = where.setdefault(str(scr.lab[i]), self.comp[i])
            ob.check(c == self.comp[i], '%s: %r shows the number %r of '
                     'another component', what, self.N[i], scr.lab[i])
        ob.check(len(set(where.values())) == len(where), '%s: one component '
                 'with several numbers: %r', what, scr.lab)
        if len(where) > 1:
            ob.ev('several components shown')


class Augment(Watch):
    """max_flow: colors tell the flow and the search for a path"""

    def start(self):
        self.f = {e: 0 for e in self.E}     # flow when the round began
        self.last = dict(self.f)
        self.moved = set()                  # arcs changed in this round

    def flow(self):
        return {e: self.g.get_edge_attr(self.N[e[0]], self.N[e[1]], 'flow')
                for e in self.E}

    def room(self, f):
        adj = {i: [] for i in self.nodes}
        for e, x in self.E.items():
            if f[e] < x.get('capacity', 10000):
                adj[e[0]].append(e[1])
            if f[e] > 0:
                adj[e[1]].append(e[0])
        return adj

    def frame(self, scr, what):
        ob = self.ob
        y = self.oneyellow(scr, what)
        ny = scr.nodes('yellow')
        ob.check(len(ny) <= 1, '%s: more than one node is being looked at',
                 what)
        f = self.flow()
        new = {e for e in f if f[e] != self.last[e]}
        for e in new:
            if 0 < f[e] < self.last[e] == self.E[e].get('capacity', 10000):
                ob.ev('part of the flow of a full arc taken back')
        if self.moved and not new:
            self.path(what)
        self.moved |= new
        self.last = f
        blue = scr.nodes('blue')
        self.colors(scr, what, f)
        if self.moved:
            return
        self.f = f
        adj = self.room(f)
        ob.check(blue <= oracle.reach(adj, self.s), '%s: %r marked as '
                 'reached, but no path with capacity left leads there', what,
                 self.names(blue))
        self.tree(scr, what, blue, adj)
        if not ny:
            return
        got = blue | {self.s}
        ob.check(len(y) == 1 and any(
            (min(y)[k] in ny and min(y)[1 - k] in got) for k in (0, 1)),
            '%s: node %r is looked at over the edge %r', what,
            self.names(ny), self.enames(y))
        ob.ev('search state shown')

    def colors(self, scr, what, f):
        """an arc no search has marked shows how full it is"""
        for e, c in scr.ecol.items():
            if c in ('blue', 'yellow') and e not in self.moved:
                continue
            cap = self.E[e].get('capacity', 10000)
            ok = set()
            if f[e] == cap:
                ok.add('red')
            if f[e] == 0:
                ok.add('black')
                if e in self.moved:
                    # taken back completely: nothing is left to take
                    ok.add('red')
            self.ob.check(c in (ok or {'green'}), '%s: arc %r with flow %r '
                          'of %r is %r', what, e, f[e], cap, c)
        self.ob.ev('arc state shown', len(scr.ecol))

    def tree(self, scr, what, blue, adj):
        ob = self.ob
        be = scr.edges('blue')
        ob.eq(len(be), len(blue), '%s: nodes and arcs marked as reached, '
              '%r and %r' % (what, self.names(blue), self.enames(be)))
        seen, todo = {self.s}, [self.s]
        while todo:
            i = todo.pop()
            for j in adj[i]:
                if j not in seen and ((i, j) in be or (j, i) in be):
                    seen.add(j)
                    todo.append(j)
        ob.check(seen == blue | {self.s}, '%s: the blue arcs %r lead to %r, '
                 'blue nodes %r', what, self.enames(be), self.names(seen),
                 self.names(blue))

    def path(self, what):
        """the round that ended moved flow along one path"""
        ob, f, t = self.ob, self.f, self.a['t']
        by = {self.last[e] - f[e] for e in self.moved}
        amount = max(by)
        ob.check(by <= {amount, -amount}, '%s: flows of %r changed by %r',
                 what, self.enames(self.moved), by)
        nxt = {}
        for e in self.moved:
            u, v = e if self.last[e] > f[e] else e[::-1]
            ob.check(u not in nxt, '%s: flow leaves %r twice', what,
                     self.names([u]))
            nxt[u] = v
        i, k = self.s, 0
        while i != t and i in nxt and k <= len(nxt):
            i, k = nxt[i], k + 1
        ob.check(i == t and k == len(nxt), '%s: flow was moved along %r, '
                 'which is no path', what, nxt)
        room = min(self.E[e].get('capacity', 10000) - f[e]
                   if self.last[e] > f[e] else f[e] for e in self.moved)
        ob.eq(amount, room, '%s: flow moved along %r' % (what, nxt))
        if self.a['algo'] == 'BFS':
            hops = oracle.hop_distances(self.room(f), self.s)
            ob.eq(k, hops[t], '%s: arcs of the path found breadth first, %r'
                  % (what, nxt))
            ob.ev('shortest augmenting path')
        ob.ev('augmenting path shown')
        self.f, self.moved = self.last, set()

    def end(self, r):
        if self.moved:
            self.path('at the end')
        scr = Screen(self)
        self.ob.check(not scr.edges('yellow') and not scr.nodes('yellow'),
                      'something yellow is left after %s', self.m)
        f = self.flow()
        self.colors(scr, 'after ' + self.m, f)
        self.tree(scr, 'after ' + self.m, scr.nodes('blue'), self.room(f))


KINDS = {'kruskal': Kruskal, 'dfs': Depth, 'hamiltonian': Path,
         'components': Components, 'max_flow': Augment}


def run(case, ob):
    d, n = case['dir'], case['n']
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    idx = {N[i]: i for i in nodes}
    g = gen.build(gimpy, case, display='file')
    for a in case['ask']:
        m, s, t = a['m'], nm(a['s']), a['t']
        w = KINDS.get(m, Growth)(ob, case, a, g, nodes, E, N, idx, d)
        t = None if t is None else nm(t)
        with frames.observe(gimpy, frames.Frames(w)):
            if m == 'max_flow':
                r = g.max_flow(s, t, algo=a['algo'])
            elif m == 'mst prim':
                for e in g.get_edge_list():
                    g.set_edge_attr(e[0], e[1], 'color', 'black')
                r = g.minimum_spanning_tree_prim(s)
            elif m == 'kruskal':
                r = g.minimum_spanning_tree_kruskal()
            elif m == 'dfs':
                r = g.dfs(s)
            elif m == 'hamiltonian':
                r = g.hamiltonian(s, t)
            elif m == 'components':
                r = g.label_components()
            else:
                kw = {'algo': m, 'reverse': a['rev']}
                if t is not None:
                    kw['destination'] = t
                if a['comp'] is not None:
                    kw['component'] = a['comp']
                    for i in nodes:
                        g.set_node_attr(N[i], 'component', None)
                r = g.search(s, **kw)
        w.end(r)
        ob.key(d, n, case['scheme'], case['edges'], sorted(a.items(),
               key=str))
        ob.sample({'graph': case['edges'][:8], 'ask': a, 'frames': w.count})
