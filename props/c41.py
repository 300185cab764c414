import gimpy
from mon import gen, oracle

PID = 'C41'
RULE = ('searches, dfs, Prim, Kruskal, augmenting path and preflow push runs '
        'on graphs whose nodes and edges carry the colors and labels of an '
        'earlier run or of the user; after the run the green edges, node '
        'colors and labels are compared with the answer the run gave (tree, '
        'path, distances, costs, flow, minimum cut). Distinct by graph and '
        'request.')
QUICK, THOROUGH = 240000, 4800000
SEARCH = ['DFS', 'BFS', 'UnweightedSPT', 'Dijkstra', 'Prim']
FLOW = ['max_flow DFS', 'max_flow BFS', 'preflow FIFO', 'preflow SAP',
        'preflow HighestLabel']
REQUIRED = dict({'marks of ' + a: 400 for a in
                 SEARCH + FLOW + ['dfs', 'bfs', 'mst prim', 'kruskal',
                                  'components', 'hamiltonian']},
                **{'path marked': 500, 'unreached unmarked': 1000,
                   'stale marks': 3000, 'distance label': 3000,
                   'cost label': 2000, 'flow label': 3000, 'cut shown': 500,
                   'dfs marks checked': 2000,
                   'hamiltonian path marked': 200,
                   'run after another': 2000, 'reverse': 300})
# these do not clear the edge colors left by others
KEEP = ('dfs', 'kruskal', 'hamiltonian')
COLORS = ['green', 'red', 'blue', 'yellow', 'black', 'pink']


def gen_case(rng, i, tier):
    if rng.random() < .3:
        c = gen.graph_case(rng, tier, directed=True, hi=8, big=12, anti=0,
                           large=.001)
        f = gen.caps(rng)
        bare = .1 if rng.random() < .2 else 0
        c['edges'] = [e + ([{}] if rng.random() < bare
                           else [{'capacity': f()}]) for e in c['edges']]
        if c['n'] < 2:
            c['n'] = 2
            c['order'] = [0, 1]
        s, t = rng.sample(range(c['n']), 2)
        ask = [{'m': rng.choice(FLOW), 's': s, 't': t}
               for _ in range(rng.randint(1, 2))]
    else:
        c = gen.graph_case(rng, tier, loops=.2, large=.001,
                           attrs=gen.cost_attrs(['ties', 'small', 'wide',
                                                 'zero', 'unit', 'dyadic']))
        ask = []
        for k in range(rng.randint(1, 4)):
            ms = SEARCH + ['bfs']
            if not c['dir']:
                ms = ms + ['mst prim', 'mst prim', 'components']
            if not k:
                ms = ms + ['dfs', 'dfs'] + ['hamiltonian'] * (c['n'] < 8)
                if not c['dir']:
                    ms = ms + ['kruskal', 'kruskal']
            m = rng.choice(ms)
            if m == 'Prim' and c['dir']:
                m = 'Dijkstra'
            ask.append({'m': m, 's': rng.randrange(c['n']),
                        't': rng.randrange(c['n']) if m in SEARCH +
                        ['hamiltonian'] and
                        rng.random() < .3 else None,
                        'rev': c['dir'] and m in SEARCH and
                        rng.random() < .3})
    c['ask'] = ask
    c['stale'] = [rng.choice(COLORS) for _ in range(5)] \
        if rng.random() < .6 else None
    return c


def reduce(case):
    ask = case['ask']
    for i in range(len(ask)):
        if len(ask) > 1 and (i or ask[1]['m'] not in KEEP):
            yield dict(case, ask=ask[:i] + ask[i + 1:])
    if case['stale']:
        yield dict(case, stale=None)
    hi = max(x for a in ask for x in (a['s'], a['t'] or 0))
    for c in gen.shrink_graph(case):
        if c['n'] > hi:
            yield c


def green(g):
    return {e for e in g.get_edge_list()
            if g.edge_attr[e].get('color') == 'green'}


def run(case, ob):
    d, n = case['dir'], case['n']
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    idx = {N[i]: i for i in nodes}
    g = gen.build(gimpy, case)
    first = case['ask'][0]['m']
    if case['stale'] and first == 'hamiltonian':
        for i in nodes:
            g.set_node_attr(N[i], 'label', 'old')
    if case['stale'] and first not in KEEP:
        # what an earlier run or the user left behind
        z = case['stale']
        for i in nodes:
            g.set_node_attr(N[i], 'color', z[i % 5])
            g.set_node_attr(N[i], 'label', 'old')
        for k, e in enumerate(g.get_edge_list()):
            g.set_edge_attr(e[0], e[1], 'color', z[k % 5])
        ob.ev('stale marks')
    for k, a in enumerate(case['ask']):
        m = a['m']
        ob.ev('marks of ' + m)
        if k:
            ob.ev('run after another')
        if m in FLOW:
            flows(ob, case, g, a, nodes, E, N, nm)
        else:
            trees(ob, case, g, a, nodes, E, N, nm, idx, d)
        ob.key(d, n, case['scheme'], case['edges'], case['stale'],
               sorted(a.items(), key=str))
    ob.sample({'graph': case['edges'][:8], 'ask': case['ask']})


def trees(ob, case, g, a, nodes, E, N, nm, idx, d):
    m, s, t = a['m'], a['s'], a['t']
    rev = a['rev']
    adj = (oracle.in_adj if rev else oracle.out_adj)(nodes, E, d)
    reached = oracle.reach(adj, s)
    src = nm(s)

    def edge(p, x):
        """the edge of the graph between p and its successor x"""
        e = (x, p) if rev else (p, x)
        return e if d or e in g.edge_attr else e[::-1]

    def cost(p, x):
        i, j = (idx[x], idx[p]) if rev else (idx[p], idx[x])
        return E[(i, j) if d or (i, j) in E else (j, i)]['cost']
    what = '%s from %r%s%s' % (m, src, '' if t is None else ' to %r' % (N[t],),
                               ' reversed' if rev else '')
    path = None
    if m == 'components':
        g.label_components()
        comp = oracle.undirected_components(nodes, E)
        seen = {}
        for i in nodes:
            seen.setdefault(g.get_node_attr(N[i], 'label'), set()).add(i)
        want = {}
        for i in nodes:
            want.setdefault(comp[i], set()).add(i)
        ob.eq(sorted(map(sorted, seen.values())),
              sorted(map(sorted, want.values())),
              'nodes with the same label after label_components')
        return
    if m == 'kruskal':
        r = g.minimum_spanning_tree_kruskal()
        ob.eq(green(g), set(r), 'green edges after Kruskal returned its '
              'edges')
        return
    if m == 'hamiltonian':
        hamiltonian(ob, g, what, src, None if a['t'] is None else nm(a['t']),
                    edge, N, len(nodes))
        return
    if m == 'mst prim':
        pred = g.minimum_spanning_tree_prim(src)
    elif m == 'dfs':
        pred = {}
        g.dfs(src, pred=pred)
    elif m == 'bfs':
        g.bfs(src)
        pred = None
    else:
        kw = {'algo': m, 'reverse': rev}
        if t is not None:
            kw['destination'] = nm(t)
        if rev:
            ob.ev('reverse')
        r = g.search(src, **kw)
        if t is not None and t in reached:
            path, pred = r, None
        elif t is None:
            pred = r
        else:
            pred = None
    got = green(g)
    color = {i: g.get_node_attr(N[i], 'color') for i in nodes}
    label = {i: g.get_node_attr(N[i], 'label') for i in nodes}
    if path is not None:
        for p, x in zip(path, path[1:]):
            ob.check(edge(p, x) in got, '%s: the edge from %r to %r of the '
                     'path %r is not green', what, p, x, path)
        ob.ev('path marked')
    elif pred is not None:
        mine = {edge(p, x) for x, p in pred.items()}
        if m == 'mst prim':
            # other components are not touched
            got = {e for e in got if idx[e[0]] in reached}
        ob.eq(got, mine, what + ': green edges')
    if m == 'dfs':
        dfs_marks(ob, g, what, got, s, reached, d, N, idx)
    if m == 'bfs':
        hops = oracle.hop_distances(adj, s)
        heads = {}
        for u, v in got:
            if not d and hops[idx[u]] > hops[idx[v]]:
                u, v = v, u
            ob.check(hops.get(idx[u]) is not None and
                     hops[idx[v]] == hops[idx[u]] + 1,
                     '%s: green edge (%r, %r) is not on a shortest path',
                     what, u, v)
            heads[v] = heads.get(v, 0) + 1
        ob.eq(heads, {N[i]: 1 for i in reached if i != s},
              what + ': nodes at the end of green edges')
    if path is None:
        for i in nodes:
            if i in reached:
                ob.eq(color[i], 'green', '%s: color of %r' % (what, N[i]))
            elif m != 'dfs':
                ob.eq(color[i], 'black', '%s: color of %r' % (what, N[i]))
                ob.ev('unreached unmarked')
        if m in SEARCH + ['bfs', 'mst prim']:
            for e in g.get_edge_list():
                if e not in got and (m != 'mst prim' or idx[e[0]] in reached):
                    ob.eq(g.edge_attr[e].get('color'), 'black', '%s: color '
                          'of edge %r' % (what, e))
    if path is None and m in SEARCH + ['bfs']:
        for i in nodes:
            if i not in reached:
                ob.eq(label[i], '-', '%s: label of %r' % (what, N[i]))
    want = None
    if m in ('BFS', 'UnweightedSPT', 'bfs'):
        want = {i: h for i, h in oracle.hop_distances(adj, s).items()
                if h is not None}
    elif m == 'Dijkstra':
        w = {e: x['cost'] for e, x in E.items()}
        dist = shortest(nodes, w, d, s, rev)
        want = {i: x for i, x in dist.items() if x is not None}
    elif m == 'DFS' and pred is not None:
        want = {s: 0}
        for x in pred:
            p, c = x, 0
            while p != src:
                p = pred[p]
                c += 1
            want[idx[x]] = c
    if want is not None:
        for i in nodes:
            if path is not None and N[i] not in path:
                continue
            if i in want:
                ob.eq(str(label[i]), str(want[i]), '%s: label of %r' % (
                    what, N[i]))
                ob.ev('distance label')
    if m in ('Prim', 'mst prim') and pred is not None:
        if m == 'Prim':
            ob.eq(label[s], 0, what + ': label of the source')
        for x, p in pred.items():
            ob.eq(label[idx[x]], cost(p, x), '%s: label of %r' % (what, x))
            ob.ev('cost label')


def dfs_marks(ob, g, what, got, s, reached, d, N, idx):
    """the green edges are a tree of the reached nodes, labels the times"""
    es = {(idx[u], idx[v]) for u, v in got}
    ob.check(oracle.is_forest(sorted(reached), [e for e in es
             if e[0] in reached and e[1] in reached]) and
             len(es) == len(reached) - 1 and
             all(e[0] in reached and e[1] in reached for e in es),
             '%s: green edges %r are no tree of the reached nodes', what, got)
    if d:
        heads = {e[1] for e in es}
        ob.eq(heads, reached - {s}, what + ': ends of the green edges')
    for i in reached:
        x = N[i]
        ob.eq(str(g.get_node_attr(x, 'label')).strip('"'), '%s,%s' % (
            g.get_node_attr(x, 'disc_time'), g.get_node_attr(x, 'finish_time')),
            '%s: label of %r' % (what, x))
    ob.ev('dfs marks checked')


def hamiltonian(ob, g, what, src, dest, edge, N, n):
    pred = {}
    r = g.hamiltonian(src, dest, pred=pred)
    got = green(g)
    if not r:
        ob.eq(got, set(), what + ': green edges although there is no path')
        for v in N:
            ob.check(str(g.get_node_attr(v, 'label')) in
                     (('-', '0') if v == src else ('-',)),
                     '%s: label of %r is %r although there is no path', what,
                     v, g.get_node_attr(v, 'label'))
        return
    ends = [dest] if dest is not None else N
    for x in ends:
        path = [x]
        while path[-1] != src and path[-1] in pred and len(path) < n:
            path.append(pred[path[-1]])
        path.reverse()
        if len(path) == len(set(path)) == n and path[0] == src:
            es = [edge(u, v) for u, v in zip(path, path[1:])]
            if set(es[:-1]) <= got <= set(es):
                labels = [str(g.get_node_attr(v, 'label'))
                          for v in path[:-1]]
                ob.eq(labels, [str(k) for k in range(n - 1)],
                      what + ': labels along the path %r' % path)
                last = str(g.get_node_attr(path[-1], 'label'))
                ob.check(last in ('-', str(n - 1)), '%s: label of the last '
                         'node %r is %r', what, path[-1], last)
                ob.ev('hamiltonian path marked')
                return
    ob.fail('%s: green edges %r are not those of the path found (%r)', what,
            got, pred)


def shortest(nodes, w, d, s, rev):
    dist = {i: None for i in nodes}
    dist[s] = 0
    arcs = []
    for (u, v), c in w.items():
        if rev:
            u, v = v, u
        arcs.append((u, v, c))
        if not d:
            arcs.append((v, u, c))
    for _ in nodes:
        again = False
        for u, v, c in arcs:
            if dist[u] is not None and (dist[v] is None or
                                        dist[u] + c < dist[v]):
                dist[v] = dist[u] + c
                again = True
        if not again:
            break
    return dist


def flows(ob, case, g, a, nodes, E, N, nm):
    m, s, t = a['m'], a['s'], a['t']
    what = '%s from %r to %r' % (m, N[s], N[t])
    kind, algo = m.split()
    import io
    from contextlib import redirect_stdout
    with redirect_stdout(io.StringIO()):
        if kind == 'max_flow':
            g.max_flow(nm(s), nm(t), algo=algo)
        else:
            g.max_flow_preflowpush(nm(s), nm(t), algo=algo)
    value = 0
    for e in E:
        at = g.edge_attr[(N[e[0]], N[e[1]])]
        cap = E[e].get('capacity', 10000)
        f = at['flow']
        value += f * ((e[0] == s) - (e[1] == s))
        # the capacity that stands for no bound may be written either way
        ob.check(at.get('label') in [x + '/' + str(f) for x in [str(cap)] + (
            ['INF'] if cap == 10000 else [])], '%s: label of arc %r with flow '
            '%r of %r is %r', what, e, f, cap, at.get('label'))
        ob.ev('flow label')
        if kind == 'preflow':
            c = at.get('color')
            ok = ['red'] if f == cap else ['green'] if f > 0 else ['black']
            ob.check(c in ok, '%s: arc %r with flow %r of %r is %r', what, e,
                     f, cap, c)
    if kind == 'max_flow':
        side = {i for i in nodes if g.get_node_attr(N[i], 'color') == 'blue'}
        side.add(s)
        ob.check(t not in side, '%s: the sink is blue', what)
        cut = sum(E[e].get('capacity', 10000) for e in E
                  if e[0] in side and e[1] not in side)
        ob.eq(cut, value, '%s: capacity of the cut shown in blue %r' % (
            what, [N[i] for i in side]))
        ob.ev('cut shown')
