import gimpy
from mon import gen, oracle
from props import c05

PID = 'C08'
RULE = ('random directed/undirected graphs (16 shapes, loops, opposite arcs), '
        'all digraphs on 3 nodes and acyclic graphs; dfs over all nodes in a '
        'random root order with the counters passed on, recorded discovery '
        'and finishing events checked as an offline trace (consecutive, '
        'nested, white-path rule for every edge), then a transpose pass in '
        'decreasing finishing time. Distinct by graph, root order and times.')
QUICK, THOROUGH = 200000, 6000000
REQUIRED = {'large graph': 50, 'trace checked': 3000, 'topological order checked': 500,
            'second pass checked': 1000, 'partial dfs': 1000,
            'continued numbering': 1000, 'default counters': 5000,
            'several components': 500}


def fixed(tier):
    import random
    rng = random.Random(8)
    for es in oracle.small_digraphs(3):
        roots = [0, 1, 2]
        rng.shuffle(roots)
        yield {'dir': True, 'n': 3, 'scheme': 'int', 'roots': roots,
               'edges': [list(e) for e in es], 'comp': 0, 'disc': 0, 'fin': 1}


def gen_case(rng, i, tier):
    acyclic = rng.random() < .35
    c = gen.graph_case(rng, tier, large=.004, directed=True if acyclic or
                       rng.random() < .7 else False, acyclic=acyclic,
                       anti=0 if acyclic else .3, loops=0 if acyclic else .15)
    c['roots'] = gen.node_order(rng, c['n'])
    c['comp'] = rng.choice([0, 1, 5])
    c['disc'] = rng.choice([0, 0, 3])
    c['fin'] = rng.choice([1, 1, 0, 10])
    return c


def reduce(case):
    for c in gen.shrink_graph(case):
        if c['n'] == case['n']:
            yield c
    n = case['n'] - 1
    if n and not any(n in e[:2] for e in case['edges']):
        c = dict(case, n=n, roots=[r for r in case['roots'] if r != n])
        if 'order' in c:
            c['order'] = [r for r in c['order'] if r != n]
        yield c


def classes(nodes, E):
    comp = oracle.undirected_components(nodes, E)
    return {frozenset(j for j in nodes if comp[j] == comp[i]) for i in nodes}


def run(case, ob):
    d, n = case['dir'], case['n']
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(n)]
    adj = oracle.out_adj(nodes, E, d)
    g = gen.build(gimpy, case)
    for i in nodes:
        g.set_node_attr(N[i], 'component', 'none')
    dc, fc = case['disc'], case['fin']
    order = []
    seen = set()
    passes = []
    for r in case['roots']:
        if r in seen:
            continue
        # white nodes reachable from r over white nodes only
        white = {r}
        todo = [r]
        while todo:
            x = todo.pop()
            for y in adj[x]:
                if y not in seen and y not in white:
                    white.add(y)
                    todo.append(y)
        if seen:
            ob.ev('continued numbering')
        before = (dc, fc)
        comp = case['comp'] + len(passes)
        kw = {}
        if (dc, fc) == (0, 1):
            # the counters may be left out
            ob.ev('default counters')
        else:
            kw = {'disc_count': dc, 'finish_count': fc}
        res = g.dfs(nm(r), topological_order=order, component=comp, **kw)
        what = 'dfs from %r (counters %r)' % (N[r], before)
        ob.check(isinstance(res, tuple) and len(res) == 2,
                 '%s returned %r', what, res)
        dc, fc = res
        ob.eq(tuple(res), (before[0] + len(white), before[1] + len(white)),
              what + ': counters')
        got = {i for i in nodes if i not in seen and
               g.get_node_attr(N[i], 'disc_time') is not None}
        ob.eq(got, white, what + ': nodes discovered')
        marked = {i for i in nodes
                  if g.get_node_attr(N[i], 'component') == comp}
        ob.eq(marked, white, what + ': nodes given the component')
        ob.eq(sorted(g.get_node_attr(N[i], 'disc_time') for i in white),
              list(range(before[0] + 1, before[0] + 1 + len(white))),
              what + ': discovery times')
        ob.eq(sorted(g.get_node_attr(N[i], 'finish_time') for i in white),
              list(range(before[1], before[1] + len(white))),
              what + ': finishing times')
        if len(white) < n:
            ob.ev('partial dfs')
        seen |= white
        passes.append(white)
    if len(passes) > 1:
        ob.ev('several components')
    disc = {i: g.get_node_attr(N[i], 'disc_time') for i in nodes}
    fin = {i: g.get_node_attr(N[i], 'finish_time') for i in nodes}
    # y lies inside x if it is discovered later and finished earlier
    parent = {}
    inside = {x: set() for x in nodes}
    for y in nodes:
        anc = [x for x in nodes if disc[x] < disc[y] and fin[y] < fin[x]]
        for x in anc:
            inside[x].add(y)
        anc.sort(key=disc.get)
        for x, z in zip(anc, anc[1:]):
            ob.check(fin[z] < fin[x], 'dfs times of %r, %r and %r are not '
                     'nested: %r %r', N[x], N[z], N[y], disc, fin)
        if anc:
            parent[y] = anc[-1]
    for x, p in parent.items():
        ob.check(x in adj[p], 'dfs: %r is nested directly inside %r without '
                 'an edge', N[x], N[p])
    for x in nodes:
        for y in adj[x]:
            # an edge x->y never goes to a node discovered later outside x
            ob.check(y == x or disc[y] < disc[x] or y in inside[x],
                     'dfs: edge (%r, %r) leads to a node discovered after '
                     '%r was finished', N[x], N[y], N[x])
    ob.ev('trace checked')
    ob.check(len(order) == n and set(order) == set(N),
             'dfs collected %r in the order list', order)
    ob.eq(order, [N[i] for i in sorted(nodes, key=lambda i: -fin[i])],
          'dfs: collected order against finishing times')
    pos = {x: k for k, x in enumerate(order)}
    sccs = oracle.strong_components(nodes, E) if d else None
    if d and len(sccs) == n and not any(u == v for (u, v) in E):
        for (u, v) in E:
            ob.check(pos[N[u]] < pos[N[v]],
                     'dfs: order %r is not topological for (%r, %r)', order,
                     N[u], N[v])
        ob.ev('topological order checked')
    for i in nodes:
        g.set_node_attr(N[i], 'component', None)
    k = 0
    for i in sorted(nodes, key=lambda i: -fin[i]):
        if g.get_node_attr(N[i], 'component') is None:
            g.dfs(nm(i), component=k, transpose=True)
            k += 1
    lab = {}
    for i in nodes:
        lab.setdefault(g.get_node_attr(N[i], 'component'), set()).add(i)
    ob.eq({frozenset(x) for x in lab.values()},
          set(sccs) if d else classes(nodes, E), 'second dfs pass: label classes')
    ob.ev('second pass checked')
    ob.key(d, n, case['edges'], case['roots'], sorted(fin.items()))
    ob.sample({'graph': case['edges'][:10], 'roots': case['roots']})
