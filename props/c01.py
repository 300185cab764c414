import itertools
from collections import Counter
import gimpy
from mon import gen

PID = 'C01'
RULE = ('random histories (5-60 updates, few names so that deletes and '
        're-adds collide) of add_node/add_edge/del_edge/del_node on directed '
        'and undirected graphs, plus every digraph (loops included) and graph '
        'on 3 nodes followed by each single deletion; after every update all '
        'queries over all names, present or not, are compared with a node '
        'set and an edge set. Non-trivial: a history with at least one '
        'deletion, distinct by its operation list.')
QUICK, THOROUGH = 16000, 400000
REQUIRED = {'full comparison': 1000, 'del_node with edges': 100,
            'del_edge': 100, 'directed': 50, 'undirected': 50}


def fixed(tier):
    n = 3
    for directed in (True, False):
        ps = ([(i, j) for i in range(n) for j in range(n)] if directed else
              [(i, j) for i in range(n) for j in range(i, n)])
        for mask in range(1 << len(ps)):
            if directed and tier == 'quick' and mask % 3:
                continue
            es = [p for b, p in enumerate(ps) if mask >> b & 1]
            for flip in ((False,) if directed else (False, True)):
                base = [['node', 0]] + \
                    [['edge', *(e[::-1] if flip else e)] for e in es]
                have = {0} | {x for e in es for x in e}
                for k in have:
                    yield {'dir': directed, 'scheme': 'int', 'n': n,
                           'ops': base + [['delnode', k], ['node', k]],
                           'last': 2}


def gen_ops(rng, directed, n, k, loops=True):
    nodes, edges, ops = set(), set(), []

    def has(u, v):
        return (u, v) in edges or (not directed and (v, u) in edges)
    for _ in range(k):
        r = rng.random()
        if r < .12:
            c = [x for x in range(n) if x not in nodes]
            if c:
                x = rng.choice(c)
                nodes.add(x)
                ops.append(['node', x])
                continue
        if r < .62:
            u, v = rng.randrange(n), rng.randrange(n)
            if (u != v or (loops and rng.random() < .3)) and not has(u, v):
                nodes |= {u, v}
                edges.add((u, v))
                ops.append(['edge', u, v])
                continue
        if r < .82 and edges:
            e = rng.choice(sorted(edges))
            edges.discard(e)
            if not directed and rng.random() < .5:
                e = e[::-1]
            ops.append(['deledge', *e])
        elif nodes:
            x = rng.choice(sorted(nodes))
            nodes.discard(x)
            edges = {e for e in edges if x not in e}
            ops.append(['delnode', x])
    return ops


def gen_case(rng, i, tier):
    directed = rng.random() < .5
    n = rng.choice([2, 3, 4, 5, 7]) if rng.random() < .995 \
        else rng.randint(25, 45)
    return {'dir': directed, 'n': n, 'scheme': rng.choice(gen.SCHEMES),
            'ops': gen_ops(rng, directed, n, rng.randint(5, 60)
                           if n < 10 else rng.randint(60, 240))}


def reduce(case):
    ops = case['ops']
    for i in range(len(ops)):
        c = dict(case, ops=ops[:i] + ops[i + 1:])
        if valid(c):
            yield c


def valid(case):
    nodes, edges = set(), set()
    d = case['dir']
    for op in case['ops']:
        if op[0] == 'node':
            if op[1] in nodes:
                return False
            nodes.add(op[1])
        elif op[0] == 'edge':
            u, v = op[1:]
            if (u, v) in edges or (not d and (v, u) in edges):
                return False
            nodes |= {u, v}
            edges.add((u, v))
        elif op[0] == 'deledge':
            u, v = op[1:]
            if (u, v) in edges:
                edges.discard((u, v))
            elif not d and (v, u) in edges:
                edges.discard((v, u))
            else:
                return False
        else:
            if op[1] not in nodes:
                return False
            nodes.discard(op[1])
            edges = {e for e in edges if op[1] not in e}
    return True


def noloop(lst, n):
    return Counter(x for x in lst if x != n)


def outcome(query, name):
    try:
        return query(name)
    except Exception as e:
        return type(e).__name__


def compare(g, d, nm, n, nodes, edges, ob, when):
    ob.ev('full comparison')
    N = {i: nm(i) for i in range(n)}
    nl = g.get_node_list()
    ob.check(len(nl) == len(nodes) and set(nl) == {N[i] for i in nodes},
             '%s: node list %r, expected %r', when, nl, sorted(nodes))
    ob.eq(g.get_node_num(), len(nodes), when + ': number of nodes')
    el = g.get_edge_list()
    want = {(N[u], N[v]) for (u, v) in edges}
    if d:
        ok = set(el) == want
    else:
        ok = {frozenset(e) for e in el} == {frozenset(e) for e in want}
    ob.check(len(el) == len(want) and ok, '%s: edge list %r, expected %r',
             when, el, want)
    ob.eq(g.get_edge_num(), len(want), when + ': number of edges')
    for i in range(n):
        ob.eq(nm(i) in g, i in nodes, '%s: %r in graph' % (when, N[i]))
        nd = g.get_node(nm(i))
        if i in nodes:
            ob.check(nd is not None and nd.name == N[i],
                     '%s: get_node(%r) is %r', when, N[i], nd)
        else:
            ob.check(nd is None, '%s: get_node(%r) of a deleted or unknown '
                     'node is %r', when, N[i], nd)
        if i not in nodes:
            # as for a name the graph has never seen
            for q in (g.get_neighbors, g.get_out_neighbors,
                      g.get_in_neighbors):
                ob.eq(outcome(q, nm(i)), outcome(q, 'never added'),
                      '%s: %s of %r, which is not in the graph' % (
                          when, q.__name__, N[i]))
            continue
        out = [v for (u, v) in edges if u == i]
        inn = [u for (u, v) in edges if v == i]
        if d:
            ob.eq(Counter(g.get_neighbors(nm(i))), Counter(N[x] for x in out),
                  '%s: neighbors of %r' % (when, N[i]))
            ob.eq(Counter(g.get_out_neighbors(nm(i))),
                  Counter(N[x] for x in out),
                  '%s: out-neighbors of %r' % (when, N[i]))
            ob.eq(Counter(g.get_in_neighbors(nm(i))),
                  Counter(N[x] for x in inn),
                  '%s: in-neighbors of %r' % (when, N[i]))
        else:
            allnb = [N[x] for x in out + inn]
            for what, got in (('neighbors', g.get_neighbors(nm(i))),
                              ('out-neighbors', g.get_out_neighbors(nm(i)))):
                ob.eq(noloop(got, N[i]), noloop(allnb, N[i]),
                      '%s: %s of %r' % (when, what, N[i]))
                ob.eq(N[i] in got, N[i] in allnb,
                      '%s: loop in %s of %r' % (when, what, N[i]))
    for i, j in itertools.product(range(n), repeat=2):
        w = (i, j) in edges or (not d and (j, i) in edges)
        ob.eq(bool(g.check_edge(nm(i), nm(j))), w,
              '%s: check_edge(%r, %r)' % (when, N[i], N[j]))
        ob.eq((nm(i), nm(j)) in g, w,
              '%s: (%r, %r) in graph' % (when, N[i], N[j]))


def run(case, ob):
    d, n = case['dir'], case['n']
    nm = gen.namer(case['scheme'])
    g = gimpy.Graph(type=gen.gtype(d))
    ob.ev('directed' if d else 'undirected')
    nodes, edges = set(), set()
    ops = case['ops']
    deletions = 0
    for k, op in enumerate(ops):
        what = op[0]
        if what == 'node':
            r = g.add_node(nm(op[1]))
            ob.check(r is g.get_node(nm(op[1])),
                     'add_node did not return the node added')
            nodes.add(op[1])
        elif what == 'edge':
            g.add_edge(nm(op[1]), nm(op[2]))
            nodes |= {op[1], op[2]}
            edges.add((op[1], op[2]))
        elif what == 'deledge':
            g.del_edge((nm(op[1]), nm(op[2])))
            edges.discard((op[1], op[2]))
            if not d:
                edges.discard((op[2], op[1]))
            deletions += 1
            ob.ev('del_edge')
        else:
            if any(op[1] in e for e in edges):
                ob.ev('del_node with edges')
            g.del_node(nm(op[1]))
            nodes.discard(op[1])
            edges = {e for e in edges if op[1] not in e}
            deletions += 1
        ob.ev('update')
        if k >= len(ops) - case.get('last', len(ops)):
            compare(g, d, nm, n, nodes, edges, ob,
                    'after %d updates, last %r' % (k + 1, op))
    if deletions:
        ob.key(d, case['scheme'], ops)
    ob.sample({'directed': d, 'names': case['scheme'], 'ops': ops[:12]})


