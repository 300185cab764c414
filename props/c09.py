import gimpy
from mon import gen, oracle
from props import c01

PID = 'C09'
RULE = ('undirected graphs of 16 shapes (loops included) and all graphs on 4 '
        'nodes; label_components, then random updates and other labellings, '
        'then label_components again, up to 4 times; labels compared with an '
        'independent partition. Distinct by edge set and partition.')
DIRECTED = False
QUICK, THOROUGH = 120000, 2500000
REQUIRED = {'large graph': 50, 'labelling checked': 5000, 'several classes': 2000,
            'after update': 2000, 'isolated node': 500, 'empty graph': 200}


def fixed(tier):
    for es in oracle.small_graphs(4):
        yield {'dir': False, 'n': 4, 'scheme': 'int',
               'edges': [list(e) for e in es], 'updates': [[]]}


def updates(rng, n, directed, edges):
    """update lists that are valid one after another"""
    nodes, es = set(range(n)), {tuple(e[:2]) for e in edges}
    out = []
    for _ in range(rng.randint(1, 4)):
        ops = []
        for _ in range(rng.randint(0, 3)):
            r = rng.random()
            if r < .4 and es:
                e = rng.choice(sorted(es))
                es.discard(e)
                ops.append(['deledge', *e])
            elif r < .75 and nodes:
                u = rng.choice(sorted(nodes))
                v = rng.choice(sorted(nodes))
                if (u, v) not in es and (directed or (v, u) not in es):
                    es.add((u, v))
                    ops.append(['edge', u, v])
            elif r < .9 and nodes:
                x = rng.choice(sorted(nodes))
                nodes.discard(x)
                es = {e for e in es if x not in e}
                ops.append(['delnode', x])
            else:
                x = n + rng.randrange(3)
                if x not in nodes:
                    nodes.add(x)
                    ops.append(['node', x])
        out.append(ops)
        if nodes and rng.random() < .02:
            out.append([['delnode', x] for x in sorted(nodes)])
            nodes, es = set(), set()
    return out


def gen_case(rng, i, tier):
    c = gen.graph_case(rng, tier, large=.004, directed=False, loops=.2,
                       shapes=gen.SHAPES + ['union', 'sparse', 'sparse'])
    c['updates'] = updates(rng, c['n'], False, c['edges'])
    return c


def apply(g, nm, ops, nodes, E, d):
    for op in ops:
        if op[0] == 'node':
            g.add_node(nm(op[1]))
            nodes.add(op[1])
        elif op[0] == 'edge':
            g.add_edge(nm(op[1]), nm(op[2]))
            E.add((op[1], op[2]))
        elif op[0] == 'deledge':
            g.del_edge((nm(op[1]), nm(op[2])))
            E.discard((op[1], op[2]))
        else:
            g.del_node(nm(op[1]))
            nodes.discard(op[1])
            for e in list(E):
                if op[1] in e:
                    E.discard(e)


def check_labels(g, nm, nodes, want, ob, what):
    """want: node -> class representative"""
    lab = {i: g.get_node_attr(nm(i), 'component') for i in nodes}
    k = len(set(want.values()))
    ob.eq(g.num_components, k, what + ': number of components reported')
    ob.check(all(type(x) is int for x in lab.values()) and
             set(lab.values()) == set(range(k)),
             '%s: labels %r, expected 0..%d', what, lab, k - 1)
    m = {}
    for i in nodes:
        ob.check(m.setdefault(lab[i], want[i]) == want[i],
                 '%s: %r and %r share label %r but are in different '
                 'components', what, nm(i), nm(m[lab[i]]), lab[i])
    ob.ev('labelling checked')
    if k > 1:
        ob.ev('several classes')


def run(case, ob):
    n = case['n']
    nodes = set(range(n))
    E = {tuple(e[:2]) for e in case['edges']}
    nm = gen.namer(case['scheme'])
    g = gen.build(gimpy, case)
    for k, ops in enumerate([[]] + case['updates']):
        apply(g, nm, ops, nodes, E, False)
        if ops:
            ob.ev('after update')
        if not nodes:
            g.label_components()
            ob.eq(g.num_components, 0, 'components of the empty graph')
            ob.ev('empty graph')
            continue
        if k % 2:
            g.search(nm(min(nodes)), component=99)
        comp = oracle.undirected_components(sorted(nodes), E)
        if any(not any(i in e for e in E) for i in nodes):
            ob.ev('isolated node')
        g.label_components()
        check_labels(g, nm, nodes, comp, ob, 'label_components, call %d'
                     % (k + 1))
        ob.key(sorted(nodes), sorted(E), case['scheme'])
    ob.sample({'graph': case['edges'][:10], 'updates': case['updates']})


def reduce(case):
    u = case['updates']
    for i in range(len(u)):
        yield dict(case, updates=u[:i])
    if not any(u):
        yield from gen.shrink_graph(case)
