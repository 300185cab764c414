import gimpy
from mon import gen

PID = 'C02'
RULE = ('random histories (10-80 operations) mixing node and edge insertion '
        'with attributes, attribute writes through the graph and through the '
        'Node object, in both orientations of undirected edges, deletions '
        'and re-insertions; after every operation all attributes of all '
        'elements are read back and compared with a model dictionary. '
        'Non-trivial: a history with at least one overwrite, distinct by its '
        'operations.')
QUICK, THOROUGH = 12000, 300000
REQUIRED = {'large graph': 10,
            'full read-back': 1000, 'overwrite': 500, 're-add': 100,
            'reversed orientation write': 100,
            'overwrite by something equal': 200}
NAMES = ['color', 'label', 'cost', 'demand', 'my_attr', 'capacity']
VALUES = [0, 1, -3, 2.5, '', 'red', 'a b', None, True, [1, 2], 'x,y', 10000]
# equal, and not the same
ALIKE = [1, True, 1.0, 0, False, 0.0]


def rattrs(rng):
    return {a: rng.choice(VALUES) for a in
            rng.sample(NAMES, rng.randint(0, 3))}


def gen_case(rng, i, tier):
    d = rng.random() < .5
    n = rng.choice([2, 3, 4, 5]) if rng.random() < .996 else 40
    nodes, edges, ops = [], [], []

    def has(u, v):
        return (u, v) in edges or (not d and (v, u) in edges)
    for _ in range(rng.randint(10, 80) if n < 10 else
                   rng.randint(80, 240)):
        r = rng.random()
        u, v = rng.randrange(n), rng.randrange(n)
        a = rng.choice(NAMES)
        x = rng.choice(ALIKE if a == 'my_attr' and rng.random() < .8
                       else VALUES)
        if r < .15 and u not in nodes:
            ops.append(['node', u, rattrs(rng)])
            nodes.append(u)
        elif r < .35 and not has(u, v):
            ops.append(['edge', u, v, rattrs(rng)])
            edges.append((u, v))
            nodes += [w for w in dict.fromkeys((u, v)) if w not in nodes]
        elif r < .42 and edges:
            e = edges.pop(rng.randrange(len(edges)))
            if not d and rng.random() < .5:
                e = e[::-1]
            ops.append(['deledge', *e])
        elif r < .47 and nodes:
            w = nodes.pop(rng.randrange(len(nodes)))
            edges = [e for e in edges if w not in e]
            ops.append(['delnode', w])
        elif r < .7 and nodes:
            ops.append([rng.choice(['setn', 'setN']), rng.choice(nodes), a, x])
        elif edges:
            e = rng.choice(edges)
            flip = (not d) and rng.random() < .5
            ops.append(['sete', *(e[::-1] if flip else e), a, x])
    return {'dir': d, 'n': n, 'scheme': rng.choice(gen.SCHEMES), 'ops': ops}


def same(ob, got, want, what):
    ob.check(got == want and type(got) is type(want), '%s: got %r, expected '
             '%r', what, got, want)


def run(case, ob):
    d, n = case['dir'], case['n']
    nm = gen.namer(case['scheme'])
    g = gimpy.Graph(type=gen.gtype(d))
    na, ea = {}, {}
    gone = set()
    over = 0
    handles = {}

    def stored(u, v):
        return (u, v) if (u, v) in ea else (v, u)
    for k, op in enumerate(case['ops']):
        what = op[0]
        if what == 'node':
            handles[op[1]] = g.add_node(nm(op[1]), **op[2])
            na[op[1]] = dict(op[2])
        elif what == 'edge':
            u, v = op[1], op[2]
            g.add_edge(nm(u), nm(v), **op[3])
            if frozenset((u, v)) in gone:
                ob.ev('re-add')
            ea[u, v] = dict(op[3])
            for w in (u, v):
                if w not in na:
                    na[w] = {}
                    handles[w] = g.get_node(nm(w))
        elif what == 'deledge':
            g.del_edge((nm(op[1]), nm(op[2])))
            del ea[(op[1], op[2]) if d else stored(op[1], op[2])]
            gone.add(frozenset(op[1:]))
        elif what == 'delnode':
            g.del_node(nm(op[1]))
            del na[op[1]]
            ea = {e: x for e, x in ea.items() if op[1] not in e}
        elif what == 'setn':
            g.set_node_attr(nm(op[1]), op[2], op[3])
            over += op[2] in na[op[1]]
            x = na[op[1]].get(op[2])
            if x == op[3] and type(x) is not type(op[3]):
                ob.ev('overwrite by something equal')
            na[op[1]][op[2]] = op[3]
        elif what == 'setN':
            g.get_node(nm(op[1])).set_attr(op[2], op[3])
            over += op[2] in na[op[1]]
            na[op[1]][op[2]] = op[3]
        else:
            g.set_edge_attr(nm(op[1]), nm(op[2]), op[3], op[4])
            e = (op[1], op[2]) if d else stored(op[1], op[2])
            if e != (op[1], op[2]):
                ob.ev('reversed orientation write')
            over += op[3] in ea[e]
            ea[e][op[3]] = op[4]
        when = 'after operation %d %r' % (k, op)
        ob.ev('full read-back')
        for i, m in na.items():
            ob.check(g.get_node(nm(i)) is not None, '%s: node missing', when)
            for a in NAMES:
                same(ob, g.get_node_attr(nm(i), a), m.get(a),
                     '%s: node %r attribute %s' % (when, nm(i), a))
                same(ob, g.get_node(nm(i)).get_attr(a), m.get(a),
                     '%s: Node %r attribute %s' % (when, nm(i), a))
                same(ob, handles[i].get_attr(a) if i in handles else
                     m.get(a), m.get(a), '%s: earlier handle of node %r attribute %s'
                     % (when, nm(i), a))
        for (u, v), m in ea.items():
            for (x, y) in ((u, v),) if d else ((u, v), (v, u)):
                for a in NAMES:
                    if a in m:
                        got = g.get_edge_attr(nm(x), nm(y), a)
                        ob.check(got == m[a] and type(got) is type(m[a]),
                                 '%s: edge (%r, %r) attribute %s reads %r, '
                                 'set to %r', when, nm(x), nm(y), a, got, m[a])
                    else:
                        with ob.raises('%s: unset attribute %s of edge '
                                       '(%r, %r)' % (when, a, nm(x), nm(y)),
                                       KeyError):
                            g.get_edge_attr(nm(x), nm(y), a)
                if 'cost' in m:
                    ob.eq(g.get_edge_cost((nm(x), nm(y))), m['cost'],
                          '%s: get_edge_cost' % when)
    ob.ev('overwrite', over)
    if over:
        ob.key(case['ops'])
    ob.sample(case['ops'][:10])


def reduce(case):
    for i in range(len(case['ops'])):
        c = dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
        nodes, edges, ok = set(), set(), True
        for op in c['ops']:
            if op[0] == 'node':
                ok &= op[1] not in nodes
                nodes.add(op[1])
            elif op[0] == 'edge':
                e = (op[1], op[2])
                ok &= e not in edges and (c['dir'] or e[::-1] not in edges)
                edges.add(e)
                nodes |= set(e)
            elif op[0] in ('deledge', 'sete'):
                e = (op[1], op[2])
                if e not in edges and not c['dir']:
                    e = e[::-1]
                ok &= e in edges
                if op[0] == 'deledge':
                    edges.discard(e)
            elif op[0] == 'delnode':
                ok &= op[1] in nodes
                nodes.discard(op[1])
                edges = {e for e in edges if op[1] not in e}
            else:
                ok &= op[1] in nodes
        if ok:
            yield c
