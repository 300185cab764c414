import gimpy
from mon import gen, oracle

PID = 'C26'
RULE = ('random graphs with and without loops (16 shapes, sparse to complete, '
        'disconnected, all graphs on 4 and digraphs on 3 nodes) and random '
        'update histories on them; degree dictionaries and diameter compared '
        'with counts over the edge set and hop distances after every few '
        'updates. Distinct by edge set.')
QUICK, THOROUGH = 36000, 800000
REQUIRED = {'large graph': 10,
            'degrees compared': 20000, 'in/out degrees compared': 10000,
            'diameter compared': 8000, 'disconnected': 2000,
            'diameter above 2': 1000, 'after updates': 10000,
            'empty graph': 20, 'loop': 2000}


def fixed(tier):
    for es in oracle.small_graphs(4):
        yield {'dir': False, 'n': 4, 'scheme': 'int',
               'edges': [list(e) for e in es], 'ops': [], 'attr': True}
    for es in oracle.small_digraphs(3):
        yield {'dir': True, 'n': 3, 'scheme': 'str',
               'edges': [list(e) for e in es], 'ops': [], 'attr': True}
    yield {'dir': False, 'n': 0, 'scheme': 'int', 'edges': [], 'ops': [],
           'attr': False}


def gen_case(rng, i, tier):
    large = rng.random() < .002
    c = gen.graph_case(rng, tier, hi=8, big=14, loops=.2,
                       **({'n': rng.randint(15, 45), 'shapes': gen.THIN}
                          if large else {}))
    ops = []
    for _ in range(rng.choice([0, 1, 3] if large else [0, 0, 3, 8, 20])):
        n = c['n'] + 2
        k = rng.choice(['add edge', 'add edge', 'del edge', 'del node',
                        'add node', 'look'])
        ops.append([k, rng.randrange(n), rng.randrange(n)])
    c['ops'] = ops
    # with and without the type given to the constructor
    c['attr'] = rng.random() < .7
    return c


def reduce(case):
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
    yield from gen.drop_reducer(case)


def look(ob, g, d, nodes, E, nm, updated):
    N = {i: nm(i) for i in nodes}
    inn = {N[i]: sum(e[1] == i for e in E) for i in nodes}
    out = {N[i]: sum(e[0] == i for e in E) for i in nodes}
    deg = {x: inn[x] + out[x] for x in inn}
    ob.eq(g.get_degrees(), deg, 'get_degrees')
    ob.ev('degrees compared')
    if updated:
        ob.ev('after updates')
    if not nodes:
        ob.ev('empty graph')
    if any(u == v for (u, v) in E):
        ob.ev('loop')
    if d:
        ob.eq(g.get_in_degrees(), inn, 'get_in_degrees')
        ob.eq(g.get_out_degrees(), out, 'get_out_degrees')
        ob.ev('in/out degrees compared')
    elif nodes:
        adj = oracle.out_adj(nodes, E, False)
        far = 0
        for i in nodes:
            h = oracle.hop_distances(adj, i)
            if len(h) < len(nodes):
                far = 'infinity'
                break
            far = max(far, max(h.values()))
        got = g.get_diameter()
        ob.eq(got, far, 'get_diameter')
        ob.ev('diameter compared')
        if far == 'infinity':
            ob.ev('disconnected')
        elif far > 2:
            ob.ev('diameter above 2')
    ob.key(d, sorted(nodes), sorted(E))


def run(case, ob):
    d = case['dir']
    nm = gen.namer(case['scheme'])
    if not d and not case['attr']:
        g = gimpy.Graph()
        for i in case.get('order', range(case['n'])):
            g.add_node(nm(i))
        for e in case['edges']:
            g.add_edge(nm(e[0]), nm(e[1]))
    else:
        g = gen.build(gimpy, case)
    nodes = set(range(case['n']))
    E = {(e[0], e[1]) for e in case['edges']}
    look(ob, g, d, nodes, E, nm, False)
    done = 0
    for k, u, v in case['ops']:
        if k == 'add edge':
            if (u, v) in E or (not d and (v, u) in E):
                continue
            g.add_edge(nm(u), nm(v))
            E.add((u, v))
            nodes |= {u, v}
        elif k == 'del edge':
            if not E:
                continue
            e = sorted(E)[u % len(E)]
            f = e[::-1] if not d and v % 2 else e
            g.del_edge((nm(f[0]), nm(f[1])))
            E.discard(e)
        elif k == 'del node':
            if u not in nodes:
                continue
            g.del_node(nm(u))
            nodes.discard(u)
            E = {e for e in E if u not in e}
        elif k == 'add node':
            if u in nodes:
                continue
            g.add_node(nm(u))
            nodes.add(u)
        else:
            look(ob, g, d, nodes, E, nm, True)
        done += 1
    if done:
        look(ob, g, d, nodes, E, nm, True)
    ob.sample({'edges': sorted(E)[:8], 'directed': d})
