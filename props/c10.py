import gimpy
from mon import gen, oracle
from props import c09

PID = 'C10'
RULE = ('directed graphs of 16 shapes with loops and opposite arcs, all '
        'digraphs on 3 nodes and a third of those on 4; tarjan or '
        'label_strong_component, then updates and other algorithms, then '
        'again, up to 5 times; labels compared with pairwise reachability. '
        'Distinct by arc set, order and partition.')
QUICK, THOROUGH = 180000, 3600000
REQUIRED = {'large graph': 50, 'labelling checked': 5000, 'several classes': 2000,
            'after update': 2000, 'cross arcs between classes': 1000,
            'class of 3 or more': 1000, 'empty graph': 200}


def fixed(tier):
    for n in (3, 4):
        for k, es in enumerate(oracle.small_digraphs(n)):
            if n == 4 and tier == 'quick' and k % 3:
                continue
            yield {'dir': True, 'n': n, 'scheme': 'int', 'meth': k % 2,
                   'edges': [list(e) for e in es], 'updates': [[]]}


def gen_case(rng, i, tier):
    c = gen.graph_case(rng, tier, large=.004, directed=True, loops=.2,
                       shapes=gen.SHAPES + ['sparse', 'sparse', 'medium',
                                            'cycle', 'union', 'lollipop'])
    c['updates'] = c09.updates(rng, c['n'], True, c['edges'])
    c['meth'] = rng.randrange(4)
    return c


def run(case, ob):
    nodes = set(range(case['n']))
    E = {tuple(e[:2]) for e in case['edges']}
    nm = gen.namer(case['scheme'])
    g = gen.build(gimpy, case)
    for k, ops in enumerate([[]] + case['updates']):
        c09.apply(g, nm, ops, nodes, E, True)
        if ops:
            ob.ev('after update')
        if not nodes:
            g.label_strong_component()
            ob.eq(g.num_components, 0, 'components of the empty graph')
            ob.ev('empty graph')
            continue
        if k % 2 and case['meth'] > 1:
            g.search(nm(min(nodes)), component=99)
        sccs = oracle.strong_components(sorted(nodes), E)
        cls = {i: min(c) for c in sccs for i in c}
        if len(sccs) > 1 and any(cls[u] != cls[v] for (u, v) in E):
            ob.ev('cross arcs between classes')
        if any(len(c) > 2 for c in sccs):
            ob.ev('class of 3 or more')
        if case['meth'] % 2:
            g.tarjan()
        else:
            g.label_strong_component()
        c09.check_labels(g, nm, nodes, cls, ob, 'strong components, call %d'
                         % (k + 1))
        ob.key(sorted(nodes), sorted(E), case['scheme'], case.get('order'))
    ob.sample({'graph': case['edges'][:10], 'updates': case['updates']})


reduce = c09.reduce
