import copy
import random
import gimpy
from mon import algos, gen, snap, trees

PID = 'C34'
RULE = ('random graphs and networks (16 shapes) carrying extra node, edge '
        'and graph attributes and clusters, and random binary trees; every '
        'algorithm whose domain fits, in random sequences; structure, '
        'adjacency order and all caller attributes compared before and '
        'after each call. Distinct by graph and call sequence.')
QUICK, THOROUGH = 120000, 2400000
REQUIRED = dict({'call: ' + a['name']: 60 for a in algos.A},
                **{'snapshot compared': 15000, 'clusters present': 1000,
                   'missing capacity': 100, 'tree call': 1000,
                   'infeasible network': 50})
# attributes that algorithms own (they document or draw them)
OWNED = {'color', 'label', 'distance', 'component', 'flow', 'excess',
         'disc_time', 'finish_time', 'index', 'lowlink', 'potential', 'pred',
         'priority', 'visited', 'thread', 'depth'}
EXTRA_N = ['tag', 'note', 'shape', 'style', 'penwidth', 'height', 'pos',
           'weight', 'fontsize']
EXTRA_E = ['tag', 'note', 'style', 'penwidth', 'weight', 'len', 'fontcolor']


def value(rng):
    return rng.choice([0, 1, -3, 2.5, 'x', 'a b', '', None, [1, 2],
                       {'k': 1}, True])


def gen_case(rng, i, tier):
    if rng.random() < .08:
        c = trees.case(rng, tier, binary=True,
                       names=['int', 'str', 'neg', 'mixed', 'falsy'])
        c['kind'] = 'tree'
        c['seed'] = rng.randrange(10 ** 9)
        return c
    c = algos.universal(rng, tier)
    c['kind'] = 'graph'
    f = algos.Facts(c)
    if f.plain_net and rng.random() < .15:
        for e in c['edges']:
            if rng.random() < .4:
                e[2].pop('capacity', None)
    f = algos.Facts(c)
    c['calls'] = algos.draw(rng, f)
    c['seed'] = rng.randrange(10 ** 9)
    return c


def reduce(case):
    if case['kind'] == 'tree':
        yield from trees.shrink(case)
    else:
        yield from algos.shrink(case)


def decorate(rng, g, N):
    for n in N:
        for a in EXTRA_N:
            if rng.random() < .2:
                g.set_node_attr(n, a, value(rng))
    for (u, v) in g.get_edge_list():
        for a in EXTRA_E:
            if rng.random() < .2:
                g.set_edge_attr(u, v, a, value(rng))
    if rng.random() < .4 and len(N) > 1:
        k = rng.randint(1, len(N) - 1)
        g.create_cluster(list(N[:k]), {'color': 'red', 'note': [1]},
                         {'shape': 'box'})
        if rng.random() < .5:
            g.create_cluster(list(N[k:]), {'name': 'second'})
    g.attr['rankdir'] = 'LR'
    g.attr['note'] = [3, {'x': 4}]


def state(g):
    s = snap.structure(g)
    s['nattr'] = snap.node_attrs(g, OWNED)
    s['eattr'] = snap.edge_attrs(g, OWNED)
    s['gattr'] = snap.graph_attrs(g)
    s['cluster'] = copy.deepcopy(g.cluster)
    s['name'] = g.name
    return s


def compare(ob, before, after, what, owned_new=()):
    d = snap.diff(before, after)
    ob.check(d is None, '%s changed %s', what, d)
    ob.ev('snapshot compared')


def run_tree(case, ob):
    rng = random.Random(case['seed'])
    t = trees.build(gimpy, case)
    nm = gen.namer(case['scheme'])
    N = [nm(0)] + [nm(l[0]) for l in case['links']]
    decorate(rng, t, N)
    for _ in range(3):
        m = rng.choice(['dfs', 'bfs', 'traverse', 'print_nodes', 'printexp'])
        before = state(t)
        kw = {}
        if rng.random() < .4:
            kw['root'] = rng.choice(N)
        if m not in ('printexp',):
            kw['priority'] = rng.choice('LR')
        if m == 'print_nodes':
            kw['order'] = rng.choice(['pre', 'in', 'post'])
        getattr(t, m)(**kw)
        compare(ob, before, state(t), 'BinaryTree.%s(%r)' % (m, kw))
        ob.ev('tree call')
    ob.key(case['links'], case['scheme'], case['seed'])


def run(case, ob):
    if case['kind'] == 'tree':
        return run_tree(case, ob)
    rng = random.Random(case['seed'])
    f = algos.Facts(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(case['n'])]
    g = gen.build(gimpy, case, display='off', layout='dot')
    decorate(rng, g, N)
    if g.cluster:
        ob.ev('clusters present')
    for name, args in case['calls']:
        if not algos.BY_NAME[name]['domain'](f):
            continue
        before = state(g)
        res, att = algos.call(g, N, name, args)
        after = state(g)
        if 'flow' in name or 'preflow' in name:
            for e, a in before['eattr'].items():
                if 'capacity' not in a:
                    ob.ev('missing capacity')
                    filled = after['eattr'].get(e, {}).pop('capacity', None)
                    ob.check(filled in (None, 10000), '%s gave the edge %r '
                             'the capacity %r', name, e, filled)
        if name == 'find_feasible_flow' and not res:
            ob.ev('infeasible network')
        compare(ob, before, after, '%s %r' % (name, args))
        # a caller's view of capacities may have been completed
        ob.ev('call: ' + name)
        ob.sample({'call': [name, args], 'edges': case['edges'][:6]})
    ob.key(case['dir'], case['n'], case['scheme'], case['edges'],
           case['calls'])
