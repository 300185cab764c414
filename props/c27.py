import copy
import random
import gimpy
from mon import gen, snap

PID = 'C27'
RULE = ('random argument combinations (both graph types, degree range or '
        'density, Euclidean or not, both node selections, formats, labels, '
        'length ranges, seeds); the graph produced is judged against its '
        'arguments and compared with twins made in a disturbed random state. '
        'Distinct by argument set.')
QUICK, THOROUGH = 36000, 720000
REQUIRED = {'twin compared': 10000,
            'random numbers of the caller intact': 10000, 'cost in range': 5000,
            'euclidean cost': 5000, 'closest': 500, 'density 1': 300,
            'density 0': 300, 'opposite arcs allowed': 300,
            'opposite arcs present': 200, 'labels': 3000, 'no labels': 500,
            'own formats': 1000, 'no length range': 500,
            'tied distances': 200, 'other seed': 1000,
            'density as asked': 200, 'degrees drawn from the range': 30,
            'costs drawn from the range': 100, 'coordinates spread': 200,
            'one node or none': 500}


def large_case(rng, d):
    """enough nodes for what is left to chance to be seen"""
    a = {'numnodes': rng.choice([40, 60, 80]), 'seedInput':
         rng.randrange(10 ** 6)}
    if rng.random() < .5:
        a['density'] = rng.choice([.2, .4, .5, .8])
    else:
        lo = rng.randint(0, 4)
        a['degree_range'] = [lo, lo + 1]
    if rng.random() < .5:
        a['Euclidean'] = rng.choice([True, 1])
        a['node_selection'] = rng.choice(['random', 'closest'])
        a['scale'] = rng.choice([1, 10, 100])
        a['length_range'] = None
    else:
        a['length_range'] = [3, 5]
    if d and rng.random() < .5:
        a['parallel_allowed'] = True
    return {'dir': d, 'args': a, 'large': True}


def gen_case(rng, i, tier):
    d = rng.random() < .6
    if rng.random() < .03:
        return large_case(rng, d)
    a = {'numnodes': rng.choice([2, 2, 3, 4, 6, 8, 10, 12])}
    if rng.random() < .04:
        a['numnodes'] = rng.randint(0, 1)
    r = rng.random()
    if r < .5:
        if rng.random() < .8:
            lo = rng.randint(0, 4)
            a['degree_range'] = [lo, lo + rng.randint(0, 4)]
    else:
        a['density'] = rng.choice([0, 1, 0.0, 1.0, .3, .5, .9])
        if rng.random() < .3:
            a['degree_range'] = None
    if rng.random() < .5:
        a['Euclidean'] = rng.choice([True, True, 1])
        if rng.random() < .6:
            a['node_selection'] = rng.choice(['random', 'closest'])
        if rng.random() < .5:
            a['scale'] = rng.choice([1, 5, 20, 100])
        if rng.random() < .5:
            a['scale_cost'] = rng.choice([0.1, .5, 1, 5, 20])
    r = rng.random()
    if r < .35:
        lo = rng.randint(-3, 10)
        a['length_range'] = [lo, lo + rng.choice([0, 1, 5, 100])]
    elif r < .65:
        a['length_range'] = None
    if rng.random() < .5:
        a['edge_format'] = rng.choice([{}, {'fontsize': 7},
                                       {'color': 'red', 'x': [1]}])
    if rng.random() < .5:
        a['node_format'] = rng.choice([{}, {'shape': 'box'},
                                       {'color': 'a b', 'y': {'k': 2}}])
    if rng.random() < .7:
        a['seedInput'] = rng.choice([0, 1, 2, 7, 13, rng.randrange(10 ** 6)])
    if rng.random() < .5:
        a['add_labels'] = rng.random() < .5
    if d and rng.random() < .5:
        a['parallel_allowed'] = rng.random() < .7
    return {'dir': d, 'args': a}


def reduce(case):
    for k in list(case['args']):
        if k != 'numnodes':
            a = dict(case['args'])
            a.pop(k)
            yield dict(case, args=a, large=False)
    if case['args']['numnodes'] > 2:
        yield dict(case, args=dict(case['args'],
                                   numnodes=case['args']['numnodes'] - 1),
                   large=False)


def make(case, cls=None):
    g = gimpy.Graph(type=gen.gtype(case['dir']))
    a = copy.deepcopy(case['args'])
    for k in ('degree_range', 'length_range'):
        if a.get(k) is not None:
            a[k] = tuple(a[k])
    given = copy.deepcopy(a)
    g.random(**a)
    return g, given == a


NODE_FORMAT = {'height': 0.5, 'width': 0.5, 'fixedsize': 'true',
               'fontsize': 10, 'fontcolor': 'red', 'shape': 'circle'}
EDGE_FORMAT = {'fontsize': 10, 'fontcolor': 'blue'}


def run(case, ob):
    a = case['args']
    d = case['dir']
    random.seed('before')
    mine = random.getstate()
    g, same = make(case)
    ob.check(same, 'random() changed its arguments')
    ob.check(random.getstate() == mine, 'random() drew from, or seeded, the '
             'generator of the caller')
    ob.ev('random numbers of the caller intact')
    random.seed('after')
    random.random()
    g2, _ = make(case)
    diff = snap.diff(snap.full(g), snap.full(g2))
    ob.check(diff is None, 'equal calls gave different graphs: %s', diff)
    ob.eq(g.to_string(), g2.to_string(), 'DOT text of two equal calls')
    ob.ev('twin compared')

    n = a['numnodes']
    if n < 2:
        ob.ev('one node or none')
    ob.eq(sorted(g.get_node_list()), list(range(n)), 'nodes')
    E = g.get_edge_list()
    eset = set(E)
    density = a.get('density')
    euclid = a.get('Euclidean', False)
    rng_len = a.get('length_range', [1, 10])
    labels = a.get('add_labels', True)
    selection = a.get('node_selection', 'closest')
    closest = euclid and density is None and selection == 'closest'
    nf = a.get('node_format', NODE_FORMAT)
    ef = a.get('edge_format', EDGE_FORMAT)
    if 'node_format' in a or 'edge_format' in a:
        ob.ev('own formats')
    for i in range(n):
        at = g.get_node(i).attr
        for k, v in nf.items():
            ob.check(k in at and at[k] == v, 'node %d has %s=%r, format %r',
                     i, k, at.get(k), v)
    pos = {}
    if euclid:
        sc = a.get('scale', 10)
        for i in range(n):
            x, y = (g.get_node_attr(i, 'location' + c) for c in 'xy')
            ob.check(0 <= x <= sc and 0 <= y <= sc, 'node %d at (%r, %r), '
                     'scale %r', i, x, y, sc)
            pos[i] = (x, y)
            p = g.get_node_attr(i, 'pos').strip('"').rstrip('!').split(',')
            ob.check(abs(float(p[0]) - x) < 1e-9 and
                     abs(float(p[1]) - y) < 1e-9,
                     'node %d: pos %r, coordinates (%r, %r)', i, p, x, y)
        other = dict(case, args=dict(a, seedInput=a.get('seedInput', 0) + 1))
        g3, _ = make(other)
        ob.check(n == 0 or any(g3.get_node_attr(i, 'locationx') != pos[i][0]
                               for i in range(n)),
                 'another seed gave the same coordinates')
        ob.ev('other seed')
    out = {i: 0 for i in range(n)}
    for (u, v) in E:
        ob.check(u != v, 'loop at %r', u)
        out[u] += 1
        at = g.edge_attr[u, v]
        for k, w in ef.items():
            ob.check(k in at and at[k] == w, 'edge %r has %s=%r, format %r',
                     (u, v), k, at.get(k), w)
        cost = None
        if euclid:
            if density is None or rng_len is None:
                cost = g.get_edge_attr(u, v, 'cost')
                f = a.get('scale_cost', 5) if density is None else 1
                dist = ((pos[u][0] - pos[v][0]) ** 2 +
                        (pos[u][1] - pos[v][1]) ** 2) ** .5 * f
                ob.check(isinstance(cost, int) and
                         abs(cost - dist) <= .5 + 1e-9, 'edge %r costs %r, '
                         'distance %r', (u, v), cost, dist)
                ob.ev('euclidean cost')
        elif rng_len is not None:
            cost = g.get_edge_attr(u, v, 'cost')
            ob.check(isinstance(cost, int) and
                     rng_len[0] <= cost <= rng_len[1],
                     'edge %r costs %r, range %r', (u, v), cost, rng_len)
            ob.ev('cost in range')
        else:
            ob.ev('no length range')
        if cost is not None:
            if labels:
                ob.check(at.get('label') == str(cost), 'edge %r of cost %r '
                         'is labelled %r', (u, v), cost, at.get('label'))
                ob.ev('labels')
            else:
                ob.check('label' not in at or at['label'] == ef.get('label'),
                         'edge %r got the label %r', (u, v), at.get('label'))
                ob.ev('no labels')
        if (v, u) in eset:
            ob.ev('opposite arcs present')
            ob.check(a.get('parallel_allowed', False) or closest,
                     'opposite arcs %r and back, not allowed', (u, v))
    if a.get('parallel_allowed'):
        ob.ev('opposite arcs allowed')
    if density is None:
        hi = (a.get('degree_range') or [2, 4])[1]
        ob.check(max(out.values(), default=0) <= hi, 'out-degrees %r, range %r', out,
                 a.get('degree_range', 'default'))
        if closest:
            ob.ev('closest')
            for (u, v) in E:
                dist = {w: (pos[u][0] - pos[w][0]) ** 2 +
                        (pos[u][1] - pos[w][1]) ** 2
                        for w in range(n) if w != u}
                near = sum(round(dist[w] ** .5 * a.get('scale_cost', 5)) <
                           g.get_edge_attr(u, v, 'cost') for w in dist)
                most = out[u] if d else hi
                ob.check(near < most, 'edge %r although %d nodes are closer, '
                         'degree up to %d', (u, v), near, most)
            lo = (a.get('degree_range') or [2, 4])[0]
            for u in range(n):
                have = sum(u in e for e in E) if not d else out.get(u, 0)
                ob.check(have >= min(lo, n - 1), 'node %r has %d neighbors, '
                         'degree range from %d, %d nodes', u, have, lo, n)
            if lo >= n - 1:
                ob.ev('degree asked beyond the nodes there are')
            f = a.get('scale_cost', 5)
            k = sum(round(((pos[u][0] - pos[v][0]) ** 2 +
                           (pos[u][1] - pos[v][1]) ** 2) ** .5 * f) == 0
                    for u in range(n) for v in range(u))
            if k:
                ob.ev('tied distances')
    elif density == 0:
        ob.eq(E, [], 'edges for density 0')
        ob.ev('density 0')
    elif density == 1:
        full = n * (n - 1) // (1 if d and a.get('parallel_allowed') else 2)
        ob.eq(len(E), full, 'number of edges for density 1')
        ob.ev('density 1')
    if case.get('large'):
        chance(ob, g, a, d, n, E, out, pos, closest)
    ob.key(d, sorted(a.items(), key=str))
    ob.sample({'directed': d, 'arguments': a, 'edges': E[:5]})


def chance(ob, g, a, d, n, E, out, pos, closest):
    """what holds up to a probability below 1e-10"""
    par = a.get('parallel_allowed', False)
    if 'density' in a:
        p, k = a['density'], n * (n - 1) // 2
        lo, hi = (2 * p * k, 2 * p * k) if d and par else \
            (p * k, (2 * p if d else p) * k)
        dev = 7 * (hi + 1) ** .5
        ob.check(lo - dev <= len(E) <= hi + dev, '%d edges on %d nodes of '
                 'density %r', len(E), n, p)
        ob.ev('density as asked')
    elif closest and d:
        lo, hi = a['degree_range']
        ob.eq(sorted(set(out.values())), [lo, hi], 'out-degrees drawn')
        ob.ev('degrees drawn from the range')
    elif a['degree_range'][1]:
        ob.check(max(out.values()) == a['degree_range'][1],
                 'no node has the degree %d', a['degree_range'][1])
    if a['length_range'] and len(E) > 150:
        ob.eq(sorted({g.get_edge_attr(u, v, 'cost') for u, v in E}),
              [3, 4, 5], 'costs drawn')
        ob.ev('costs drawn from the range')
    if pos:
        sc = a['scale']
        for c in (0, 1):
            z = [pos[i][c] / sc for i in pos]
            ob.check(min(z) < .5 < max(z) and len(set(z)) == n,
                     'coordinates %r of scale %r', z[:5], sc)
        ob.check(any(x != y for x, y in pos.values()), 'x and y are equal')
        ob.ev('coordinates spread')
