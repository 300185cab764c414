"""Networks for the flow properties and monitors of flows."""
from . import gen, oracle

INF = 10000


def network(rng, tier, capkinds=None, hi=8, big=12, **kw):
    """a directed network without loops and opposite arcs; some arcs may have
    no capacity attribute"""
    c = gen.graph_case(rng, tier, directed=True, hi=hi, big=big, anti=0,
                       shapes=kw.pop('shapes', None) or
                       gen.SHAPES + ['dense', 'layered', 'dag', 'complete',
                                     'grid', 'medium'], **kw)
    f = gen.caps(rng, rng.choice(capkinds) if capkinds else None)
    miss = rng.random() < .12
    for e in c['edges']:
        a = {} if miss and rng.random() < .3 else {'capacity': f()}
        if rng.random() < .15:
            # something an earlier run might have left behind
            a['flow'] = rng.choice([0, 1, 5, -3])
        e.append(a)
    return c


def matching(rng, tier):
    """layered networks with small capacities, on which augmenting paths have
    to take flow back; the ends are in c['st']"""
    layers = rng.choice([2, 2, 2, 3])
    w = rng.randint(2, 5 if tier == 'quick' else 7)
    n = layers * w + 2
    s, t = n - 2, n - 1
    p = rng.choice([.3, .45, .6])
    es = []
    unit = rng.random() < .6

    def cap():
        return {'capacity': 1 if unit else rng.randint(1, 3)}
    for l in range(layers - 1):
        for i in range(w):
            for j in range(w):
                if rng.random() < p:
                    es.append([l * w + i, (l + 1) * w + j, cap()])
    es += [[s, i, cap()] for i in range(w)]
    es += [[(layers - 1) * w + j, t, cap()] for j in range(w)]
    order = list(range(n))
    rng.shuffle(order)
    rng.shuffle(es)
    return {'dir': True, 'n': n, 'scheme': rng.choice(gen.SCHEMES),
            'order': order, 'edges': es, 'st': [s, t]}


def crossing(rng, tier):
    """networks with a middle arc that short paths use and longer ones give
    back, all of it or a part; the ends are in c['st']"""
    es, new = [], [4]
    s, t, a, b = range(4)

    def chain(u, v, k):
        for j in range(k):
            w = v if j == k - 1 else new[0]
            if w != v:
                new[0] += 1
            es.append([u, w, {'capacity': rng.choice([1, 1, 2, 2, 3, 5])}])
            u = w
    full = rng.randint(1, 5)
    for u, v in ((s, a), (a, b), (b, t)):
        es.append([u, v, {'capacity': full if rng.random() < .8
                          else rng.randint(1, 5)}])
    for _ in range(rng.choice([1, 1, 2])):
        chain(s, b, rng.randint(1, 4) if [s, b] not in
              [e[:2] for e in es] else rng.randint(2, 4))
        chain(a, t, rng.randint(1, 4) if [a, t] not in
              [e[:2] for e in es] else rng.randint(2, 4))
    n = new[0]
    have = {tuple(e[:2]) for e in es}
    for _ in range(rng.choice([0, 0, 1, 3])):
        u, v = rng.sample(range(n), 2)
        if (u, v) not in have and (v, u) not in have:
            have.add((u, v))
            es.append([u, v, {'capacity': rng.randint(0, 3)}])
    to = list(range(n))
    rng.shuffle(to)
    rng.shuffle(es)
    return {'dir': True, 'n': n, 'scheme': rng.choice(gen.PLAIN),
            'order': gen.node_order(rng, n),
            'edges': [[to[u], to[v], x] for u, v, x in es],
            'st': [to[s], to[t]]}


def ends(rng, n):
    s = rng.randrange(n)
    t = rng.randrange(n - 1)
    return s, t + (t >= s)


def fractional(case):
    return any(isinstance(e[2].get('capacity'), float) and
               e[2]['capacity'] % 1 for e in case['edges'])


def part(rng, c):
    """a random amount between 0 and c, in units or eighths"""
    if isinstance(c, float):
        if c < 1 / 8:
            return rng.randint(0, 8) * c / 8
        return rng.randint(0, int(c * 8)) / 8
    return rng.randint(0, c)


def read(g, N, E):
    return {(u, v): g.get_edge_attr(N[u], N[v], 'flow') for (u, v) in E}


def check_bounds(ob, flow, cap, N, what):
    for e, f in flow.items():
        ob.check(isinstance(f, (int, float)) and 0 <= f <= cap[e],
                 '%s: flow %r on arc (%r, %r) of capacity %r', what, f,
                 N[e[0]], N[e[1]], cap[e])


def check_max(ob, nodes, flow, cap, s, t, N, what):
    """bounds, conservation, and a saturated cut as certificate"""
    check_bounds(ob, flow, cap, N, what)
    bal = oracle.flow_balance(nodes, flow)
    for i in nodes:
        if i not in (s, t):
            ob.check(bal[i] == 0, '%s: node %r sends %r more than it '
                     'receives', what, N[i], bal[i])
    value = bal[s]
    ob.check(value == -bal[t] and value >= 0,
             '%s: source sends %r, sink receives %r', what, value, -bal[t])
    res = {i: [] for i in nodes}
    for (u, v), f in flow.items():
        if f < cap[u, v]:
            res[u].append(v)
        if f > 0:
            res[v].append(u)
    side = oracle.reach(res, s)
    ob.check(t not in side, '%s: flow of value %r can be augmented', what,
             value)
    cut = sum(c for (u, v), c in cap.items() if u in side and v not in side)
    ob.eq(value, cut, what + ': value against the cut')
    if value > 0:
        ob.ev('positive flow')
    if len(side) not in (1, len(nodes) - 1):
        ob.ev('inner minimum cut')
    back = [e for e in cap if e[1] in side and e[0] not in side]
    if back:
        ob.ev('arcs back over the cut')
    ob.ev('maximum flow checked')
    return value


def demand_network(rng, tier, connected=False, n=None, costkinds=None,
                   capkinds=None, hi=8, big=10, large=0.0):
    """network with integer costs and capacities and node demands; 'kind'
    tells how the demands were made"""
    shapes = gen.SHAPES + ['dense', 'complete', 'medium', 'grid', 'layered']
    if large and not n and rng.random() < large:
        n, shapes = min(40, gen.large_size(rng, tier)), gen.THIN
    n = n or max(1, gen.size(rng, tier, hi, big))
    es = gen.pairs(rng, n, rng.choice(shapes), True, anti=0)
    if connected:
        comp = oracle.undirected_components(range(n), [tuple(e) for e in es])
        reps = sorted(set(comp.values()))
        for a, b in zip(reps, reps[1:]):
            es.append([a, b] if rng.random() < .5 else [b, a])
    cap = gen.caps(rng, rng.choice(capkinds or ['unit', 'small', 'small',
                                                'zero', 'wide', 'mixed',
                                                'inf']))
    cost = gen.costs(rng, rng.choice(costkinds or ['ties', 'small', 'wide',
                                                   'zero', 'unit', 'neg',
                                                   'neg', 'negwide']))
    edges = [[u, v, {'capacity': cap(), 'cost': cost()}] for (u, v) in es]
    kind = rng.choice(['flow', 'flow', 'flow', 'tight', 'random', 'zero',
                       'unbalanced', 'pair'])
    b = [0] * n
    if kind in ('flow', 'tight'):
        for (u, v, a) in edges:
            c = min(a['capacity'], 60)
            f = c if kind == 'tight' else (rng.randint(0, c)
                                           if rng.random() < .6 else 0)
            b[u] += f
            b[v] -= f
    elif kind == 'random':
        for _ in range(n):
            u, v, f = rng.randrange(n), rng.randrange(n), rng.randint(0, 4)
            b[u] += f
            b[v] -= f
    elif kind == 'pair' and n > 1:
        u, v = rng.sample(range(n), 2)
        f = rng.randint(1, 8)
        b[u] += f
        b[v] -= f
    elif kind == 'unbalanced':
        for (u, v, a) in edges:
            f = rng.randint(0, min(a['capacity'], 9))
            b[u] += f
            b[v] -= f
        b[rng.randrange(n)] += rng.choice([-1, 1, 2])
    if rng.random() < .06:
        # other units: larger than any sentinel
        q = rng.choice([1000, 10 ** 6, 10 ** 12])
        for e in edges:
            e[2]['capacity'] *= q
        b = [x * q for x in b]
    elif rng.random() < .15:
        # binary fractions: sums and differences stay exact
        q = rng.choice([2, 4, 8, 2 ** 30])
        for e in edges:
            e[2]['capacity'] /= q
        b = [x / q for x in b]
    if rng.random() < .15:
        q = rng.choice([2, 4, 8, 2 ** 30])
        for e in edges:
            e[2]['cost'] /= q
    return {'dir': True, 'n': n, 'scheme': rng.choice(gen.SCHEMES),
            'order': gen.node_order(rng, n), 'edges': edges,
            'nattr': {str(i): {'demand': b[i]} for i in range(n)},
            'kind': kind}


def states(label, *numbers):
    """the label gives these numbers, divided by slashes"""
    try:
        return isinstance(label, str) and \
            [float(x) for x in label.split('/')] == [float(x) for x in numbers]
    except ValueError:
        return False


def demand_data(case):
    nodes, E = gen.plain(case)
    cap = {e: a['capacity'] for e, a in E.items()}
    cost = {e: a['cost'] for e, a in E.items()}
    dem = {i: case['nattr'][str(i)]['demand'] for i in nodes}
    return nodes, E, cap, cost, dem


def check_feasible(ob, nodes, flow, cap, dem, N, what):
    check_bounds(ob, flow, cap, N, what)
    bal = oracle.flow_balance(nodes, flow)
    for i in nodes:
        ob.check(bal[i] == dem[i], '%s: node %r has outflow - inflow %r, '
                 'demand attribute %r', what, N[i], bal[i], dem[i])


def shrink(case):
    """smaller networks; the demands stay"""
    yield from gen.drop_reducer(case)
    n = case['n']
    used = {x for e in case['edges'] for x in e[:2]}
    if n > 1 and n - 1 not in used:
        c = dict(case, n=n - 1)
        c['order'] = [i for i in case['order'] if i != n - 1]
        c['nattr'] = {k: v for k, v in case['nattr'].items()
                      if k != str(n - 1)}
        yield c
    for i in range(n):
        for j in range(n):
            a, b = (case['nattr'][str(k)]['demand'] for k in (i, j))
            if i != j and a > 0 and b < 0:
                m = min(a, -b)
                na = dict(case['nattr'])
                na[str(i)] = {'demand': a - m}
                na[str(j)] = {'demand': b + m}
                yield dict(case, nattr=na)
    if case['scheme'] != 'int':
        yield dict(case, scheme='int')
