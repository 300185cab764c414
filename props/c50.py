import decimal
import random
from fractions import Fraction

import numpy
import gimpy
from mon import algos, gen

PID = 'C50'
RULE = ('twin execution: one call of an algorithm on a graph and on the same '
        'graph with all costs multiplied by one positive number, all '
        'capacities and demands by another, each written as int, Fraction, '
        'float, Decimal or numpy number where that is exact; data that are '
        'arbitrary floats (rounded sums included) are multiplied by powers '
        'of two; Kruskal and Prim also run on costs changed by a random '
        'increasing map. The structure of the results must be equal, and '
        'flows, excesses, distances, capacities and costs in them multiplied '
        'exactly. Distinct by graph, factors, types and call.')
QUICK, THOROUGH = 120000, 3600000
TYPES = ['int', 'frac', 'frac', 'float', 'float', 'dec', 'np']
FACTORS = [[2, 1], [3, 1], [1000, 1], [10 ** 12, 1], [1, 4], [1, 2 ** 30],
           [2 ** 20, 1], [1, 3], [7, 5], [1, 10 ** 9], [1, 1], [1, 10],
           [1, 2 ** 10], [2 ** 40, 1], [1, 2 ** 45]]
POWERS = [f for f in FACTORS if 1 in f and all(x & (x - 1) == 0 for x in f)]
TYPED = ['search Dijkstra', 'search Prim', 'minimum_spanning_tree_kruskal',
         'minimum_spanning_tree_prim', 'max_flow DFS', 'max_flow BFS',
         'preflowpush FIFO', 'preflowpush SAP', 'preflowpush HighestLabel',
         'find_feasible_flow', 'residual graph', 'cycle_canceling',
         'network_simplex', 'min_cost_flow', 'floyd_warshall',
         'get_negative_cycle', 'fifo_label_correcting',
         'acyclic_shortest_path']
# decisions that only compare costs
ORDINAL = ['search Prim', 'minimum_spanning_tree_kruskal',
           'minimum_spanning_tree_prim']
# these may stop only after ever smaller steps when sums are rounded
EXACT = ['cycle_canceling', 'network_simplex', 'min_cost_flow',
         'find_feasible_flow', 'residual graph']
REQUIRED = dict({'compared: ' + n: 800 for n in TYPED},
                **{'rounded data: ' + n: 100 for n in TYPED
                   if n not in EXACT},
                **{'increasing map: ' + n: 500 for n in ORDINAL},
                **{'costs as ' + t: 1500 for t in TYPES},
                **{'capacities as ' + t: 1500 for t in TYPES},
                **{'costs are fractions': 3000, 'flow multiplied': 5000,
                   'fractional flow': 2000, 'distance multiplied': 5000,
                   'flow of minimum cost compared': 2000})


def defined(name, f):
    # an arc without a capacity has gimpy's own number
    return algos.BY_NAME[name]['domain'](f) and (f.caps or 'flow' not in name)


def rounded(c, rng):
    """the case with arbitrary floats as costs and capacities; negative
    costs on acyclic graphs only, where no cycle can be negative by rounding
    alone"""
    es = []
    low = algos.Facts(c).acyclic
    for e in c['edges']:
        a = dict(e[2])
        for k in a:
            x = rng.random()
            a[k] = rng.choice([x, x * 100, x / 1000, .1, .2, .3, .7])
            if k == 'cost' and low and rng.random() < .3:
                a[k] = -a[k]
        es.append([e[0], e[1], a])
    return dict(c, edges=es)


def gen_case(rng, i, tier):
    while True:
        r = rng.random()
        loose = rng.random() < .25
        if r < .2:
            c = gen.graph_case(rng, tier, directed=True,
                               anti=rng.choice([0, .3]),
                               attrs=gen.cost_attrs(['neg', 'negwide',
                                                     'small']), hi=7, big=10)
            c['nattr'] = {}
        else:
            c = algos.universal(rng, tier)
            for _ in range(2):
                if c['nattr'] or r < .5:
                    break
                c = algos.universal(rng, tier)
        if loose:
            c = rounded(c, rng)
        f = algos.Facts(c)
        pool = [n for n in TYPED if defined(n, f) and
                not (loose and n in EXACT)]
        if pool:
            break
    n = rng.choice([n for n in pool if n in EXACT] or pool) \
        if rng.random() < .3 else rng.choice(pool)
    if loose:
        return dict(c, call=[n, algos.BY_NAME[n]['draw'](rng, f)],
                    cost=rng.choice(POWERS), cap=rng.choice(POWERS),
                    ctype='float', ftype='float', loose=True)
    c = dict(c, call=[n, algos.BY_NAME[n]['draw'](rng, f)],
             cost=rng.choice(FACTORS), cap=rng.choice(FACTORS),
             ctype=rng.choice(TYPES), ftype=rng.choice(TYPES))
    if n in ORDINAL and rng.random() < .6:
        c['map'] = rng.randrange(10 ** 6)
    return c


def write(x, t):
    """the number x, exactly, as the type; None if it has no such form in
    which sums of a few of them are exact as well"""
    if t == 'frac':
        return x
    p, q = x.numerator, x.denominator
    if t == 'int':
        return int(x) if q == 1 else None
    if t == 'np':
        return numpy.int64(p) if q == 1 and abs(p) < 2 ** 40 else None
    if t == 'dec':
        d = decimal.Decimal(p) / q
        return d if abs(p) < 2 ** 40 and Fraction(d) == x and \
            len(d.as_tuple().digits) < 16 else None
    return float(x) if Fraction(float(x)) == x and abs(p) < 2 ** 40 else None


def rewritten(case, f):
    """the case with every cost, capacity and demand x replaced by
    f(x, 'c' or 'f')"""
    es = []
    for e in case['edges']:
        a = dict(e[2]) if len(e) > 2 else {}
        for k, w in (('cost', 'c'), ('capacity', 'f')):
            if k in a:
                a[k] = f(Fraction(a[k]), w)
        es.append([e[0], e[1], a])
    na = {i: dict(a, **({'demand': f(Fraction(a['demand']), 'f')}
                        if 'demand' in a else {}))
          for i, a in case.get('nattr', {}).items()}
    return dict(case, edges=es, nattr=na)


def scaled(case):
    by = {'c': Fraction(*case['cost']), 'f': Fraction(*case['cap'])}
    typ = {'c': case['ctype'], 'f': case['ftype']}
    vals = {'c': [], 'f': []}
    rewritten(case, lambda x, w: vals[w].append(x) or x)
    if case.get('loose'):
        # multiplied by powers of two: the roundings are the same
        return rewritten(case, lambda x, w: float(x * by[w])), by, typ
    if 'map' in case:
        rng = random.Random(case['map'])
        known = sorted(set(vals['c']))
        steps = [Fraction(rng.randint(1, 9), rng.choice([1, 1, 4, 2 ** 30]))
                 for _ in known]
        start = Fraction(rng.choice([0, 0, 5, 10 ** 6]))
        to = {x: start + sum(steps[:k]) for k, x in enumerate(known)}
        move = lambda x, w: to[x] if w == 'c' else x
    else:
        move = lambda x, w: x * by[w]
    for w in 'cf':
        if any(write(move(x, w), typ[w]) is None for x in vals[w]):
            typ[w] = 'frac'
    return rewritten(case, lambda x, w: write(move(x, w), typ[w])), by, typ


def times(x, f, ob, what):
    """the dictionary with the numbers multiplied"""
    out = {}
    for k, v in x.items():
        if v is None or isinstance(v, (bool, str)) or v in (
                float('inf'), -float('inf')):
            out[k] = v
        else:
            out[k] = Fraction(v) * f
    ob.ev(what + ' multiplied')
    return out


def expected(name, r, by, ob):
    c, f = by['c'], by['f']
    r, att = r
    att = dict(att)
    if att.get('flow') is not None:
        att['flow'] = times(att['flow'], f, ob, 'flow')
        if any(x.denominator > 1 for x in att['flow'].values()):
            ob.ev('fractional flow')
    if 'excess at the sink' in att:
        att['excess at the sink'] = Fraction(att['excess at the sink']) * f
    if name == 'residual graph' and r:
        r = {e: (a * f, b * c) for e, (a, b) in r.items()}
    elif name == 'floyd_warshall' and r is not False:
        r = (r[0], times(r[1], c, ob, 'distance'))
    elif name == 'fifo_label_correcting' and att['distance']:
        att['distance'] = times(att['distance'], c, ob, 'distance')
    return r, att


def perform(case, ob, what):
    g = gen.build(gimpy, case)
    nm = [gen.name(case['scheme'], i) for i in range(case['n'])]
    name, args = case['call']
    try:
        return algos.call(g, nm, name, args)
    except Exception as e:
        ob.fail('%s raised %s: %s', what, type(e).__name__, e)


def run(case, ob):
    name, args = case['call']
    f = algos.Facts(case)
    if not defined(name, f):
        return
    one = perform(case, ob, '%s %r' % (name, args))
    other, by, typ = scaled(case)
    how = '%s %r with costs %s as %s, capacities times %s as %s' % (
        name, args, 'in the same order' if 'map' in case else
        'times %s' % by['c'], typ['c'], by['f'], typ['f'])
    two = perform(other, ob, how)
    want = expected(name, one, by, ob)
    ob.check(two == want, '%s: %r, expected %r', how, two, want)
    ob.ev('compared: ' + name)
    if case.get('loose'):
        ob.ev('rounded data: ' + name)
    else:
        ob.ev('costs as ' + typ['c'])
        ob.ev('capacities as ' + typ['f'])
        if any(Fraction(e[2].get('cost', 0)).denominator > 1
               for e in other['edges']):
            ob.ev('costs are fractions')
        if 'map' in case:
            ob.ev('increasing map: ' + name)
        if name in EXACT[:3] and one[0] is not False:
            ob.ev('flow of minimum cost compared')
    ob.key(case['edges'], case['call'], case['cost'], case['cap'],
           typ['c'], typ['f'])
    ob.sample({'call': case['call'], 'how': how})


def reduce(case):
    yield from gen.drop_reducer(case)
    for k in ('cost', 'cap'):
        for v in ([1, 1], [2, 1], [1, 3]):
            if case[k] != v and not case.get('loose'):
                yield dict(case, **{k: v})
    if case['scheme'] != 'int':
        yield dict(case, scheme='int')
