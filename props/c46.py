import contextlib
import io
import gimpy
from mon import algos, frames, gen, snap
from props import c34

PID = 'C46'
RULE = ('every algorithm on random graphs and networks, stopped by a fault '
        'at a random point: a display that raises at its k-th call, numbers '
        'that raise at their k-th comparison or sum, an attribute missing or '
        'no number on one element, a node that does not exist, an unknown '
        'algorithm or pivot; afterwards structure, adjacency and caller '
        'attributes must be as before, and with the fault removed the call '
        'must give what a graph without the fault gives. Distinct by graph, '
        'call and fault.')
QUICK, THOROUGH = 90000, 2000000
FAULTS = ['display', 'numbers', 'missing', 'spoiled', 'node', 'name']
REQUIRED = dict({'stopped by ' + f: 500 for f in FAULTS},
                **{'stopped: ' + a['name']: 20 for a in algos.A
                   if a['display']})
REQUIRED.update({'stopped: ' + n: 20 for n in (
    'find_feasible_flow', 'floyd_warshall', 'fifo_label_correcting',
    'acyclic_shortest_path', 'get_negative_cycle', 'residual graph')})
REQUIRED.update({'run after the fault': 15000, 'fault without effect': 100,
                 'display on during the fault': 2000})
# which node arguments there are
ARGS = ('s', 't', 'root')


class Broken(Exception):
    pass


class Fuse(object):
    def __init__(self, k):
        self.k = k

    def step(self):
        if self.k is not None:
            self.k -= 1
            if self.k < 0:
                raise Broken('number')


def numbers(fuse):
    """an int that takes part in the count of its operations"""
    class Num(int):
        pass

    def arith(op):
        f = getattr(int, op)

        def method(self, *a):
            fuse.step()
            r = f(self, *a)
            return Num(r) if type(r) is int else r
        return method

    def comp(op):
        f = getattr(int, op)

        def method(self, *a):
            fuse.step()
            return f(self, *a)
        return method
    for op in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'neg', 'abs'):
        setattr(Num, '__%s__' % op, arith('__%s__' % op))
    for op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'bool'):
        setattr(Num, '__%s__' % op, comp('__%s__' % op))
    Num.__hash__ = int.__hash__
    return Num


def gen_case(rng, i, tier):
    c = algos.universal(rng, tier, hi=7, big=9)
    f = algos.Facts(c)
    kind = rng.choice(FAULTS)
    # flows have the longest way to go
    net = [a for a in algos.A if 'flow' in a['name'] or a['name'] in
           ('cycle_canceling', 'network_simplex', 'residual graph')]
    pool = [a for a in algos.A if a['domain'](f) and
            (kind != 'display' or a['display'])]
    few = [a for a in pool if a in net]
    if not pool:
        pool = [algos.BY_NAME['get_degrees']]
    a = rng.choice(few if few and rng.random() < .4 else pool)
    c['call'] = [a['name'], a['draw'](rng, f)]
    c['show'] = a['display'] and rng.random() < .3
    if kind == 'display':
        c['fault'] = [kind, rng.choice([1, 2, 3, 4, 6, 9, 14, 20])]
    elif kind == 'numbers':
        c['fault'] = [kind, rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 40, 80])]
    elif kind in ('missing', 'spoiled'):
        c['fault'] = [kind, rng.choice(['cost', 'capacity', 'demand']),
                      rng.randrange(10 ** 6), rng.choice([None, 'x', [1]])]
    else:
        c['fault'] = [kind, rng.choice(ARGS), rng.choice([91, -5, 'none'])]
    return c


def reduce(case):
    if case['fault'][0] in ('display', 'numbers') and case['fault'][1] > 1:
        yield dict(case, fault=[case['fault'][0], case['fault'][1] - 1])
    yield from gen.drop_reducer(case)
    if case['scheme'] != 'int':
        yield dict(case, scheme='int')


def plain_values(g, case, N):
    for u, v, a in case['edges']:
        for k, x in a.items():
            g.set_edge_attr(N[u], N[v], k, x)
    for i, a in case.get('nattr', {}).items():
        for k, x in a.items():
            g.set_node_attr(N[int(i)], k, x)


def state(g):
    s = c34.state(g)
    s['gattr'].pop('display')
    return s


def inject(g, case, N, fuse):
    """put the fault in place; returns the arguments to call with and the
    names of nodes, or None if this fault does not exist here"""
    kind = case['fault'][0]
    name, args = case['call']
    if kind == 'numbers':
        Num = numbers(fuse)
        for u, v, a in case['edges']:
            for k, x in a.items():
                if type(x) is int:
                    g.set_edge_attr(N[u], N[v], k, Num(x))
        for i, a in case.get('nattr', {}).items():
            for k, x in a.items():
                if type(x) is int:
                    g.set_node_attr(N[int(i)], k, Num(x))
    elif kind in ('missing', 'spoiled'):
        _, attr, r, bad = case['fault']
        if attr == 'demand':
            have = sorted(case.get('nattr', {}))
            if not have:
                return None
            d = g.get_node(N[int(have[r % len(have)])]).attr
        else:
            have = [e for e in case['edges'] if attr in e[2]]
            if not have:
                return None
            e = have[r % len(have)]
            d = g.edge_attr[N[e[0]], N[e[1]]] if \
                (N[e[0]], N[e[1]]) in g.edge_attr else \
                g.edge_attr[N[e[1]], N[e[0]]]
        if kind == 'missing':
            d.pop(attr)
        else:
            d[attr] = bad
    elif kind == 'node':
        if case['fault'][1] not in args:
            return None
        M = list(N) + [case['fault'][2]]
        return dict(args, **{case['fault'][1]: len(N)}), M
    return args, N


def unknown(g, N, case):
    """requests with a name that means nothing"""
    name, a = case['call']
    s = N[a.get('s', 0)]
    t = N[a.get('t', -1)]
    if name.startswith('search') or name == 'Graph.bfs':
        return g.search(s, algo='none', **(
            {'display': 'file'} if case['show'] else {}))
    if name.startswith('preflow') or name.startswith('max_flow '):
        # two more ways to ask for something that is not there
        return g.max_flow(s, 'not a node')
    if name in ('network_simplex', 'min_cost_flow'):
        return g.min_cost_flow(algo='simplex', pivot='none')
    if name == 'floyd_warshall':
        ok, dist, nextn = g.floyd_warshall()
        if ok:
            return g.floyd_warshall_get_cycle(dist, nextn)
        return None
    if name == 'label_components' or name == 'get_degrees':
        if g.graph_type == gimpy.DIRECTED_GRAPH:
            return g.label_components()
        return g.create_residual_graph()
    return None


def run(case, ob):
    f = algos.Facts(case)
    name, args = case['call']
    if not algos.BY_NAME[name]['domain'](f):
        return
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(case['n'])]
    kind = case['fault'][0]
    used, fresh = gen.build(gimpy, case), gen.build(gimpy, case)
    fuse = Fuse(case['fault'][1] if kind == 'numbers' else None)
    got = inject(used, case, N, fuse)
    if got is None:
        return
    fargs, names = got
    k, fuse.k = fuse.k, None
    before = state(used)
    fuse.k = k
    what = '%s %r with %r' % (name, args, case['fault'])
    fr = frames.Frames(abort_at=case['fault'][1] if kind == 'display'
                       else None)
    show = kind == 'display' or case['show']
    stopped = None
    with frames.observe(gimpy, fr), \
            contextlib.redirect_stdout(io.StringIO()):
        try:
            if kind == 'name':
                unknown(used, N, case)
            else:
                algos.call(used, names, name, fargs,
                           {'display': 'file'} if show else {})
        except Exception as e:
            stopped = e
    fuse.k = None
    after = state(used)
    for e, x in before['eattr'].items():
        if 'capacity' not in x:
            # a missing capacity is completed
            filled = after['eattr'].get(e, {}).pop('capacity', None)
            ob.check(filled in (None, 10000), '%s gave the edge %r the '
                     'capacity %r', what, e, filled)
    d = snap.diff(before, after)
    ob.check(d is None, '%s %s, and changed %s', what, 'was stopped by %r' % (
        stopped,) if stopped else 'returned', d)
    if stopped:
        ob.ev('stopped by ' + kind)
        ob.ev('stopped: ' + name)
        if show:
            ob.ev('display on during the fault')
        ob.key(case['dir'], case['n'], case['edges'], case['call'],
               case['fault'])
    else:
        ob.ev('fault without effect')
    # without the fault everything is as if it had not been
    used.set_display_mode('off')
    plain_values(used, case, N)
    for u, v, x in case['edges']:
        if 'capacity' not in x:
            for e in ((N[u], N[v]), (N[v], N[u])):
                used.edge_attr.get(e, {}).pop('capacity', None)
    want = algos.call(fresh, N, name, args)
    again = algos.call(used, N, name, args)
    ob.eq(again, want, '%s %r after %r' % (name, args, case['fault']))
    ob.ev('run after the fault')
    ob.sample({'call': case['call'], 'fault': case['fault'],
               'stopped': repr(stopped)})
