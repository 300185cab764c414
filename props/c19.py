import gimpy
from mon import flow, frames, gen, oracle

PID = 'C19'
RULE = ('random networks (zero capacities, ties, negative costs, parallel '
        'augmenting paths) on which max_flow (DFS, BFS), preflow-push (three '
        'rules) and network simplex (two pivots) run with the display on; '
        'the display call is the observation point and the whole flow is '
        'read and judged at every frame. Distinct by network, algorithm and '
        'parameters.')
QUICK, THOROUGH = 80000, 1600000
REQUIRED = {'large graph': 15,
            'max_flow frame': 30000, 'frame in the middle of an augmentation':
            1000, 'preflow frame': 20000, 'frame with excess': 5000,
            'simplex frame': 10000, 'cost decreased': 1000,
            'flow taken back': 200, 'arc label': 50000,
            'valid distances': 10000, 'relabeled': 3000,
            'spanning tree shown': 5000, 'entering or leaving arc shown':
            2000, 'pushed': 10000, 'lifted': 3000, 'flow returned to the source':
            1000,
            'fractional flow shown': 300}


def gen_case(rng, i, tier):
    r = rng.random()
    if r < .45:
        mk = rng.choice([flow.matching, flow.matching, flow.crossing])
        c = mk(rng, tier) if rng.random() < .4 else \
            flow.network(rng, tier, large=.001)
        c['kind'] = 'max_flow'
        c['algo'] = rng.choice(['DFS', 'BFS'])
    elif r < .7:
        mk = rng.choice([flow.matching, flow.matching, flow.crossing])
        c = mk(rng, tier) if rng.random() < .3 else \
            flow.network(rng, tier, large=.001)
        c['kind'] = 'preflow'
        c['algo'] = rng.choice(['FIFO', 'SAP', 'HighestLabel'])
    else:
        c = flow.demand_network(rng, tier, connected=True, large=.001)
        c['kind'] = 'simplex'
        c['algo'] = rng.choice(['dantzig', 'first_eligible'])
        c['root'] = rng.randrange(c['n'])
    if c['kind'] != 'simplex' and 'st' not in c:
        if c['n'] < 2:
            c['n'], c['order'] = 2, [0, 1]
        c['st'] = list(flow.ends(rng, c['n']))
    return c


def reduce(case):
    if case['kind'] == 'simplex':
        for c in flow.shrink(case):
            if case['root'] < c['n'] and oracle.is_connected(
                    range(c['n']), [tuple(e[:2]) for e in c['edges']]):
                yield c
    else:
        yield from gen.drop_reducer(case)


def run(case, ob):
    nodes, E = gen.plain(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in nodes]
    g = gen.build(gimpy, case, display='file')
    cap = {e: a.get('capacity', flow.INF) for e, a in E.items()}
    kind, algo = case['kind'], case['algo']
    n = case['n']
    seen = {'n': 0}

    def current():
        return flow.read(g, N, E)

    def labels(f, what):
        for e in E:
            lab = g.edge_attr[(N[e[0]], N[e[1]])].get('label')
            if kind == 'simplex':
                ok = [lab] if flow.states(lab, f[e], cap[e], cost[e]) else []
                if f[e] != int(f[e]):
                    ob.ev('fractional flow shown')
            else:
                # the capacity that stands for no bound may be written so
                ok = ['%s/%s' % (c, f[e]) for c in [cap[e]] + (
                    ['INF'] if cap[e] == flow.INF else [])]
            ob.check(lab in ok, '%s: arc %r with flow %r of %r shows %r',
                     what, (N[e[0]], N[e[1]]), f[e], cap[e], lab)
        ob.ev('arc label', len(E))

    if kind == 'max_flow':
        s, t = case['st']
        last = {'value': 0, 'flow': None}

        def frame(which, highlight):
            if which is not g:
                return
            f = current()
            what = 'frame %d of max_flow %s' % (seen['n'], algo)
            seen['n'] += 1
            flow.check_bounds(ob, f, cap, N, what)
            bal = oracle.flow_balance(nodes, f)
            off = [i for i in nodes if i not in (s, t) and bal[i] != 0]
            ob.check(len(off) <= 1, '%s: flow not conserved at %r', what,
                     [N[i] for i in off])
            value = -bal[t]
            ob.check(value >= last['value'], '%s: the flow into the sink '
                     'fell from %r to %r', what, last['value'], value)
            last['value'] = value
            labels(f, what)
            ob.ev('max_flow frame')
            if off:
                ob.ev('frame in the middle of an augmentation')
            if last['flow'] is not None and any(
                    f[e] < last['flow'][e] for e in f):
                ob.ev('flow taken back')
            last['flow'] = f

        def call():
            g.max_flow(N[s], N[t], algo=algo)
    elif kind == 'preflow':
        s, t = case['st']
        # all nodes lead to the sink: distances are a valid labelling
        down = {}
        last = {'flow': None, 'dist': None}
        toward = len(oracle.reach(oracle.in_adj(nodes, E, True), t)) == \
            len(nodes)

        def step(f0, d0, f1, d1, what):
            """flow goes down one level; a node is lifted just enough"""
            room = [(e, cap[e] - f0[e]) for e in E] + \
                [(e[::-1], f0[e]) for e in E]
            for e in E:
                if f1[e] != f0[e]:
                    u, v = e if f1[e] > f0[e] else e[::-1]
                    ob.check(d0[u] == d0[v] + 1, '%s: flow was pushed from '
                             '%r at distance %r to %r at distance %r', what,
                             N[u], d0[u], N[v], d0[v])
                    have = -oracle.flow_balance(nodes, f0)[u]
                    left = dict(room)[u, v]
                    ob.check(abs(f1[e] - f0[e]) == min(have, left),
                             '%s: %r was pushed from %r with excess %r to '
                             '%r, capacity left %r', what,
                             abs(f1[e] - f0[e]), N[u], have, N[v], left)
                    ob.ev('pushed')
            for i in nodes:
                if d1[i] != d0[i]:
                    low = min([d0[v] for (u, v), x in room
                               if u == i and x > 0] + [2 * n + 1])
                    ob.check((d0[i] <= low or not toward) and
                             d1[i] == low + 1, '%s: %r was '
                             'lifted from %r to %r, lowest neighbor with '
                             'capacity left at %r', what, N[i], d0[i], d1[i],
                             low)
                    ob.ev('lifted')

        def frame(which, highlight):
            if which is not g:
                return
            f = current()
            what = 'frame %d of preflow push %s' % (seen['n'], algo)
            seen['n'] += 1
            flow.check_bounds(ob, f, cap, N, what)
            bal = oracle.flow_balance(nodes, f)
            some = False
            for i in nodes:
                x = g.get_node_attr(N[i], 'excess')
                ob.check(x == -bal[i], '%s: node %r has excess %r, inflow '
                         'minus outflow is %r', what, N[i], x, -bal[i])
                ob.check(x >= 0 or i == s, '%s: node %r has excess %r', what,
                         N[i], x)
                some = some or (x > 0 and i != t)
                if i == s and seen.get('out') and -x < seen['out']:
                    ob.ev('flow returned to the source')
                if i == s:
                    seen['out'] = -x
            if seen['n'] > 1:
                # the first frame is shown before the distances are known
                labels(f, what)
                dist = {i: g.get_node_attr(N[i], 'distance') for i in nodes}
                for i in nodes:
                    lab = g.get_node_attr(N[i], 'label')
                    want = '%s/%s' % (g.get_node_attr(N[i], 'excess'),
                                      dist[i])
                    ob.check(lab == want, '%s: node %r shows %r, expected %r',
                             what, N[i], lab, want)
                for e in E:
                    c = g.edge_attr[(N[e[0]], N[e[1]])].get('color')
                    want = 'red' if f[e] == cap[e] else \
                        'green' if f[e] > 0 else 'black'
                    ob.check(c == want, '%s: arc %r with flow %r of %r is '
                             '%r', what, e, f[e], cap[e], c)
                if last['flow'] is not None:
                    step(last['flow'], last['dist'], f, dist, what)
                last['flow'], last['dist'] = f, dist
                if toward:
                    for e in E:
                        for (u, v), room in ((e, cap[e] - f[e]),
                                             (e[::-1], f[e])):
                            ob.check(room <= 0 or dist[u] <= dist[v] + 1,
                                     '%s: distance %r of %r, but there is '
                                     'capacity left to %r at distance %r',
                                     what, dist[u], N[u], N[v], dist[v])
                    for i in down:
                        ob.check(dist[i] >= down[i], '%s: the distance of '
                                 '%r fell from %r to %r', what, N[i],
                                 down[i], dist[i])
                    if down and down != dist:
                        ob.ev('relabeled')
                    down.update(dist)
                    ob.check(dist[s] == len(nodes) and dist[t] == 0,
                             '%s: source and sink at distances %r and %r',
                             what, dist[s], dist[t])
                    ob.ev('valid distances')
            ob.ev('preflow frame')
            if some:
                ob.ev('frame with excess')

        def call():
            g.max_flow_preflowpush(N[s], N[t], algo=algo)
    else:
        nodes, E, cap, cost, dem = flow.demand_data(case)
        if not oracle.is_connected(nodes, list(E)):
            return
        last = {'cost': None}

        def frame(which, highlight):
            if which is not g:
                return
            f = current()
            what = 'frame %d of network simplex %s' % (seen['n'], algo)
            seen['n'] += 1
            flow.check_feasible(ob, nodes, f, cap, dem, N, what)
            c = sum(cost[e] * f[e] for e in f)
            if last['cost'] is not None:
                ob.check(c <= last['cost'], '%s: the cost rose from %r to '
                         '%r', what, last['cost'], c)
                if c < last['cost']:
                    ob.ev('cost decreased')
            last['cost'] = c
            labels(f, what)
            tint = {e: g.edge_attr[(N[e[0]], N[e[1]])].get('color')
                    for e in E}
            tree = [e for e in E if tint[e] == 'blue']
            others = [e for e in E if tint[e] in ('green', 'red')]
            ob.check(oracle.is_forest(nodes, tree) and
                     n - 2 <= len(tree) <= n - 1 and
                     len(tree) + len(others) >= n - 1 and len(others) <= 2,
                     '%s: blue arcs %r, marked arcs %r are no spanning tree '
                     'and its change', what, tree, others)
            if others:
                ob.ev('entering or leaving arc shown')
            else:
                ob.ev('spanning tree shown')
            ob.ev('simplex frame')

        def call():
            g.network_simplex('file', algo, N[case['root']])
    with frames.observe(gimpy, frames.Frames(frame)):
        call()
    if seen['n']:
        ob.key(kind, algo, case['n'], case['edges'], case.get('st'),
               case.get('root'), sorted(case.get('nattr', {}).items(),
                                        key=str))
        ob.sample({'algorithm': [kind, algo], 'frames': seen['n'],
                   'edges': case['edges'][:6]})
