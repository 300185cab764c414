import contextlib
import sys
import threading
import gimpy
from mon import frames, gen, overlap, snap
from props import c04

PID = 'C49'
RULE = ('2-4 operation lists (updates, attributes, clusters, every algorithm '
        'with the display off, observed or raising, trees, disjoint sets, '
        'generated graphs), each on its own graph, run in threads of which '
        'one at a time goes on; the one to go on is drawn at line or '
        'bytecode boundaries inside the code under test. Also several '
        'threads that only ask one and the same graph. Results, printed '
        'text, frames shown and final states must be those of each list run '
        'alone. Distinct by interleaving taken.')
QUICK, THOROUGH = 4000, 100000
REQUIRED = dict({'actor: ' + k: 200 for k in c04.KINDS},
                **{'switched inside a call': 40000, 'overlapped': 3500,
                   'bytecode boundaries': 350, 'one graph asked by all': 300,
                   'frames compared': 4000, 'call cut short': 200,
                   'same algorithm at a time': 200,
                   'generated at a time': 80})
STEPS = 6000000
ASSUMES = ['threads are switched at line and bytecode boundaries, as the '
           'interpreter does; one thread runs at a time']

ASK = ['get_node_list', 'get_edge_list', 'get_node_num', 'get_edge_num',
       'get_degrees', 'to_string', '__repr__', 'page_rank', 'floyd_warshall',
       'get_negative_cycle', 'get_in_degrees', 'get_out_degrees',
       'get_layout', 'create_residual_graph', 'get_simplex_solution_graph']
READS = ['neighbors', 'attributes', 'membership', 'copy']


def actor(rng, tier, scheme, k):
    if k == 'a':
        a = c04.algorithm_actor(rng, tier, scheme)
        for op in a['ops']:
            if op[0] == 'abort' and rng.random() < .7:
                op[3] = 10 ** 6
        return a
    if k == 'u':
        return c04.update_actor(rng, tier, scheme)
    if k in 'tb':
        a = c04.tree_actor(rng, tier, scheme, k == 'b')
        for op in a['ops']:
            if op[0] == 'tree' and rng.random() < .5:
                op[:] = ['tabort', op[1], op[2], 10 ** 6]
        return a
    if k == 's':
        return c04.set_actor(rng, tier, scheme)
    return c04.generated_actor(rng, tier, scheme)


def gen_case(rng, i, tier):
    c = {'seed': rng.randrange(10 ** 9), 'burst': rng.choice(
        [2, 3, 6, 6, 12, 30, 100]), 'opcodes': rng.random() < .15}
    scheme = rng.choice(['int', 'int', 'str', 'neg', 'mixed', 'falsy'])
    r = rng.random()
    if r < .12:
        f = c04.algorithm_actor(rng, tier, scheme)['case']
        c['shared'] = f
        c['asks'] = [[rng.choice(ASK + READS) for _ in
                      range(rng.randint(1, 4))]
                     for _ in range(rng.choice([2, 3, 4]))]
        return c
    m = rng.choice([2, 2, 2, 3, 3, 4])
    if r < .35:
        # the same kind of work in each
        ks = [rng.choice('aaautbsgg')] * m
    else:
        ks = [rng.choice('aaauutbsg') for _ in range(m)]
    acts = [actor(rng, tier, scheme, k) for k in ks]
    if r < .22:
        # the very same operations, on an equal graph
        acts = [acts[0]] * m
    c['actors'] = acts
    return c


def reduce(case):
    for b in (100, 30, 12, 6, 3):
        if b > case['burst']:
            yield dict(case, burst=b)
    if case['opcodes']:
        yield dict(case, opcodes=False)
    if 'shared' in case:
        for k in range(len(case['asks'])):
            if len(case['asks']) > 2:
                yield dict(case, asks=case['asks'][:k] + case['asks'][k + 1:])
        return
    acts = case['actors']
    for k in range(len(acts)):
        if len(acts) > 1:
            yield dict(case, actors=acts[:k] + acts[k + 1:])
    for k, a in enumerate(acts):
        for j in range(len(a['ops'])):
            if a['ops'][j][0] in ('node', 'edge', 'child', 'add', 'delnode',
                                  'random'):
                continue
            b = dict(a, ops=a['ops'][:j] + a['ops'][j + 1:])
            yield dict(case, actors=acts[:k] + [b] + acts[k + 1:])


LOCAL = threading.local()
OUT = overlap.ThreadOut()


class Actor(c04.Actor):
    @contextlib.contextmanager
    def observe(self, fr):
        LOCAL.frames = fr
        fr.texts = self.texts
        try:
            yield fr
        finally:
            LOCAL.frames = None

    def step(self, ob=None):
        op = self.spec['ops'][self.pos]
        self.pos += 1
        OUT.start()
        try:
            r = c04.plain(self.do(op, ob))
        except Exception as e:
            r = ['raised', type(e).__name__, str(e)]
        self.log.append([op, r, OUT.take()])

    def all(self):
        while self.pos < len(self.spec['ops']):
            self.step()


def make(spec, pool):
    a = Actor(spec, gimpy, pool)
    a.texts = []
    return a


def display(self, highlight=None, *args, **kw):
    """stand-in for Graph.display that serves every thread on its own"""
    fr = getattr(LOCAL, 'frames', None)
    if self.attr['display'] == 'off':
        return
    if fr is None:
        raise RuntimeError('a display nobody asked for')
    fr.shown += 1
    fr.texts.append((fr.shown, self.attr['display'], self.to_string()))
    if fr.abort_at is not None and fr.shown >= fr.abort_at:
        raise frames.Abort('display number %d' % fr.shown)
    if highlight is not None:
        for n in highlight:
            n = n if isinstance(n, gimpy.graph.Node) else self.get_node(n)
            n.set_attr('color', 'red')


@contextlib.contextmanager
def world():
    real, out = gimpy.Graph.__dict__['display'], sys.stdout
    gimpy.Graph.display = display
    sys.stdout = OUT
    try:
        yield
    finally:
        gimpy.Graph.display = real
        sys.stdout = out


def run(case, ob):
    if 'shared' in case:
        return asked(case, ob)
    specs = case['actors']
    with world():
        alone = []
        for s in specs:
            a = make(s, c04.argument_pool())
            a.all()
            alone.append(a)
        pool = c04.argument_pool()
        over = [make(s, pool) for s in specs]
        o = overlap.Overlap(case['seed'], case['burst'], case['opcodes'])
        o.run([a.all for a in over])
    for k, (a, b) in enumerate(zip(alone, over)):
        what = '%s %d of %d, overlapped' % (a.spec['kind'], k, len(specs))
        for x, y in zip(a.log, b.log):
            ob.check(x == y, '%s: %r gave %r and printed %r, alone %r and '
                     '%r', what, x[0], y[1], y[2], x[1], x[2])
            if x[0][0] in ('abort', 'tabort') and x[1] == 'aborted':
                ob.ev('call cut short')
        ob.eq(len(b.log), len(a.log), what + ': operations done')
        ob.eq(b.texts, a.texts, what + ': frames shown')
        ob.ev('frames compared', len(a.texts))
        d = snap.diff(a.state(), b.state())
        ob.check(d is None, '%s: final state, alone and overlapped: %s',
                 what, d)
        ob.ev('actor: ' + a.spec['kind'])
    used = [{op[1] for op in s['ops'] if op[0] in ('algo', 'abort')}
            for s in specs]
    if len(used) > 1 and set.intersection(*used):
        ob.ev('same algorithm at a time')
    if sum(s['kind'] == 'generated' for s in specs) > 1:
        ob.ev('generated at a time')
    finish(case, ob, o)
    ob.sample({'kinds': [s['kind'] for s in specs], 'switches': o.switches})


def finish(case, ob, o):
    ob.ev('overlapped')
    ob.ev('switched inside a call', o.inside)
    if case['opcodes']:
        ob.ev('bytecode boundaries')
    if o.inside:
        ob.key(o.trail.hexdigest(), repr(case))


def ask(g, N, k):
    try:
        if k == 'neighbors':
            return [(n, g.get_neighbors(n), g.get_out_neighbors(n))
                    for n in g.get_node_list()]
        if k == 'attributes':
            return [(n, dict(g.get_node(n).attr), g.get_node_attr(n, 'demand'))
                    for n in g.get_node_list()], \
                [(e, g.get_edge_cost(e)) for e in g.get_edge_list()]
        if k == 'membership':
            return [(n in g, (n, m) in g, g.check_edge(n, m))
                    for n in N for m in N]
        if k == 'copy':
            import copy
            return c04.plain(copy.deepcopy(g))
        return c04.plain(getattr(g, k)())
    except Exception as e:
        return ['raised', type(e).__name__, str(e)]


def asked(case, ob):
    c = case['shared']
    nm = gen.namer(c['scheme'])
    N = [nm(i) for i in range(c['n'])]
    g = gen.build(gimpy, c)
    for e in g.get_edge_list():
        g.set_edge_attr(e[0], e[1], 'flow', 0)
    before = snap.full(g)
    with world():
        OUT.start()
        want = [[ask(g, N, k) for k in ks] for ks in case['asks']]
        got = [[] for _ in want]
        o = overlap.Overlap(case['seed'], case['burst'], case['opcodes'])

        def job(i):
            def go():
                OUT.start()
                for k in case['asks'][i]:
                    got[i].append(ask(g, N, k))
            return go
        o.run([job(i) for i in range(len(want))])
    for i, ks in enumerate(case['asks']):
        for k, x, y in zip(ks, want[i], got[i]):
            ob.check(x == y, '%s asked while other threads ask the graph: '
                     '%r, alone %r', k, y, x)
    d = snap.diff(before, snap.full(g))
    ob.check(d is None, 'asking changed the graph: %s', d)
    ob.ev('one graph asked by all')
    finish(case, ob, o)
