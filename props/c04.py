import contextlib
import copy
import io
import pickle
import random
import gimpy
from mon import algos, frames, fresh, gen, snap, trees
from props import c01

PID = 'C04'
RULE = ('2-5 graphs, trees, binary trees, disjoint sets and generated graphs '
        'with the same node names and sometimes the same argument objects, '
        'their operation lists (updates, attributes, clusters, every '
        'algorithm, calls aborted by the display, tree traversals, unions) '
        'interleaved at random. After each operation full snapshots of all '
        'the others and of the argument objects must be unchanged; each '
        'graph alone in a pristine copy of the package must give the same '
        'results, output and final state. Deep and pickled copies are '
        'compared at a random point, changed, and made to go on with the '
        'rest of the operations. Distinct by schedule and operation lists.')
QUICK, THOROUGH = 16000, 400000
KINDS = ['algorithms', 'updates', 'tree', 'binary tree', 'disjoint set',
         'generated']
REQUIRED = dict({'actor: ' + k: 1000 for k in KINDS},
                **{'other graph unchanged': 100000, 'aborted call': 2000,
                   'call after an abort': 1000, 'deep copy': 1000,
                   'pickled copy': 1000, 'copy went on': 5000,
                   'alone in a pristine package': 10000,
                   'argument object unchanged': 20000,
                   'cluster without attributes': 1000,
                   'default argument call': 3000})
STEPS = 6000000
NODE_ATTRS = ['color', 'label', 'tag', 'shape', 'note']


def val(rng):
    return rng.choice([0, 3, -2, 1.5, 'x', 'a b', 'red', None, True])


# --- operation lists ---------------------------------------------------------

def common(rng, n):
    """an operation every graph understands"""
    r = rng.randrange(8)
    if r == 0:
        return ['setg', rng.choice(['rankdir', 'tag', 'K']), val(rng)]
    if r == 1:
        k = rng.randint(0, n)
        op = ['cluster', rng.sample(range(n), k)]
        if rng.random() < .5:
            op.append(rng.choice(['ca0', 'ca1', 'ca2']))
            if rng.random() < .5:
                op.append(rng.choice(['na0', 'na1']))
        return op
    if r == 2:
        return ['text']
    if r == 3:
        return ['layout', rng.choice(['dot', 'fdp', 'circo'])]
    if r == 4:
        return ['seen']
    if r == 5:
        return ['show', rng.randrange(n)]
    return ['setn', rng.randrange(n), rng.choice(NODE_ATTRS), val(rng)]


def algorithm_actor(rng, tier, scheme):
    c = algos.universal(rng, tier, hi=6, big=8, large=0)
    c['scheme'] = scheme
    f = algos.Facts(c)
    ops = []
    for name, args in algos.draw(rng, f, k=rng.randint(3, 7)):
        ops.append(['algo', name, args])
        if rng.random() < .3:
            ops.append(common(rng, c['n']))
    for name, args in algos.draw(rng, f, display_only=True,
                                 k=rng.randint(0, 3)):
        ops.insert(rng.randint(0, len(ops)),
                   ['abort', name, args, rng.choice([1, 1, 2, 3, 5])])
    return {'kind': 'algorithms', 'case': c, 'ops': ops}


SIMPLE = ['search BFS', 'search DFS', 'search UnweightedSPT', 'Graph.bfs',
          'dfs', 'get_degrees', 'label_components', 'page_rank', 'tarjan',
          'search component']


def update_actor(rng, tier, scheme):
    n = rng.choice([2, 3, 4, 5])
    d = rng.random() < .5
    ops = []
    have, k = set(), 0
    for op in c01.gen_ops(rng, d, n, rng.randint(5, 20), loops=False):
        if op[0] == 'node':
            have.add(op[1])
            op = op + [{a: val(rng) for a in rng.sample(NODE_ATTRS, 2)}]
        elif op[0] == 'edge':
            have |= {op[1], op[2]}
            op = op + [{'cost': rng.randint(0, 5), 'tag': val(rng)}]
        elif op[0] == 'delnode':
            have.discard(op[1])
        ops.append(op)
        if have and rng.random() < .3:
            name = rng.choice(SIMPLE)
            if name == 'label_components' and d or not d and \
                    name in ('page_rank', 'tarjan'):
                name = 'search BFS'
            roots = sorted(have)
            rng.shuffle(roots)
            ops.append(['algo', name, {'s': roots[0], 'roots': roots}])
        if rng.random() < .3:
            op = common(rng, n)
            if op[0] in ('setn', 'show'):
                if not have:
                    continue
                op[1] = rng.choice(sorted(have))
            elif op[0] == 'cluster':
                op[1] = [x for x in op[1] if x in have]
            ops.append(op)
    return {'kind': 'updates', 'case': {'dir': d, 'n': n, 'scheme': scheme,
                                        'edges': [], 'order': []},
            'ops': ops}


def tree_actor(rng, tier, scheme, binary):
    c = trees.case(rng, tier, binary=binary, names=[scheme], hi=7, big=9)
    kids = {0: []}
    side = {}
    for i, p, s in c['links']:
        kids[p].append(i)
        kids[i] = []
        side[i] = s
    par = {i: p for i, p, s in c['links']}
    nxt = c['n']
    ops = []
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        some = rng.choice(sorted(kids))
        if r < .3:
            p = some
            if binary:
                free = [s for s in 'LR' if s not in
                        [side[x] for x in kids[p]]]
                if not free:
                    continue
                s = rng.choice(free)
            else:
                s = None
            ops.append(['child', nxt, p, s, {'tag': val(rng)}])
            kids[p].append(nxt)
            kids[nxt] = []
            side[nxt], par[nxt] = s, p
            nxt += 1
        elif r < .4:
            leaves = [x for x in kids if not kids[x] and x != 0]
            if leaves:
                x = rng.choice(sorted(leaves))
                kids[par[x]].remove(x)
                del kids[x]
                ops.append(['delnode', x])
        elif r < .8:
            m = rng.choice(['dfs', 'bfs', 'traverse'] +
                           (['print_nodes'] * 2 if binary else []))
            kw = {}
            if rng.random() < .4:
                kw['root'] = some
            if binary and rng.random() < .5:
                kw['priority'] = rng.choice('LR')
            if m == 'print_nodes':
                kw['order'] = rng.choice(['pre', 'in', 'post'])
            if rng.random() < .25:
                ops.append(['tabort', m, dict(kw), rng.choice([1, 2, 4])])
            else:
                ops.append(['tree', m, kw])
        else:
            op = common(rng, nxt)
            if op[0] in ('setn', 'show'):
                op[1] = some
            elif op[0] == 'cluster':
                op[1] = [x for x in op[1] if x in kids]
            ops.append(op)
    return {'kind': 'binary tree' if binary else 'tree', 'case': c,
            'ops': ops}


def set_actor(rng, tier, scheme):
    n = rng.randint(3, 9)
    ops = []
    i = 0
    while i < n:
        k = min(n - i, rng.choice([1, 1, 1, 2, 3]))
        ops.append(['add', list(range(i, i + k))])
        i += k
    for _ in range(rng.randint(3, 12)):
        if rng.random() < .6:
            ops.append(['union', rng.randrange(n), rng.randrange(n)])
        else:
            ops.append(['find', rng.randrange(n)])
        if rng.random() < .15:
            ops.append(common(rng, n))
    return {'kind': 'disjoint set', 'case': {'scheme': scheme, 'n': n,
                                             'optimize': rng.choice(
                                                 [True, False, None])},
            'ops': ops}


def generated_actor(rng, tier, scheme):
    kw = {'numnodes': rng.randint(3, 7), 'seedInput': rng.randint(0, 99)}
    r = rng.random()
    if r < .4:
        kw['density'] = rng.choice([.3, .6])
        kw['length_range'] = None
    else:
        kw['degree_range'] = [1, 2]
        kw['node_selection'] = rng.choice(['closest', 'random'])
    if rng.random() < .3:
        kw['Euclidean'] = True
    fm = {}
    if rng.random() < .5:
        fm['edge_format'] = rng.choice(['ca0', 'ca1'])
    if rng.random() < .5:
        fm['node_format'] = rng.choice(['na0', 'na1'])
    n = kw['numnodes']
    ops = [['random', kw, fm]]
    for _ in range(rng.randint(1, 5)):
        if rng.random() < .5:
            ops.append(['algo', rng.choice(['search BFS', 'dfs',
                                            'get_degrees',
                                            'search Dijkstra']),
                        {'s': rng.randrange(n), 'roots': list(range(n))}])
        else:
            ops.append(common(rng, n))
    return {'kind': 'generated', 'case': {'dir': rng.random() < .5, 'n': 0,
                                          'scheme': 'int', 'edges': []},
            'ops': ops}


def gen_case(rng, i, tier):
    scheme = rng.choice(['int', 'int', 'str', 'neg', 'mixed',
                         'falsy'])
    actors = []
    for _ in range(rng.choice([2, 2, 3, 3, 4, 5])):
        k = rng.choice(['a', 'a', 'a', 'u', 'u', 't', 'b', 's', 'g'])
        if k == 'a':
            a = algorithm_actor(rng, tier, scheme)
        elif k == 'u':
            a = update_actor(rng, tier, scheme)
        elif k in 'tb':
            a = tree_actor(rng, tier, scheme, k == 'b')
        elif k == 's':
            a = set_actor(rng, tier, scheme)
        else:
            a = generated_actor(rng, tier, scheme)
        a['copy'] = [rng.randint(0, len(a['ops'])),
                     rng.choice(['deep', 'pickle']), rng.random() < .5]
        actors.append(a)
    sched = [k for k, a in enumerate(actors) for _ in a['ops']]
    rng.shuffle(sched)
    return {'actors': actors, 'sched': sched}


def reduce(case):
    acts = case['actors']
    for k in range(len(acts)):
        if len(acts) > 1:
            yield {'actors': acts[:k] + acts[k + 1:],
                   'sched': [x - (x > k) for x in case['sched'] if x != k]}
    for k, a in enumerate(acts):
        own = [p for p, x in enumerate(case['sched']) if x == k]
        for j in range(len(a['ops'])):
            if a['ops'][j][0] in ('node', 'edge', 'child', 'add', 'delnode',
                                  'random'):
                continue
            s = list(case['sched'])
            del s[own[j]]
            b = dict(a, ops=a['ops'][:j] + a['ops'][j + 1:],
                     copy=[a['copy'][0] - (a['copy'][0] > j)] +
                     a['copy'][1:])
            yield {'actors': acts[:k] + [b] + acts[k + 1:], 'sched': s}


# --- execution ---------------------------------------------------------------

def argument_pool():
    """argument objects, shared by all graphs of an interleaved run"""
    return {'ca0': {'color': 'red', 'note': [1, 2]},
            'ca1': {},
            'ca2': {'name': 'special', 'label': 'x'},
            'na0': {'shape': 'box', 'note': {'k': 1}},
            'na1': {}}


def plain(x, depth=0):
    """comparable form of a result"""
    if hasattr(x, 'edge_attr'):
        return ['graph', snap.full(x)]
    if type(x).__name__ == 'Node':
        return ['node', x.name]
    if isinstance(x, dict):
        return ['dict', [(plain(k), plain(v)) for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [plain(v) for v in x]]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted(x, key=repr)]
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    return ['object', type(x).__name__]


class Actor(object):
    def __init__(self, spec, pkg, pool):
        self.spec, self.pkg, self.pool = spec, pkg, pool
        c, k = spec['case'], spec['kind']
        nm = gen.namer(c['scheme'])
        self.N = [nm(i) for i in range(40)]
        if k in ('tree', 'binary tree'):
            self.g = trees.build(pkg, c)
        elif k == 'disjoint set':
            self.g = pkg.graph.DisjointSet() if c['optimize'] is None else \
                pkg.graph.DisjointSet(optimize=c['optimize'])
        else:
            self.g = gen.build(pkg, dict(c))
        self.log = []
        self.pos = 0

    def observe(self, fr):
        return frames.observe(self.pkg, fr)

    def step(self, ob=None):
        op = self.spec['ops'][self.pos]
        self.pos += 1
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                r = plain(self.do(op, ob))
        except Exception as e:
            r = ['raised', type(e).__name__]
        self.log.append([op, r, out.getvalue()])

    def do(self, op, ob):
        g, N, pkg = self.g, self.N, self.pkg
        k = op[0]
        if k == 'node':
            g.add_node(N[op[1]], **op[2])
        elif k == 'edge':
            g.add_edge(N[op[1]], N[op[2]], **op[3])
        elif k == 'deledge':
            g.del_edge((N[op[1]], N[op[2]]))
        elif k == 'delnode':
            g.del_node(N[op[1]])
        elif k == 'child':
            if op[3] == 'L':
                g.add_left_child(N[op[1]], N[op[2]], **op[4])
            elif op[3] == 'R':
                g.add_right_child(N[op[1]], N[op[2]], **op[4])
            else:
                g.add_child(N[op[1]], N[op[2]], **op[4])
        elif k == 'setg':
            g.attr[op[1]] = op[2]
        elif k == 'setn':
            g.set_node_attr(N[op[1]], op[2], op[3])
        elif k == 'cluster':
            names = [N[i] for i in op[1]]
            want = list(names)
            g.create_cluster(names, *[self.pool[x] for x in op[2:]])
            if names != want:
                return 'the node list was changed'
            if ob and len(op) == 2:
                ob.ev('cluster without attributes')
        elif k == 'layout':
            g.set_layout(op[1])
        elif k == 'text':
            return g.to_string(), repr(g)
        elif k == 'seen':
            return (g.get_node_num(), g.get_edge_num(), g.get_layout(),
                    g.get_degrees() if g.graph_type != 'digraph' else None)
        elif k == 'show':
            fr = frames.Frames()
            with self.observe(fr):
                g.set_display_mode('file')
                try:
                    g.display(highlight=[N[op[1]]])
                finally:
                    g.set_display_mode('off')
            return fr.shown
        elif k == 'algo':
            if ob:
                ob.ev('default argument call')
            return algos.call(g, N, op[1], op[2])
        elif k == 'abort':
            fr = frames.Frames(abort_at=op[3])
            with self.observe(fr):
                try:
                    r = algos.call(g, N, op[1], op[2], {'display': 'file'})
                except frames.Abort:
                    if ob:
                        ob.ev('aborted call')
                    r = 'aborted'
                finally:
                    g.set_display_mode('off')
            return r
        elif k == 'tree':
            return getattr(g, op[1])(**self.kw(op[2]))
        elif k == 'tabort':
            fr = frames.Frames(abort_at=op[3])
            with self.observe(fr):
                try:
                    r = getattr(g, op[1])(display='file', **self.kw(op[2]))
                except frames.Abort:
                    if ob:
                        ob.ev('aborted call')
                    r = 'aborted'
                finally:
                    g.set_display_mode('off')
            return r
        elif k == 'add':
            items = [N[i] for i in op[1]]
            want = list(items)
            g.add(items)
            if items != want:
                return 'the item list was changed'
        elif k == 'union':
            return g.union(N[op[1]], N[op[2]])
        elif k == 'find':
            return g.find(N[op[1]])
        elif k == 'random':
            kw = dict(op[1])
            for a in ('degree_range', 'length_range'):
                if kw.get(a) is not None:
                    kw[a] = tuple(kw[a])
            for a, x in op[2].items():
                kw[a] = self.pool[x]
            g.random(**kw)
            return list(g.get_node_list()), list(g.get_edge_list())
        return None

    def kw(self, kw):
        kw = dict(kw)
        if 'root' in kw:
            kw['root'] = self.N[kw['root']]
        return kw

    def state(self):
        return snap.full(self.g)


def fork_copy(a, ob):
    """a second actor going on from a copy of the graph of the first"""
    b = object.__new__(Actor)
    b.spec, b.pkg, b.pool, b.N = a.spec, a.pkg, argument_pool(), a.N
    b.pos, b.log = a.pos, []
    how = a.spec['copy'][1]
    before = a.state()
    if how == 'deep':
        b.g = copy.deepcopy(a.g)
        ob.ev('deep copy')
    else:
        b.g = pickle.loads(pickle.dumps(a.g))
        ob.ev('pickled copy')
    d = snap.diff(before, a.state())
    ob.check(d is None, 'a %s copy changed its original: %s', how, d)
    d = snap.diff(before, b.state())
    ob.check(d is None, 'a %s copy differs from its original: %s', how, d)
    ob.check(type(b.g) is type(a.g), 'a %s copy has type %s', how, type(b.g))
    ob.eq(b.g.to_string(), a.g.to_string(), 'text of a %s copy' % how)
    return b


def scribble(g):
    """change everything that can be changed through the public interface"""
    for n in list(g.get_node_list()):
        g.set_node_attr(n, 'tag', 'scribbled')
        g.get_node(n).set_attr('fresh', [1])
    for e in list(g.get_edge_list()):
        g.set_edge_attr(e[0], e[1], 'cost', 77)
    g.attr['tag'] = 'scribbled'
    g.set_layout('neato')
    g.create_cluster(list(g.get_node_list())[:1], {'name': 'scribbled'})
    for e in list(g.get_edge_list())[:2]:
        g.del_edge(e)
    for n in list(g.get_node_list())[:1]:
        gimpy.Graph.del_node(g, n)
    gimpy.Graph.add_node(g, 'scribbled', tag='x')


def run(case, ob):
    pool = argument_pool()
    clean = argument_pool()
    acts = [Actor(a, gimpy, pool) for a in case['actors']]
    for a in acts:
        ob.ev('actor: ' + a.spec['kind'])
    snaps = [a.state() for a in acts]
    copies = [None] * len(acts)
    aborted = False

    def at_copy(k):
        a = acts[k]
        if copies[k] is None and a.pos == a.spec['copy'][0]:
            if a.spec['copy'][2]:
                b = fork_copy(a, ob)
                scribble(b.g)
                d = snap.diff(snaps[k], a.state())
                ob.check(d is None, 'changing a %s copy of a %s changed the '
                         'original: %s', a.spec['copy'][1], a.spec['kind'],
                         d)
            copies[k] = fork_copy(a, ob), copy.deepcopy(snaps[k])

    for k in range(len(acts)):
        at_copy(k)
    for k in case['sched']:
        a = acts[k]
        if aborted:
            ob.ev('call after an abort')
        a.step(ob)
        if a.log[-1][1] == 'aborted':
            aborted = True
        what = '%r on a %s' % (a.log[-1][0], a.spec['kind'])
        for j, b in enumerate(acts):
            if j == k:
                continue
            s = b.state()
            if s != snaps[j]:
                ob.fail('%s changed another graph (%s): %s', what,
                        b.spec['kind'], snap.diff(snaps[j], s))
            ob.checks += 1
            ob.ev('other graph unchanged')
        if pool != clean:
            ob.fail('%s changed an argument object: %s', what,
                    snap.diff(clean, pool))
        ob.ev('argument object unchanged')
        snaps[k] = a.state()
        at_copy(k)

    # the copies go on where their originals were copied
    for k, c in enumerate(copies):
        if c is None:
            continue
        b, then = c
        d = snap.diff(then, b.state())
        ob.check(d is None, 'operations on a %s changed its %s copy: %s',
                 acts[k].spec['kind'], acts[k].spec['copy'][1], d)
        while b.pos < len(b.spec['ops']):
            b.step()
            got, want = b.log[-1], acts[k].log[b.pos - 1]
            ob.check(got == want, 'a %s copy of a %s answers %r with %r, the '
                     'original with %r', b.spec['copy'][1], b.spec['kind'],
                     got[0], got[1:], want[1:])
            ob.ev('copy went on')
        d = snap.diff(snaps[k], b.state())
        ob.check(d is None, 'a %s copy of a %s ends differently: %s',
                 b.spec['copy'][1], b.spec['kind'], d)
        s = acts[k].state()
        ob.check(s == snaps[k], 'working on a %s copy changed its original: '
                 '%s', b.spec['copy'][1], snap.diff(snaps[k], s))

    # each graph alone, in a package that has no history
    for a in acts:
        alone = Actor(a.spec, fresh.pristine(), argument_pool())
        while alone.pos < len(a.spec['ops']):
            alone.step()
            got, want = a.log[alone.pos - 1], alone.log[-1]
            ob.check(got == want, '%r on a %s: among other graphs %r, alone '
                     '%r', got[0], a.spec['kind'], got[1:], want[1:])
        d = snap.diff(alone.state(), a.state())
        ob.check(d is None, 'a %s among other graphs ends differently than '
                 'alone: %s', a.spec['kind'], d)
        ob.ev('alone in a pristine package')
    ob.key(case['sched'], [[a['kind'], a['ops']] for a in case['actors']])
    ob.sample({'kinds': [a['kind'] for a in case['actors']],
               'sched': case['sched']})
