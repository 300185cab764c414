import contextlib
import io
import gimpy
from coinor.blimpy import Queue, Stack
from mon import frames, trees, gen

PID = 'C31'
RULE = ('random trees and binary trees (paths, zigzags, bushy, balanced; '
        'hostile names) traversed by dfs, bfs, traverse (default, stack and '
        'queue argument) and print_nodes from random start nodes under both '
        'priorities; the recorded display and print events are judged '
        'against recursive specifications. Distinct by tree and call.')
QUICK, THOROUGH = 120000, 2400000
REQUIRED = {'depth-first trace': 10000, 'breadth-first trace': 8000,
            'printed order': 8000, 'inner start node': 8000,
            'default start node': 8000, 'node with two children': 10000,
            'falsy name': 3000, 'queue argument': 2000, 'mirrored': 1000}


def gen_case(rng, i, tier):
    c = trees.case(rng, tier, **({'hi': 50, 'big': 60}
                                 if rng.random() < .005 else {}))
    c['mode'] = rng.choice(['file', 'matplotlib', 'PIL'])
    calls = []
    for _ in range(3):
        m = rng.choice(['dfs', 'bfs', 'traverse'] +
                       (['print_nodes', 'print_nodes'] if c['binary']
                        else []))
        a = {'m': m}
        if rng.random() < .6:
            a['root'] = rng.choice([l[0] for l in c['links']] + [0])
        if c['binary']:
            if rng.random() < .8:
                a['priority'] = rng.choice('LR')
            if m == 'print_nodes' and rng.random() < .8:
                a['order'] = rng.choice(['pre', 'in', 'post'])
        if m == 'traverse':
            a['q'] = rng.choice(['stack', 'queue', None])
        if rng.random() < .4:
            a['display'] = rng.choice(['file', 'xdot'])
        calls.append(a)
    c['calls'] = calls
    return c


def reduce(case):
    for i in range(len(case['calls'])):
        if len(case['calls']) > 1:
            yield dict(case, calls=case['calls'][:i] + case['calls'][i + 1:])
    for c in trees.shrink(case):
        left = {l[0] for l in c['links']} | {0}
        if all(a.get('root', 0) in left for a in c['calls']):
            yield c


def printed(M, r, order, priority):
    first, second = ('L', 'R') if priority == 'L' else ('R', 'L')
    a, b = M.child(r, first), M.child(r, second)
    out = []
    if order == 'pre':
        out.append(r)
    if a is not None:
        out += printed(M, a, order, priority)
    if order == 'in':
        out.append(r)
    if b is not None:
        out += printed(M, b, order, priority)
    if order == 'post':
        out.append(r)
    return out


def levels(M, r, priority):
    out, todo = [], [r]
    while todo:
        nxt = []
        for x in todo:
            out.append(x)
            if priority is None:
                nxt += M.kids[x]
            else:
                for s in ('LR' if priority == 'L' else 'RL'):
                    c = M.child(x, s)
                    if c is not None:
                        nxt.append(c)
        todo = nxt
    return out


def sides(ob, M, seen, what):
    """which sibling comes first, checked to be the same side everywhere"""
    pos = {x: k for k, x in enumerate(seen)}
    firsts = set()
    for x in seen:
        a, b = M.child(x, 'L'), M.child(x, 'R')
        if a is not None and b is not None:
            firsts.add('L' if pos[a] < pos[b] else 'R')
            ob.ev('node with two children')
    ob.check(len(firsts) < 2, '%s: left and right subtrees come first at '
             'different nodes: %r', what, seen)
    return firsts.pop() if firsts else None


def depth_first(ob, M, seen, r, what):
    pos = {x: k for k, x in enumerate(seen)}
    for x in seen:
        sub = M.sub(x)
        ps = sorted(pos[y] for y in sub)
        ob.check(ps == list(range(ps[0], ps[0] + len(sub))) and
                 ps[0] == pos[x], '%s: the subtree of node %r is left before '
                 'it is complete, order %r', what, x, seen)
    ob.ev('depth-first trace')


def run(case, ob):
    M = trees.Model(case['links'])
    nm = gen.namer(case['scheme'])
    N = {i: nm(i) for i in M.kids}
    back = {N[i]: i for i in N}
    binary = case['binary']
    for a in case['calls']:
        t = trees.build(gimpy, case, display=case['mode'])
        r = a.get('root', 0)
        m = a['m']
        kw = {k: a[k] for k in ('priority', 'order', 'display') if k in a}
        if 'root' in a:
            kw['root'] = nm(a['root'])
            ob.ev('inner start node')
        else:
            ob.ev('default start node')
        q = {'stack': Stack, 'queue': Queue}.get(a.get('q'))
        if q is not None:
            kw['q'] = q()
            ob.ev('queue argument')
        seen = []

        def frame(g, highlight):
            if g is not t:
                return
            for x in highlight or [None]:
                seen.append(x.name if isinstance(x, gimpy.graph.Node) else x)
        out = io.StringIO()
        with frames.observe(gimpy, frames.Frames(frame)), \
                contextlib.redirect_stdout(out):
            getattr(t, m)(**kw)
        what = '%s(%s) on %r' % (m, ', '.join(
            '%s=%r' % (k, v) for k, v in kw.items() if k != 'q'),
            case['links'])
        pr = a.get('priority', 'L') if binary else None
        if m == 'print_nodes':
            want = [str(N[x]) for x in printed(M, r, a.get('order', 'in'),
                                               pr)]
            ob.eq(out.getvalue().split('\n'), want + [''],
                  what + ': printed')
            ob.check(set(seen) == {N[x] for x in M.sub(r)},
                     '%s: nodes highlighted %r', what, seen)
            ob.ev('printed order')
        else:
            sub = M.sub(r)
            ob.eq(sorted(map(repr, seen)), sorted(repr(N[x]) for x in sub),
                  what + ': nodes displayed')
            order = [back[x] for x in seen]
            if m == 'bfs' or a.get('q') == 'queue':
                ob.eq(order, levels(M, r, pr), what + ': order')
                ob.ev('breadth-first trace')
            else:
                depth_first(ob, M, order, r, what)
                if binary:
                    s = sides(ob, M, order, what)
                    if s is not None:
                        # the other priority explores the other side first
                        seen2 = []
                        order1 = order
                        t2 = trees.build(gimpy, case, display=case['mode'])
                        kw2 = dict(kw, priority='R' if pr == 'L' else 'L')
                        if q is not None:
                            kw2['q'] = q()
                        with frames.observe(gimpy, frames.Frames(
                                lambda g, h: seen2.extend(
                                    y.name if isinstance(
                                        y, gimpy.graph.Node) else y
                                    for y in h))):
                            getattr(t2, m)(**kw2)
                        s2 = sides(ob, M, [back[y] for y in seen2], what)
                        ob.check(s2 != s, '%s: priority has no effect on '
                                 'the order %r', what, order1)
                        ob.ev('mirrored')
            if q is not None:
                ob.check(kw['q'].isEmpty(), '%s: queue not emptied', what)
        for x in M.sub(r):
            if not N[x]:
                ob.ev('falsy name')
        ob.key(case['links'], case['scheme'], m, sorted(a.items(), key=str))
    ob.sample({'links': case['links'][:6], 'calls': case['calls']})
