import gimpy
from mon import gen

PID = 'C30'
RULE = ('random histories of add_root, add_child, add_left_child, '
        'add_right_child and deletions of leaves and lone roots on Tree and '
        'BinaryTree, with attributes and hostile names (0, empty string, '
        'negative, floats); all queries compared with a dictionary model '
        'after every step. Distinct by history.')
QUICK, THOROUGH = 120000, 2400000
REQUIRED = {'state compared': 80000, 'leaf deleted': 10000,
            'freed slot used again': 1000, 'root deleted': 500,
            'new root': 500, 'name used again': 1000, 'falsy name': 5000,
            'deep tree': 1000, 'query by node object': 5000,
            'wide node': 400, 'level given': 5000,
            'node returned': 20000, 'options given': 20000}
SCHEMES = ['int', 'str', 'neg', 'bigint', 'mixed', 'float', 'odd',
           'falsy', 'falsy2']


def gen_case(rng, i, tier):
    binary = rng.random() < .65
    hi = 10 if tier == 'quick' else 25
    if rng.random() < .004:
        hi = 45
    ops = []
    alive = {}
    free = {}
    n = rng.randint(2, hi)
    style = rng.choice(['any', 'deep', 'wide'])
    for _ in range(rng.randint(1, 2 * n)):
        if not alive:
            x = rng.randrange(n)
            ops.append(['root', x, attrs(rng, binary)])
            alive = {x: None}
            free = {x: ['L', 'R']}
            continue
        leaves = [x for x in alive if x not in alive.values()]
        if rng.random() < .3:
            x = rng.choice(leaves)
            p = alive.pop(x)
            s = [o[4] for o in ops if o[0] == 'child' and o[1] == x][-1:] \
                if p is not None else []
            if p is not None and binary:
                free[p].append(s[0])
            free.pop(x, None)
            ops.append(['del', x])
            continue
        new = [x for x in range(n) if x not in alive]
        if not new:
            continue
        x = rng.choice(new)
        cand = [p for p in alive if not binary or free[p]]
        p = max(cand, key=lambda q: depth(alive, q)) if style == 'deep' and \
            rng.random() < .8 else (min(cand) if style == 'wide' and
                                    rng.random() < .7 else rng.choice(cand))
        s = rng.choice(free[p]) if binary else None
        if binary:
            free[p].remove(s)
        free[x] = ['L', 'R']
        alive[x] = p
        ops.append(['child', x, p, attrs(rng, binary), s])
    opt = {}
    for k, vs in (('layout', ['fdp', 'dot', 'neato', 'dot2tex']),
                  ('splines', ['true', 'false']), ('rankdir', ['LR', '']),
                  ('type', ['graph', 'digraph']), ('size', [0, 7.5])):
        if rng.random() < .12:
            opt[k] = rng.choice(vs)
    return {'binary': binary, 'scheme': rng.choice(SCHEMES), 'ops': ops,
            'opt': opt}


def depth(par, x):
    k = 0
    while par[x] is not None:
        x = par[x]
        k += 1
    return k


def attrs(rng, binary):
    out = {}
    if rng.random() < .15:
        # the position in the tree is decided by the call, not by these
        out['level'] = rng.choice([0, 1, 7, None])
        if binary:
            out['direction'] = rng.choice(['L', 'R', '?'])
    for k in ('label', 'color', 'x'):
        if rng.random() < .15:
            out[k] = rng.choice([0, '', 'a', [1], None])
    return out


def own(a):
    return {k: v for k, v in a.items() if k not in ('level', 'direction')}


def reduce(case):
    ops = case['ops']
    for k in range(len(ops) - 1, 0, -1):
        yield dict(case, ops=ops[:k])
    for k, o in enumerate(ops):
        if o[0] == 'child' and not any(
                o[1] in (q[1], q[2] if len(q) > 2 else None)
                for q in ops[k + 1:] if q[0] != 'root'):
            yield dict(case, ops=ops[:k] + ops[k + 1:])
    if case['scheme'] != 'int':
        yield dict(case, scheme='int')


def compare(ob, t, nm, binary, M, root, what):
    N = {x: nm(x) for x in M}
    ob.eq(sorted(map(repr, t.get_node_list())),
          sorted(map(repr, N.values())), what + ': nodes')
    ob.eq(sorted(map(repr, t.get_edge_list())),
          sorted(repr((N[m['parent']], N[x])) for x, m in M.items()
                 if m['parent'] is not None), what + ': edges')
    if root is not None:
        ob.check(t.root is not None and t.root.name == N[root],
                 '%s: root is %r', what, t.root)
    elif binary:
        ob.check(t.root is None, '%s: root is %r', what, t.root)
    for x, m in M.items():
        p = m['parent']
        got = t.get_parent(nm(x))
        ob.check(got == (None if p is None else N[p]) and
                 (got is None) == (p is None), '%s: parent of %r is %r',
                 what, N[x], got)
        kids = [N[c] for c in m['kids']]
        ob.eq(list(t.get_children(nm(x))), kids, '%s: children of %r'
              % (what, N[x]))
        ob.eq(list(t.get_in_neighbors(nm(x))),
              [] if p is None else [N[p]], '%s: in-neighbors of %r'
              % (what, N[x]))
        ob.eq(t.get_node_attr(nm(x), 'level'), m['level'],
              '%s: level of %r' % (what, N[x]))
        for k, v in m['attrs'].items():
            ob.eq(t.get_node_attr(nm(x), k), v, '%s: attribute %s of %r'
                  % (what, k, N[x]))
        if binary:
            for side, get in (('L', t.get_left_child),
                              ('R', t.get_right_child)):
                want = [N[c] for c in m['kids'] if M[c]['side'] == side]
                want = want[0] if want else None
                for q in (nm(x), t.get_node(nm(x))):
                    got = get(q)
                    ob.check(got == want and (got is None) == (want is None),
                             '%s: %s child of %r is %r, expected %r', what,
                             side, N[x], got, want)
                ob.ev('query by node object')
        if not N[x]:
            ob.ev('falsy name')
        if m['level'] > 4:
            ob.ev('deep tree')
        if len(m['kids']) > 3:
            ob.ev('wide node')
    ob.ev('state compared')


def run(case, ob):
    binary = case['binary']
    nm = gen.namer(case['scheme'])
    opt = dict(case.get('opt') or {})
    t = (gimpy.BinaryTree if binary else gimpy.Tree)(**opt)
    # a tree is a directed graph; every other option is the caller's
    want = dict({'layout': 'dot'}, **opt, )
    want['type'] = gimpy.DIRECTED_GRAPH
    for k, v in want.items():
        ob.eq(t.attr.get(k), v, 'tree built with %r: option %s' % (opt, k))
    ob.check(t.root is None, 'a new tree has root %r', t.root)
    if opt:
        ob.ev('options given')
    M = {}
    root = None
    used, freed = set(), set()
    for k, o in enumerate(case['ops']):
        what = 'after %r' % (case['ops'][:k + 1],)
        if o[0] == 'root':
            r = t.add_root(nm(o[1]), **dict(o[2]))
            if not binary:
                ob.check(r is t.get_node(nm(o[1])),
                         '%s: add_root returned %r, not the node', what, r)
                ob.ev('node returned')
            M[o[1]] = {'parent': None, 'kids': [], 'level': 0, 'side': None,
                       'attrs': own(o[2])}
            root = o[1]
            if used:
                ob.ev('new root')
            used.add(o[1])
        elif o[0] == 'child':
            x, p, a, s = o[1:]
            f = {'L': getattr(t, 'add_left_child', None),
                 'R': getattr(t, 'add_right_child', None),
                 None: t.add_child}[s]
            r = f(nm(x), nm(p), **dict(a))
            if not binary:
                ob.check(r is t.get_node(nm(x)),
                         '%s: add_child returned %r, not the node', what, r)
                ob.ev('node returned')
            if 'level' in a:
                ob.ev('level given')
            if x in used:
                ob.ev('name used again')
            if (p, s) in freed:
                ob.ev('freed slot used again')
            used.add(x)
            M[x] = {'parent': p, 'kids': [], 'level': M[p]['level'] + 1,
                    'side': s, 'attrs': own(a)}
            M[p]['kids'].append(x)
        else:
            x = o[1]
            t.del_node(nm(x))
            m = M.pop(x)
            if m['parent'] is None:
                root = None
                freed.clear()
                ob.ev('root deleted')
            else:
                M[m['parent']]['kids'].remove(x)
                freed.add((m['parent'], m['side']))
                ob.ev('leaf deleted')
        compare(ob, t, nm, binary, M, root, what)
    ob.key(case['binary'], case['scheme'], case['ops'])
    ob.sample({'binary': binary, 'history': case['ops'][:8]})
