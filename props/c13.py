import math
import random
import gimpy
from mon import gen, oracle

PID = 'C13'
RULE = ('random histories of add (single items and lists), union and find on '
        'sets with and without optimize, balanced, chained and star-like '
        'union patterns up to 64 items; after every operation the parent arcs '
        'are followed without calling find and compared with an independent '
        'partition, regularly find of every item as well. Distinct by '
        'operation list.')
QUICK, THOROUGH = 32000, 640000
REQUIRED = {'second set in use': 5000, 'partition compared': 3000,
            'merging union': 3000,
            'redundant union': 1000, 'list added': 1000, 'depth checked':
            2000, 'find': 5000, 'depth of 3 or more': 50}


def gen_case(rng, i, tier):
    n = rng.choice([3, 5, 8, 12, 20] + ([40, 64] if rng.random() < .2
                                        else [6]))
    opt = rng.random() < .6
    items = list(range(n))
    rng.shuffle(items)
    ops = []
    have = []
    pattern = rng.choice(['random', 'random', 'chain', 'balanced', 'star'])
    if pattern == 'balanced':
        ops = [['add', [x]] for x in items]
        blocks = [[x] for x in items]
        while len(blocks) > 1:
            a, b = blocks.pop(0), blocks.pop(0)
            ops.append(['union', rng.choice([a[0], rng.choice(a)]),
                        rng.choice([b[0], rng.choice(b)])])
            blocks.append(a + b)
            if rng.random() < .2:
                ops.append(['find', rng.choice(blocks[-1])])
    elif pattern in ('chain', 'star'):
        ops = [['add', [x]] for x in items]
        for a, b in zip(items, items[1:]):
            x = a if pattern == 'chain' else items[0]
            ops.append(['union', *rng.sample([x, b], 2)])
    else:
        todo = list(items)
        for _ in range(rng.randint(5, 3 * n)):
            r = rng.random()
            if (r < .35 or len(have) < 2) and todo:
                k = min(len(todo), rng.choice([1, 1, 1, 2, 3]))
                new, todo = todo[:k], todo[k:]
                ops.append(['add', new])
                have += new
            elif have and r < .8:
                ops.append(['union', rng.choice(have), rng.choice(have)])
            elif have:
                ops.append(['find', rng.choice(have)])
    return {'opt': opt, 'scheme': rng.choice(gen.SCHEMES), 'ops': ops,
            'other': rng.choice([0, 0, 0, 0, rng.randrange(1, 10 ** 6)]),
            'probe': rng.random() < .5, 'default': opt and rng.random() < .5}


def reduce(case):
    ops = case['ops']
    for i in range(len(ops) - 1, -1, -1):
        if ops[i][0] != 'add':
            yield dict(case, ops=ops[:i] + ops[i + 1:])
        else:
            gone = set(ops[i][1])
            yield dict(case, ops=[o for k, o in enumerate(ops) if k != i and
                                  not (o[0] != 'add' and gone & set(o[1:]))])


def run(case, ob):
    nm = gen.namer(case['scheme'])
    ds = gimpy.DisjointSet() if case['default'] else \
        gimpy.DisjointSet(optimize=case['opt'])
    opt = case['opt']
    # another disjoint set over the same items, in use at the same time
    other = gimpy.DisjointSet() if case.get('other') else None
    mix = random.Random(case.get('other') or 0)
    p = oracle.Partition()
    back = {}
    for k, op in enumerate(case['ops']):
        what = 'after %r (operation %d)' % (op, k + 1)
        if other is not None:
            ob.ev('second set in use')
            if op[0] == 'add':
                other.add([nm(x) for x in op[1]])
            elif back:
                other.union(*[mix.choice(list(back)) for _ in 'ij'])
        if op[0] == 'add':
            ds.add([nm(x) for x in op[1]])
            p.add(op[1])
            for x in op[1]:
                back[nm(x)] = x
            if len(op[1]) > 1:
                ob.ev('list added')
        elif op[0] == 'union':
            merged = p.union(op[1], op[2])
            r = ds.union(nm(op[1]), nm(op[2]))
            ob.check(r is merged, '%s: union returned %r, expected %r', what,
                     r, merged)
            ob.ev('merging union' if merged else 'redundant union')
        else:
            r = ds.find(nm(op[1]))
            ob.check(r in back and p.same(back[r], op[1]),
                     '%s: find returned %r, not a member of the set', what, r)
            ob.ev('find')
        # structural probe: follow the parent arcs without calling find
        roots = {}
        for name, x in back.items():
            cur, depth = name, 0
            while ds.get_neighbors(cur):
                up = ds.get_neighbors(cur)
                ob.eq(len(up), 1, '%s: parents of %r' % (what, cur))
                cur = up[0]
                depth += 1
                ob.check(depth <= len(back), '%s: parent arcs of %r form a '
                         'cycle', what, name)
            roots[x] = cur
            size = len(p.members(x))
            if opt:
                # sets given as a list start with depth one
                ob.check(depth <= max(1, math.log2(size)) + 1e-9,
                         '%s: %r is %d steps from its root in a set of %d',
                         what, name, depth, size)
                ob.ev('depth checked')
            if depth >= 3:
                ob.ev('depth of 3 or more')
        classes = {}
        for x, r in roots.items():
            ob.check(r in back and p.same(back[r], x), '%s: root %r of %r is '
                     'in another set', what, r, x)
            classes.setdefault(r, set()).add(x)
        ob.eq(len(classes), len({id(b) for b in p.block.values()}),
              what + ': number of sets')
        for r, c in classes.items():
            ob.eq(ds.sizes[r], len(c), '%s: size kept for %r' % (what, r))
        ob.ev('partition compared')
        if case['probe'] and k == len(case['ops']) - 1 or k % 7 == 3:
            names = sorted(back.items(), key=lambda t: t[1])
            found = {x: ds.find(nm(x)) for _, x in names}
            for x in found:
                ob.check(p.same(back[found[x]], x), '%s: find(%r) is %r', what,
                         nm(x), found[x])
                ob.eq(found[x], found[min(p.members(x))],
                      '%s: find of %r and of another member' % (what, nm(x)))
            ob.ev('find', len(found))
    ob.key(opt, case['scheme'], case['ops'])
    ob.sample({'optimize': opt, 'ops': case['ops'][:12]})
