import copy
import gimpy
from mon import dot, gen
from props import c28

PID = 'C29'
RULE = ('random histories on graphs and digraphs: clusters, mostly '
        'disjoint (named or not, with attributes, node defaults, hostile names), '
        'mutation of the caller\'s argument objects afterwards, node and '
        'edge additions and deletions; cluster records and parsed DOT text '
        'compared with a model after every few steps. Distinct by text.')
QUICK, THOROUGH = 48000, 960000
REQUIRED = {'cluster created': 15000, 'name given': 4000, 'fresh name': 4000,
            'duplicate name refused': 300, 'text compared': 15000,
            'edge inside a cluster': 5000, 'edge across': 5000,
            'clustered node deleted': 2000, 'node defaults': 3000,
            'arguments mutated': 3000, 'clustered node added again': 300,
            'default arguments': 1000, 'overlapping clusters': 500,
            'deleted from several clusters': 200}
KEYS = ['color', 'label', 'style', 'x']


def gen_case(rng, i, tier):
    n = rng.randint(1, 8 if tier == 'quick' else 14)
    if rng.random() < .004:
        n = rng.randint(15, 35)
    d = rng.random() < .5
    c = gen.graph_case(rng, tier, directed=d, n=n, anti=.2, loops=.15,
                       schemes=gen.PLAIN,
                       attrs=lambda r: (lambda: {'label': r.choice(
                           ['', 'e', 'a b'])} if r.random() < .3 else {}))
    ops = []
    for _ in range(rng.randint(1, 8 if tier == 'quick' else 9)):
        r = rng.random()
        if r < .5:
            op = {'op': 'cluster', 'pick': [rng.random() for _ in range(n)],
                  'frac': rng.choice([.2, .4, .6]),
                  'container': rng.choice(['list', 'list', 'tuple'])}
            if rng.random() < .7:
                op['attrs'] = c28.adict(rng, KEYS, .3)
                if rng.random() < .6:
                    x = rng.choice(['c0', 'c1', 'c2', 'x', 'my cluster', '',
                                    'it"s', 'a-b', 'c', '5'])
                    op['attrs']['name'] = x
            if rng.random() < .6:
                op['node_attrs'] = c28.adict(rng, KEYS, .4)
            op['mutate'] = rng.random() < .5
            ops.append(op)
        elif r < .7:
            ops.append({'op': 'del', 'i': rng.randrange(n)})
        elif r < .85:
            dead = [o['i'] for o in ops if o['op'] == 'del']
            ops.append({'op': 'readd', 'i': rng.choice(dead) if dead
                        else rng.randrange(n)})
        else:
            ops.append({'op': 'edge', 'u': rng.randrange(n),
                        'v': rng.randrange(n)})
    c['ops'] = ops
    if rng.random() < .12:
        c['overlap'] = True
    for o in ops:
        for k in ('attrs', 'node_attrs'):
            if k in o:
                o[k] = {a: c28.enc(v) for a, v in o[k].items()}
    return c


def reduce(case):
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
    yield from gen.drop_reducer(case)
    if case['scheme'] != 'int':
        yield dict(case, scheme='int')


def check(ob, g, d, N, nodes, E, clusters, overlap=False):
    ob.eq(sorted(map(str, g.cluster)), sorted(map(str, clusters)),
          'cluster names')
    for name, c in clusters.items():
        r = g.cluster[name]
        ob.eq(sorted(map(str, r['node_list'])),
              sorted(str(N[i]) for i in c['nodes']),
              'nodes recorded for cluster %r' % name)
        got = {k: v for k, v in r['attrs'].items() if k != 'name'}
        ob.eq(got, c['attrs'], 'attributes recorded for cluster %r' % name)
        ob.eq(r['node_attrs'], c['node_attrs'],
              'node defaults recorded for cluster %r' % name)
    txt = g.to_string()
    try:
        D = dot.parse(txt)
    except dot.DotError as e:
        ob.fail('not well-formed DOT: %s\n%s', e, txt)
    want = sorted(dot.written('cluster_%s' % name) for name in clusters)
    ob.eq(sorted(s[0] for s in D.subs), want, 'subgraphs of\n%s\n' % txt)
    home = {}
    if overlap:
        # members are recorded and stated for each cluster on its own; where
        # edges go is not claimed
        for name, c in clusters.items():
            w = dot.written('cluster_%s' % name)
            ob.eq(sorted(str(x) for x, a, s in D.nodes if s == w),
                  sorted(dot.written(N[i]) for i in c['nodes']),
                  'nodes in the subgraph of %r\n%s\n' % (name, txt))
        some = {i for c in clusters.values() for i in c['nodes']}
        ob.eq(sorted(x for x, a, s in D.nodes if s is None),
              sorted(dot.written(N[i]) for i in nodes - some),
              'nodes outside all clusters in\n%s\n' % txt)
        if sum(len(c['nodes']) for c in clusters.values()) > len(some):
            ob.ev('overlapping clusters')
        ob.key(txt)
        return
    for name, c in clusters.items():
        for i in c['nodes']:
            home[i] = dot.written('cluster_%s' % name)
    for s in D.subs:
        name = [x for x in clusters
                if dot.written('cluster_%s' % x) == s[0]][0]
        c = clusters[name]
        attrs = dict(s[1])
        ob.check(len(attrs) == len(s[1]), 'attribute stated twice in the '
                 'subgraph of %r\n%s', name, txt)
        attrs.pop('name', None)
        ob.eq(attrs, {k: dot.written(v) for k, v in c['attrs'].items()},
              'attributes in the subgraph of %r\n%s\n' % (name, txt))
        ob.eq(s[2], {k: dot.written(v) for k, v in c['node_attrs'].items()},
              'node defaults in the subgraph of %r\n%s\n' % (name, txt))
    ob.eq(sorted(((x, s) for x, a, s in D.nodes), key=str),
          sorted(((dot.written(N[i]), home.get(i)) for i in nodes), key=str),
          'nodes and their subgraphs in\n%s\n' % txt)
    want = []
    for (u, v) in E:
        same = home.get(u) if home.get(u) == home.get(v) else None
        ob.ev('edge inside a cluster' if same else
              'edge across' if home.get(u) or home.get(v) else 'edge outside')
        want.append((dot.written(N[u]), dot.written(N[v]), same))
    got = [(u, v, s) for u, v, a, s in D.edges]
    if not d:
        def canon(es):
            return sorted(((min(u, v), max(u, v), s) for u, v, s in es),
                          key=str)
        ob.eq(canon(got), canon(want), 'edges and their subgraphs in\n%s\n'
              % txt)
    else:
        ob.eq(sorted(got, key=str), sorted(want, key=str),
              'edges and their subgraphs in\n%s\n' % txt)
    ob.ev('text compared')
    ob.key(txt)
    ob.sample(txt)


def run(case, ob):
    d = case['dir']
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(case['n'])]
    g = gen.build(gimpy, case)
    nodes = set(range(case['n']))
    E = {(e[0], e[1]) for e in case['edges']}
    clusters = {}
    overlap = case.get('overlap', False)
    gone = set()
    for o in case['ops']:
        if o['op'] == 'cluster':
            taken = {i for c in clusters.values() for i in c['nodes']}
            if overlap:
                taken = set()
            free = [i for i in sorted(nodes - taken)
                    if o['pick'][i] < o['frac']]
            arg = [N[i] for i in free]
            if o['container'] == 'tuple':
                arg = tuple(arg)
            kw = {}
            for k, p in (('attrs', 'cluster_attrs'),
                         ('node_attrs', 'node_attrs')):
                if k in o:
                    kw[p] = {a: c28.dec(v) for a, v in o[k].items()}
            if not kw:
                ob.ev('default arguments')
            before = copy.deepcopy((arg, kw))
            name = kw.get('cluster_attrs', {}).get('name')
            if name is not None and name in clusters:
                with ob.raises('create_cluster with the name %r in use'
                               % name):
                    g.create_cluster(arg, **kw)
                ob.ev('duplicate name refused')
                check(ob, g, d, N, nodes, E, clusters, overlap)
                continue
            g.create_cluster(arg, **kw)
            ob.check((arg, kw) == before, 'create_cluster changed its '
                     'arguments: %r -> %r', before, (arg, kw))
            new = [x for x in g.cluster if x not in clusters]
            ob.check(len(new) == 1, 'create_cluster made the clusters %r',
                     new)
            if name is not None:
                ob.eq(new[0], name, 'name of the new cluster')
                ob.ev('name given')
            else:
                ob.ev('fresh name')
            clusters[new[0]] = {
                'nodes': list(free),
                'attrs': {k: v for k, v in before[1].get(
                    'cluster_attrs', {}).items() if k != 'name'},
                'node_attrs': before[1].get('node_attrs', {})}
            if before[1].get('node_attrs'):
                ob.ev('node defaults')
            ob.ev('cluster created')
            if o['mutate']:
                if isinstance(arg, list):
                    arg.append('later')
                for v in kw.values():
                    for x in v.values():
                        if isinstance(x, list):
                            x.append('later')
                    v['later'] = 'x'
                ob.ev('arguments mutated')
        elif o['op'] == 'del':
            i = o['i']
            if i not in nodes:
                continue
            g.del_node(N[i])
            nodes.discard(i)
            gone.add(i)
            E = {e for e in E if i not in e}
            for c in clusters.values():
                if i in c['nodes']:
                    c['nodes'].remove(i)
                    ob.ev('clustered node deleted')
                    if ('c', i) in gone:
                        ob.ev('deleted from several clusters')
                    gone.add(('c', i))
        elif o['op'] == 'readd':
            i = o['i']
            if i in nodes:
                continue
            g.add_node(N[i])
            nodes.add(i)
            if ('c', i) in gone:
                ob.ev('clustered node added again')
        else:
            u, v = o['u'], o['v']
            if (u, v) in E or (not d and (v, u) in E):
                continue
            g.add_edge(N[u], N[v])
            E.add((u, v))
            nodes |= {u, v}
        check(ob, g, d, N, nodes, E, clusters, overlap)
