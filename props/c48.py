import contextlib
import io
import gimpy
from mon import algos, dot, frames, gen, trees

PID = 'C48'
RULE = ('every algorithm with frames (graphs, networks, trees, expression '
        'trees) on graphs with clusters, hostile attribute texts and marks '
        'of earlier runs; at up to 8 moments of a run and after it the text '
        'of the graph shown (helper graphs included) is read by an '
        'independent DOT reader and compared with all nodes, edges and '
        'attribute values read by the getters, which must not change. '
        'Distinct by graph, call and modes.')
QUICK, THOROUGH = 40000, 800000
SHOWN = [a['name'] for a in algos.A]
REQUIRED = dict({'run of ' + n: 150 for n in SHOWN},
                **{'frame read': 60000, 'finished graph read': 20000,
                   'tree frame read': 8000, 'helper graph read': 300,
                   'cluster': 2000, 'directed': 5000, 'undirected': 5000,
                   'run after another': 4000, 'marked value': 50000})
TEXTS = ['it"s', 'a b', 'x=y', '', 'a;b', '{p|q}', 'a->b', '3', '-.5', 7, 2.5,
         True, None, [1, 'z'], '\u00e9', '[a,b]', '"pre quoted"', 'l1\nl2']


def gen_case(rng, i, tier):
    if rng.random() < .15:
        if rng.random() < .4:
            c = trees.expression(rng, tier, ops=['+', '-', '*'])
            c['kind'] = 'expr'
        else:
            c = trees.case(rng, tier, names=['int', 'str', 'neg', 'mixed',
                                             'falsy'])
            c['kind'] = 'tree'
    else:
        c = algos.universal(rng, tier)
        c['kind'] = 'graph'
        c['calls'] = algos.draw(rng, algos.Facts(c),
                                k=1 if rng.random() < .7 else 2)
        c['cluster'] = [rng.sample(range(c['n']), rng.randint(0, c['n']))] \
            if rng.random() < .2 else []
        c['extra'] = [[rng.randrange(c['n']), rng.choice(
            ['note', 'tooltip', 'k9']), rng.choice(TEXTS)]
            for _ in range(rng.randint(0, 3))]
    c['pick'] = rng.randrange(10 ** 6)
    c['skip'] = rng.choice([1, 1, 2, 3, 5, 9])
    return c


def reduce(case):
    if case['kind'] == 'graph':
        for k in ('extra', 'cluster'):
            if case[k]:
                yield dict(case, **{k: case[k][1:]})
        if not case['cluster'] and not case['extra']:
            yield from algos.shrink(case)
    elif case['kind'] == 'tree':
        yield from trees.shrink(case)


def read(ob, g, what):
    """the text of g states what the getters of g say, and changes nothing"""
    txt = g.to_string()
    try:
        D = dot.parse(txt)
    except dot.DotError as e:
        ob.fail('%s: the text is not well-formed DOT: %s\n%s', what, e, txt)
    directed = g.graph_type == gimpy.DIRECTED_GRAPH
    ob.eq(D.directed, directed, what + ': graph kind')
    want = []
    for n in g.get_node_list():
        a = g.get_node(n).attr
        for k, v in a.items():
            ob.check(g.get_node_attr(n, k) == v, '%s: attribute %r of %r',
                     what, k, n)
        ob.ev('marked value', len(a))
        want.append((dot.written(n), {str(k): dot.written(v)
                                      for k, v in a.items()}))
    got = [(n, a) for n, a, sub in D.nodes]
    key = lambda x: (x[0], sorted(x[1].items()))
    ob.eq(sorted(got, key=key), sorted(want, key=key),
          '%s: nodes of\n%s\n' % (what, txt))
    want = []
    for u, v in g.get_edge_list():
        want.append((dot.written(u), dot.written(v),
                     {str(k): dot.written(x)
                      for k, x in g.edge_attr[u, v].items()}))
    got = [(u, v, a) for u, v, a, sub in D.edges]

    def key(x):
        ends = x[:2] if directed else (min(x[:2]), max(x[:2]))
        return (ends, sorted(x[2].items()))
    ob.eq(sorted(map(key, got)), sorted(map(key, want)),
          '%s: edges of\n%s\n' % (what, txt))
    ob.eq(dict(D.attrs).get('layout'), str(g.get_layout()),
          '%s: layout stated in\n%s\n' % (what, txt))
    ob.eq(g.to_string(), txt, what + ': the text read a second time')


def tree_call(case):
    k = case['pick']
    kw = {}
    if case['kind'] == 'expr':
        return ['printexp', 'postordereval'][k % 2], kw
    names = ['dfs', 'bfs', 'traverse'] + (['print_nodes'] if case['binary']
                                          else [])
    if case['binary']:
        kw['priority'] = 'LR'[k // 7 % 2]
    return names[k % len(names)], kw


def run(case, ob):
    runs = []
    if case['kind'] == 'graph':
        f = algos.Facts(case)
        nm = gen.namer(case['scheme'])
        N = [nm(i) for i in range(case['n'])]
        g = gen.build(gimpy, case, display='file')
        for i, k, v in case['extra']:
            g.set_node_attr(N[i], k, v)
        for c in case['cluster']:
            g.create_cluster([N[i] for i in c])
            ob.ev('cluster')
        for name, args in case['calls']:
            if algos.BY_NAME[name]['domain'](f):
                disp = {'display': 'file'} \
                    if algos.BY_NAME[name]['display'] else {}
                runs.append((name, lambda name=name, args=args, disp=disp:
                             algos.call(g, N, name, args, disp)))
        label = 'frame read'
    else:
        name, kw = tree_call(case)
        if case['kind'] == 'expr':
            g = trees.build_expression(gimpy, case, display='file')[0]
        else:
            g = trees.build(gimpy, case, display='file')
        runs.append((name, lambda: getattr(g, name)(**kw)))
        label = 'tree frame read'
    for k, (name, fn) in enumerate(runs):
        count = {'seen': 0, 'read': 0}

        def frame(which, highlight):
            count['seen'] += 1
            if count['seen'] % case['skip'] or count['read'] > 7:
                return
            count['read'] += 1
            read(ob, which, 'frame %d of %s' % (count['seen'], name))
            ob.ev(label)
            if which is not g:
                ob.ev('helper graph read')
        with frames.observe(gimpy, frames.Frames(frame)), \
                contextlib.redirect_stdout(io.StringIO()):
            fn()
        read(ob, g, 'the graph after ' + name)
        ob.ev('finished graph read')
        ob.ev('run of ' + name)
        if k:
            ob.ev('run after another')
        ob.key(case['kind'], name, case.get('edges', case.get('links')),
               case['skip'])
    ob.ev('directed' if g.graph_type == gimpy.DIRECTED_GRAPH
          else 'undirected')
    ob.sample({'calls': [r[0] for r in runs],
               'edges': case.get('edges', case.get('links'))[:8]})
