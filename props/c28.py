import os
import shutil
import subprocess
import gimpy
from mon import dot, gen

PID = 'C28'
RULE = ('random graphs, digraphs, trees and update histories whose node '
        'names, graph names and attribute values are hostile text (quotes, '
        'separators, operators, comments, unicode, numbers in all notations, '
        'empty, quoted by the caller), parsed by an independent strict DOT '
        'reader and compared element by element; a sample is read by '
        'graphviz (gvpr) too. Distinct by text.')
QUICK, THOROUGH = 72000, 1440000
REQUIRED = {'text parsed': 20000, 'node statement': 50000,
            'edge statement': 50000, 'attribute value': 50000,
            'text that needs quotes': 10000, 'quote inside': 3000,
            'non-ascii text': 3000, 'newline inside': 1000,
            'empty string': 1000, 'quoted by the caller': 1000,
            'graph attribute': 5000, 'attribute unknown to DOT': 3000,
            'number as value': 3000}
if shutil.which('gvpr'):
    REQUIRED['read by graphviz'] = 100

TEXT = ['a', 'b1', '_x', 'n', 'A b', 'a-b', 'a--b', 'a->b', '->', '--', '-',
        '3', '0', '-7', '3.4', '.5', '5.', '1e5', '1e-07', '0x1f', '12ab',
        'x,y', 'p:q', 'p:n', 'a;b', '[z]', '{y}', '{', '}', '[', ']', '=',
        'a=b', '"', '""', 'it"s', '"open', 'close"', '"a" "b"', "'", "it's",
        '#1', '# x', '//', '/*', '*/', 'a/*b*/', 'a // b', '<', '>', '<b',
        'a>', 'a<b>c', '&amp;', '%', '%s', '$', '@', '!', '1,2!', '~', '`',
        '^', '|', '{a|b}', '(', ')', '+', '*', '/', '?', '.', '..', ',', ';',
        ':', ' ', '  ', ' lead', 'trail ', 'two  spaces', 'tab\tinside', '',
        '\u00e9t\u00e9', '\u00df', '\u4f60\u597d', '\U0001f600', '\u00a0',
        'x\u0301', '\u2028', '\u202e', 'a\nb', '\n', 'a\r\nb', 'line\n',
        '"pre quoted"', '"pre, \\" quoted"', '"1.5,2!"', '"\u00e9"', '"3"',
        'inf', 'nan', 'None', 'True', 'false', 'cluster_x', 'a_b', 'Zz9',
        'nodes', 'edges', 'graphs', 'subgraphs', 'stricter', 'digraphs', 'c0']
VALUES = [0, 1, -1, 17, 10 ** 20, -0.5, .25, 1e-07, 1e+30, 2.0, 1.5e300,
          True, False, [1, 2], ['a', 'b"c'], (1, 'x'), {'k': 1}, -3]
KEYS = ['label', 'color', 'pos', 'shape', 'cost', 'capacity', 'x', '_k',
        'K9', 'tooltip', 'xlabel', 'fontname']
GKNOWN = ['label', 'rankdir', 'size', 'K', 'splines', 'bgcolor', 'fontname',
          'ratio', 'id', 'comment', 'root', 'dpi', 'nodesep', 'ranksep',
          'rank', 'margin', 'pad', 'overlap', 'concentrate', 'compound',
          'fontsize', 'fontcolor', 'labelloc', 'labeljust', 'ordering',
          'outputorder', 'center', 'charset', 'landscape', 'orientation',
          'page', 'pagedir', 'rotate', 'sep', 'esep', 'mode', 'model',
          'start', 'URL', 'stylesheet', 'target', 'colorscheme', 'viewport',
          'truecolor', 'resolution', 'normalize', 'pack', 'packmode',
          'maxiter', 'mindist', 'nslimit', 'clusterrank', 'bb', 'dim',
          'epsilon', 'layers', 'quadtree', 'remincross']
GOTHER = ['foo', 'custom', 'author', 'cost', 'note_1']


def text(rng):
    r = rng.random()
    if r < .75:
        return rng.choice(TEXT)
    if r < .89:
        return rng.choice(TEXT) + rng.choice(TEXT)
    if r < .9:
        return ' '.join(['long', 'name', str(rng.random())] *
                        rng.randint(5, 40))
    return ''.join(rng.choice(
        'ab01 _-,;:.{}[]<>=/*#"\'\n\u00e9\u4f60\U0001f600()|&%+!~^`?@$')
        for _ in range(rng.randint(1, 6)))


def legal(s):
    """outside the exclusions of the property"""
    if not isinstance(s, str):
        return True
    if '\\' in s and s != '"pre, \\" quoted"':
        return False
    if s.startswith('<') and s.rstrip('\n').endswith('>'):
        return False
    if len(s) > 1 and s[0] == s[-1] == '"' and '\n' in s:
        return False
    return s.strip('"').lower() not in dot.KEYWORDS and \
        s.lower() not in dot.KEYWORDS


def name_of(rng, used):
    for _ in range(50):
        r = rng.random()
        x = text(rng) if r < .8 else rng.choice(
            [rng.randint(-50, 50), rng.randint(-9, 9) / 4.0, 10 ** 9, 1e-7,
             (1, 'x'), (2, 'it"s')])
        if legal(x) and dot.written(x) not in used and x not in used:
            used.add(dot.written(x))
            used.add(x)
            return x
    x = 'fresh%d' % len(used)
    used.add(x)
    return x


def value(rng):
    for _ in range(50):
        x = text(rng) if rng.random() < .7 else rng.choice(VALUES)
        if legal(x):
            return x
    return 'v'


def adict(rng, keys, p):
    return {k: value(rng) for k in keys if rng.random() < p}


def enc(x):
    return {'t': list(x)} if isinstance(x, tuple) else x


def dec(x):
    return tuple(x['t']) if isinstance(x, dict) and set(x) == {'t'} else x


def gen_case(rng, i, tier):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8]) if tier == 'quick' else \
        rng.randint(0, 14)
    if rng.random() < .004:
        n = rng.randint(20, 45)
    used = set()
    names = [name_of(rng, used) for _ in range(n)]
    kind = rng.choice(['graph', 'graph', 'digraph', 'digraph', 'tree'])
    p = rng.choice([0, .05, .2, .4])
    nodes = [[enc(x), {k: enc(v) for k, v in adict(rng, KEYS, p).items()}]
             for x in names]
    edges = []
    if kind == 'tree':
        for k in range(1, n):
            edges.append([rng.randrange(k), k, {}])
    else:
        for u in range(n):
            for v in range(n):
                if rng.random() < (.3 if n < 20 else .08) and (kind == 'digraph' or u <= v):
                    e = [u, v] if rng.random() < .7 or kind == 'digraph' \
                        else [v, u]
                    edges.append(e + [{k: enc(w) for k, w in
                                       adict(rng, KEYS, p).items()}])
        rng.shuffle(edges)
    g = {k: enc(v) for k, v in adict(rng, GKNOWN, p).items()}
    g.update({k: enc(v) for k, v in adict(rng, GOTHER, p).items()})
    if rng.random() < .4:
        g['name'] = enc(name_of(rng, set()))
    dele = []
    if rng.random() < .3 and kind != 'tree' and n:
        dele = [rng.randrange(n) for _ in range(rng.randint(1, 3))]
    late = []
    if rng.random() < .3 and n:
        for _ in range(rng.randint(1, 4)):
            late.append([rng.randrange(n), rng.choice(KEYS),
                         enc(value(rng))])
    return {'kind': kind, 'nodes': nodes, 'edges': edges, 'g': g,
            'del': dele, 'late': late, 'gv': rng.random() < .02}


def reduce(case):
    es = case['edges']
    if case['kind'] != 'tree':
        for k in range(len(es)):
            yield dict(case, edges=es[:k] + es[k + 1:])
    for k in range(len(es)):
        if es[k][2]:
            yield dict(case, edges=es[:k] + [es[k][:2] + [{}]] + es[k + 1:])
    for k, (x, a) in enumerate(case['nodes']):
        for key in a:
            b = {q: v for q, v in a.items() if q != key}
            yield dict(case, nodes=case['nodes'][:k] + [[x, b]] +
                       case['nodes'][k + 1:])
    for key in case['g']:
        yield dict(case, g={q: v for q, v in case['g'].items() if q != key})
    for key in ('del', 'late'):
        for k in range(len(case[key])):
            yield dict(case, **{key: case[key][:k] + case[key][k + 1:]})
    n = len(case['nodes'])
    if n and not any(n - 1 in e[:2] for e in es):
        yield dict(case, nodes=case['nodes'][:-1],
                   late=[x for x in case['late'] if x[0] != n - 1],
                   **{'del': [x for x in case['del'] if x != n - 1]})


def note(ob, x):
    if isinstance(x, str):
        if not x:
            ob.ev('empty string')
        elif x[0] == x[-1] == '"' and len(x) > 1:
            ob.ev('quoted by the caller')
        elif '"' in x:
            ob.ev('quote inside')
        if '\n' in x:
            ob.ev('newline inside')
        if any(ord(c) > 127 for c in x):
            ob.ev('non-ascii text')
        if not x.isidentifier() and not x.isdigit():
            ob.ev('text that needs quotes')
    elif isinstance(x, (int, float)):
        ob.ev('number as value')


def want_attrs(ob, a):
    for k, v in a.items():
        note(ob, v)
        ob.ev('attribute value')
    return {k: dot.written(v) for k, v in a.items()}


GATTRS = None


def model(case):
    """what the graph must contain"""
    names = [dec(x) for x, a in case['nodes']]
    nodes = {names[k]: {q: dec(v) for q, v in a.items()}
             for k, (x, a) in enumerate(case['nodes'])}
    edges = {(names[u], names[v]): {q: dec(w) for q, w in a.items()}
             for u, v, a in case['edges']}
    return names, nodes, edges


def build(case, names, nodes, edges):
    g = {k: dec(v) for k, v in case['g'].items()}
    if case['kind'] == 'tree':
        t = gimpy.Tree(**g)
        for k, x in enumerate(names):
            if k == 0:
                t.add_root(x, **nodes[x])
            else:
                p = names[[e[0] for e in case['edges'] if e[1] == k][0]]
                t.add_child(x, p, **nodes[x])
        return t
    G = gimpy.Graph(type=gen.gtype(case['kind'] == 'digraph'), **g)
    for x in names:
        G.add_node(x, **nodes[x])
    for (u, v), a in edges.items():
        G.add_edge(u, v, **a)
    return G


def parse(ob, txt, what):
    try:
        return dot.parse(txt)
    except dot.DotError as e:
        ob.fail('%s is not well-formed DOT: %s\n%s', what, e, txt)


def run(case, ob):
    names, nodes, edges = model(case)
    g = build(case, names, nodes, edges)
    if case['kind'] == 'tree':
        lev = {}
        for k, x in enumerate(names):
            if k == 0:
                lev[x] = 0
                nodes[x] = dict(nodes[x], level=0)
            else:
                p = names[[e[0] for e in case['edges'] if e[1] == k][0]]
                lev[x] = lev[p] + 1
                nodes[x] = dict(nodes[x], level=lev[x], parent=p)
    for k, key, v in case['late']:
        g.set_node_attr(names[k], key, dec(v))
        nodes[names[k]][key] = dec(v)
    for k in case['del']:
        x = names[k]
        if x in nodes:
            g.del_node(x)
            del nodes[x]
            edges = {e: a for e, a in edges.items() if x not in e}
    txt = g.to_string()
    D = parse(ob, txt, 'to_string()')
    ob.ev('text parsed')
    directed = case['kind'] != 'graph'
    ob.eq(D.directed, directed, 'graph kind')
    gname = dec(case['g'].get('name', 'G'))
    note(ob, gname)
    ob.eq(D.name, dot.written(gname), 'graph name')
    ob.eq(D.subs, [], 'subgraphs')

    for x in nodes:
        note(ob, x)
        ob.ev('node statement')
    got = sorted((nm, sorted(a.items())) for nm, a, sub in D.nodes)
    want = sorted((dot.written(x), sorted(want_attrs(ob, a).items()))
                  for x, a in nodes.items())
    ob.eq(got, want, 'node statements of\n%s\n' % txt)
    got = sorted((u, v, sorted(a.items())) for u, v, a, sub in D.edges)
    want = []
    for (u, v), a in edges.items():
        ob.ev('edge statement')
        want.append((dot.written(u), dot.written(v),
                     sorted(want_attrs(ob, a).items())))
    if not directed:
        def canon(es):
            return sorted((min(u, v), max(u, v), a) for u, v, a in es)
        ob.eq(canon(got), canon(want), 'edge statements of\n%s\n' % txt)
    else:
        ob.eq(got, sorted(want), 'edge statements of\n%s\n' % txt)
    want = {k: dot.written(dec(v)) for k, v in case['g'].items()
            if k in GKNOWN}
    want['layout'] = 'dot' if case['kind'] == 'tree' else 'fdp'
    for k in case['g']:
        if k in GKNOWN:
            note(ob, dec(case['g'][k]))
            ob.ev('graph attribute')
        elif k in GOTHER:
            ob.ev('attribute unknown to DOT')
    ob.eq(sorted(D.attrs), sorted(want.items()), 'graph attributes of\n%s\n'
          % txt)
    # the same element text is used on its own by Node and edge_to_string
    for x in list(nodes)[:2]:
        P = parse(ob, 'graph {' + g.get_node(x).to_string() + '}',
                  'Node.to_string()')
        ob.eq([(nm, a) for nm, a, s in P.nodes],
              [(dot.written(x), {k: dot.written(v)
                                 for k, v in nodes[x].items()})],
              'Node.to_string() of %r' % (x,))
    for e in list(edges)[:2]:
        P = parse(ob, ('digraph {' if directed else 'graph {') +
                  g.edge_to_string(e) + '}', 'edge_to_string()')
        ob.eq([(u, v, a) for u, v, a, s in P.edges],
              [(dot.written(e[0]), dot.written(e[1]),
                {k: dot.written(v) for k, v in edges[e].items()})],
              'edge_to_string(%r)' % (e,))
    if case['gv'] and shutil.which('gvpr') and \
            not any(x[0].startswith('%') for x in D.nodes):
        # graphviz renames nodes that start with %
        graphviz(ob, txt, D)
    ob.key(txt)
    ob.sample(txt)


GV = r'''BEG_G { string a; int n=0;
 printf("G\x1f%d\x1f%d\x1e", isDirect($G), isStrict($G)); }
N { printf("N\x1f%s", $.name);
  a = fstAttr($G, "N"); while (a != "") { if (aget($, a) != "")
    printf("\x1f%s\x1f%s", a, aget($, a)); a = nxtAttr($G, "N", a); }
  printf("\x1e"); }
E { printf("E\x1f%s\x1f%s", $.tail.name, $.head.name);
  a = fstAttr($G, "E"); while (a != "") { if (aget($, a) != "" && a != "key")
    printf("\x1f%s\x1f%s", a, aget($, a)); a = nxtAttr($G, "E", a); }
  printf("\x1e"); }'''


def graphviz(ob, txt, D):
    """the second reader: same nodes, edges and non-empty attribute values"""
    prog = GV.replace('\\x1f', '\x1f').replace('\\x1e', '\x1e')
    p = subprocess.run(['gvpr', prog], input=txt.encode('utf8'),
                       capture_output=True, timeout=60)
    ob.check(p.returncode == 0 and b'rror' not in p.stderr,
             'graphviz rejects the text: %s\n%s', p.stderr[:300], txt)
    recs = p.stdout.decode('utf8').split('\x1e')
    nodes, edges = [], []
    for r in recs:
        f = r.split('\x1f')
        if f[0] == 'N':
            nodes.append((f[1], sorted(zip(f[2::2], f[3::2]))))
        elif f[0] == 'E':
            edges.append((f[1], f[2], sorted(zip(f[3::2], f[4::2]))))

    def nonempty(a):
        return sorted((k, v) for k, v in a.items() if v != '')
    want = sorted((nm, nonempty(a)) for nm, a, s in D.nodes)
    ob.eq(sorted(nodes), want, 'nodes read by graphviz from\n%s\n' % txt)
    want = sorted((u, v, nonempty(a)) for u, v, a, s in D.edges)
    if D.directed:
        ob.eq(sorted(edges), want, 'edges read by graphviz from\n%s\n' % txt)
    else:
        def canon(es):
            return sorted((min(u, v), max(u, v), a) for u, v, a in es)
        ob.eq(canon(edges), canon(want),
              'edges read by graphviz from\n%s\n' % txt)
    ob.ev('read by graphviz')
