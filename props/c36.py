import contextlib
import io
import gimpy
from mon import algos, gen, frames, snap, trees

PID = 'C36'
RULE = ('twin execution of every algorithm that takes a display argument: '
        'with the display off, with a mode given as argument, and with a '
        'mode set on the graph, on equal graphs with a counting stand-in '
        'display; results, result attributes, display mode and layout '
        'compared. Trees included (printed output compared). Distinct by '
        'graph and call.')
QUICK, THOROUGH = 60000, 1200000
SHOWN = [a['name'] for a in algos.A if a['display']]
REQUIRED = dict({'compared: ' + n: 100 for n in SHOWN},
                **{'frame': 100000, 'mode restored': 10000,
                   'tree compared': 2000, 'argument equals set mode': 1000})
MODES = ['file', 'PIL', 'matplotlib', 'xdot', 'svg', 'off']
RAISED = 'division by zero'
LAYOUTS = ['dot', 'fdp', 'circo', 'neato', None]


def gen_case(rng, i, tier):
    if rng.random() < .15:
        if rng.random() < .5:
            c = trees.expression(rng, tier)
            c['kind'] = 'expr'
        else:
            c = trees.case(rng, tier, names=['int', 'str', 'neg', 'mixed',
                                                'falsy'],
                           binary=rng.random() < .7)
            c['kind'] = 'tree'
    else:
        c = algos.universal(rng, tier)
        c['kind'] = 'graph'
        c['calls'] = algos.draw(rng, algos.Facts(c), display_only=True, k=1)
    c['set'] = rng.choice(MODES)
    c['arg'] = rng.choice(MODES)
    c['layout'] = rng.choice(LAYOUTS)
    c['pick'] = rng.randrange(10 ** 6)
    return c


def reduce(case):
    if case['kind'] == 'graph':
        yield from algos.shrink(case)
    elif case['kind'] == 'tree':
        yield from trees.shrink(case)


def gkw(case, mode):
    kw = {'display': mode}
    if case['layout'] is not None:
        kw['layout'] = case['layout']
    return kw


def settings(g):
    return g.attr['display'], g.get_layout()


def attrs(g):
    # trees and drawings of trees are colored only while they are shown
    skip = ('color',) if isinstance(g, gimpy.Tree) else ()
    return {'nodes': snap.node_attrs(g, skip),
            'edges': snap.edge_attrs(g, skip),
            'structure': snap.structure(g)}


def execute(ob, make, fn, mode, disp, what):
    """run on a new graph; result, attributes, printed text, frames"""
    g = make(mode)
    before = settings(g)
    fr = frames.Frames()
    out = io.StringIO()
    with frames.observe(gimpy, fr), contextlib.redirect_stdout(out):
        r = fn(g, disp)
    if r != RAISED:
        ob.eq(settings(g), before,
              what + ': display mode and layout afterwards')
        ob.ev('mode restored')
    ob.ev('frame', fr.shown)
    return r, attrs(g), out.getvalue(), fr


def compare(ob, make, fn, case, what):
    base = execute(ob, make, fn, 'off', {}, what + ', display off')
    if base[3].shown:
        ob.fail('%s: %d frames with the display off', what, base[3].shown)
    variants = [('off', {'display': case['arg']}),
                (case['set'], {}),
                (case['set'], {'display': case['arg']}),
                (case['set'], {'display': 'off'})]
    for mode, disp in variants:
        w = '%s, display %r on the graph, argument %r' % (
            what, mode, disp.get('display'))
        got = execute(ob, make, fn, mode, disp, w)
        ob.eq(got[0], base[0], w + ': result')
        d = snap.diff(base[1], got[1])
        ob.check(d is None, '%s: attributes differ: %s', w, d)
        ob.eq(got[2], base[2], w + ': printed output')
        if disp.get('display') == mode and mode != 'off':
            ob.ev('argument equals set mode')


def run(case, ob):
    if case['kind'] == 'graph':
        f = algos.Facts(case)
        nm = gen.namer(case['scheme'])
        N = [nm(i) for i in range(case['n'])]
        for name, args in case['calls']:
            if not algos.BY_NAME[name]['domain'](f):
                continue
            compare(ob, lambda mode: gen.build(gimpy, case,
                                               **gkw(case, mode)),
                    lambda g, disp: algos.call(g, N, name, args, disp),
                    case, '%s %r' % (name, args))
            ob.ev('compared: ' + name)
            ob.sample({'call': [name, args], 'set': case['set'],
                       'argument': case['arg']})
        ob.key(case['dir'], case['n'], case['edges'], case['calls'])
        return
    k = case['pick']
    if case['kind'] == 'expr':
        what = ['printexp', 'postordereval'][k % 2]

        def make(mode):
            return trees.build_expression(gimpy, case, **gkw(case, mode))[0]

        def fn(t, disp):
            try:
                return getattr(t, what)(**disp)
            except ZeroDivisionError:
                return RAISED
    else:
        what = (['dfs', 'bfs', 'traverse', 'print_nodes'] if case['binary']
                else ['dfs', 'bfs', 'traverse'])
        what = what[k % len(what)]
        kw = {}
        if case['binary']:
            kw['priority'] = 'LR'[k // 7 % 2]
            if what == 'print_nodes':
                kw['order'] = ['pre', 'in', 'post'][k // 17 % 3]

        def make(mode):
            return trees.build(gimpy, case, **gkw(case, mode))

        def fn(t, disp):
            return getattr(t, what)(**dict(kw, **disp))
    compare(ob, make, fn, case, what)
    ob.ev('tree compared')
    ob.key(case['links'], case['scheme'], what, case['set'], case['arg'])
