import contextlib
import io
import gimpy
from mon import algos, gen, frames, trees

PID = 'C37'
RULE = ('every algorithm with a display argument (graphs, networks, trees, '
        'expression trees), under all combinations of mode set on the graph '
        'and mode given as argument; the mode in force is recorded at every '
        'display call, helper graphs included. Distinct by graph, call and '
        'modes.')
QUICK, THOROUGH = 240000, 4800000
SHOWN = [a['name'] for a in algos.A if a['display'] and
         a['name'] not in ('cycle_canceling', 'network_simplex')]
REQUIRED = dict({'frames of ' + n: 1000 for n in SHOWN},
                **{'frames of network_simplex': 300, 'silent run': 5000,
                   'argument used': 5000, 'set mode used': 5000,
                   'frames of trees': 5000})
MODES = ['file', 'PIL', 'matplotlib', 'xdot', 'off', 'off']


def gen_case(rng, i, tier):
    if rng.random() < .2:
        if rng.random() < .4:
            c = trees.expression(rng, tier, ops=['+', '-', '*'])
            c['kind'] = 'expr'
        else:
            c = trees.case(rng, tier, names=['int', 'str', 'neg', 'mixed', 'falsy'])
            c['kind'] = 'tree'
    else:
        c = algos.universal(rng, tier)
        c['kind'] = 'graph'
        c['calls'] = [x for x in algos.draw(rng, algos.Facts(c),
                                            display_only=True, k=1)
                      if x[0] != 'cycle_canceling']
    c['set'] = rng.choice(MODES)
    c['arg'] = rng.choice(MODES + [None])
    c['pick'] = rng.randrange(10 ** 6)
    return c


def reduce(case):
    if case['kind'] == 'graph':
        yield from algos.shrink(case)
    elif case['kind'] == 'tree':
        yield from trees.shrink(case)


def tree_call(case):
    k = case['pick']
    kw = {}
    if case['kind'] == 'expr':
        return ['printexp', 'postordereval'][k % 2], kw
    names = ['dfs', 'bfs', 'traverse'] + (['print_nodes'] if case['binary']
                                          else [])
    what = names[k % len(names)]
    if case['binary']:
        kw['priority'] = 'LR'[k // 7 % 2]
    return what, kw


def run(case, ob):
    disp = {} if case['arg'] is None else {'display': case['arg']}
    want = case['arg'] or case['set']
    if case['kind'] == 'graph':
        f = algos.Facts(case)
        if not case['calls']:
            return
        name, args = case['calls'][0]
        if not algos.BY_NAME[name]['domain'](f):
            return
        if name == 'network_simplex' and not disp:
            disp = {'display': case['set']}     # a mandatory argument there
        nm = gen.namer(case['scheme'])
        N = [nm(i) for i in range(case['n'])]
        g = gen.build(gimpy, case, display=case['set'])

        def fn():
            algos.call(g, N, name, args, disp)
        label = name
    else:
        name, kw = tree_call(case)
        if case['kind'] == 'expr':
            g = trees.build_expression(gimpy, case, display=case['set'])[0]
        else:
            g = trees.build(gimpy, case, display=case['set'])

        def fn():
            getattr(g, name)(**dict(kw, **disp))
        label = 'trees'
    fr = frames.Frames()
    with frames.observe(gimpy, fr), \
            contextlib.redirect_stdout(io.StringIO()):
        fn()
    what = '%s, display %r set, argument %r' % (name, case['set'],
                                                disp.get('display'))
    if want == 'off':
        ob.check(fr.shown == 0, '%s: %d frames shown', what, fr.shown)
        ob.ev('silent run')
    else:
        ob.check(fr.modes <= {want}, '%s: frames shown in %r', what,
                 sorted(map(str, fr.modes)))
        if name not in ('network_simplex', 'min_cost_flow'):
            ob.check(fr.shown > 0, '%s: no frame was shown', what)
        ob.ev('frames of ' + label, fr.shown)
        ob.ev('argument used' if disp else 'set mode used')
    ob.key(case['kind'], name, case.get('edges', case.get('links')),
           case['set'], case['arg'])
    ob.sample({'call': name, 'set': case['set'], 'argument': case['arg'],
               'frames': fr.shown})
