import contextlib
import io
from fractions import Fraction
import gimpy
from mon import trees, snap, frames

PID = 'C32'
RULE = ('random full binary expression trees (+ - * /, integers including 0 '
        'and negative ones, labels on nodes or names), printed and evaluated '
        'from the root and from inner nodes, display off and on; output and '
        'value compared with an independent printer and evaluator. Distinct '
        'by expression.')
QUICK, THOROUGH = 120000, 2400000
REQUIRED = {'printed': 20000, 'evaluated': 15000, 'division by zero': 500,
            'inner start node': 8000, 'names as operators': 2000,
            'zero operand': 5000, 'operand above 2**53': 500, 'fraction': 1000, 'tree unchanged': 30000}


def gen_case(rng, i, tier):
    c = trees.expression(rng, tier, **({'hi': 60} if rng.random() < .01
                                       else {}))
    c['root'] = rng.randrange(c['n']) if rng.random() < .4 else None
    c['display'] = rng.choice(['off', 'off', 'file'])
    return c


def reduce(case):
    links = case['links']
    par = {}
    for i, p, s in links:
        par.setdefault(p, []).append(i)
    for p, kids in par.items():
        if not any(k in par for k in kids) and case['root'] not in kids:
            left = [l for l in links if l[0] not in kids]
            if len(left) == case['n'] - 3 or True:
                # renumber so that node numbers stay consecutive
                alive = sorted({0} | {l[0] for l in left})
                new = {x: k for k, x in enumerate(alive)}
                text = {str(new[x]): case['text'][str(x)] for x in alive}
                text[str(new[p])] = '1'
                yield dict(case, n=len(alive), text=text,
                           root=None if case['root'] is None
                           else new[case['root']],
                           links=[[new[a], new[b], s] for a, b, s in left])


class Div(Exception):
    pass


def evaluate(M, text, r, out):
    """value; tokens and '= value' groups in postorder go to out"""
    a, b = M.child(r, 'L'), M.child(r, 'R')
    if a is None:
        out.append(text[str(r)])
        return int(text[str(r)])
    x = evaluate(M, text, a, out)
    out.append(text[str(r)])
    y = evaluate(M, text, b, out)
    op = text[str(r)]
    if op == '/' and y == 0:
        raise Div()
    v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
         '/': lambda: x / y}[op]()
    out.append(('=', v))
    return v


def exact(M, text, r):
    a, b = M.child(r, 'L'), M.child(r, 'R')
    if a is None:
        return Fraction(int(text[str(r)]))
    x, y = exact(M, text, a), exact(M, text, b)
    op = text[str(r)]
    return x + y if op == '+' else x - y if op == '-' else \
        x * y if op == '*' else x / y


def written(M, text, r):
    a, b = M.child(r, 'L'), M.child(r, 'R')
    if a is None:
        return [text[str(r)]]
    return (['('] + written(M, text, a) + [text[str(r)]] +
            written(M, text, b) + [')'])


def run(case, ob):
    M = trees.Model(case['links'])
    text = case['text']
    t, names = trees.build_expression(gimpy, case, display=case['display'])
    r = case['root'] or 0
    kw = {}
    if case['root'] is not None:
        kw['root'] = names[r]
        ob.ev('inner start node')
    if case['scheme'] == 'name':
        ob.ev('names as operators')
    before = snap.full(t)
    for n in before['nattr'].values():
        n.pop('color', None)

    def same(what):
        after = snap.full(t)
        for n in after['nattr'].values():
            n.pop('color', None)
        d = snap.diff(before, after)
        ob.check(d is None, '%s changed the tree: %s', what, d)
        ob.ev('tree unchanged')

    out = io.StringIO()
    with frames.observe(gimpy, frames.Frames()), \
            contextlib.redirect_stdout(out):
        t.printexp(**kw)
    ob.eq(out.getvalue().split(), written(M, text, r), 'printexp')
    ob.ev('printed')
    same('printexp')

    toks = []
    zero = False
    try:
        want = evaluate(M, text, r, toks)
    except Div:
        zero = True
    except OverflowError:
        return
    out = io.StringIO()
    got = None
    with frames.observe(gimpy, frames.Frames()), \
            contextlib.redirect_stdout(out):
        try:
            got = t.postordereval(**kw)
        except ZeroDivisionError:
            if not zero:
                raise
            ob.ev('division by zero')
            got = 'zero'
    same('postordereval')
    if zero:
        ob.eq(got, 'zero', 'postordereval of a division by zero')
        return
    ob.eq(got, want, 'postordereval of %s' % ' '.join(written(M, text, r)))
    try:
        ex = exact(M, text, r)
        ob.check(abs(Fraction(got) - ex) <= abs(ex) * Fraction(1, 10 ** 6) +
                 Fraction(1, 10 ** 6) or any(
                     isinstance(x, tuple) and isinstance(x[1], float)
                     for x in toks),
                 'postordereval of %s gave %r, exactly %s', written(
                     M, text, r), got, ex)
    except ZeroDivisionError:
        pass
    if isinstance(got, float) and got != int(got):
        ob.ev('fraction')
    # operands, operators and intermediate results in the order of evaluation
    want_out = []
    for x in toks:
        if isinstance(x, tuple):
            want_out += ['=', str(x[1]), str(x[1])]
        else:
            want_out.append(x)
    ob.eq(out.getvalue().split(), want_out, 'printed by postordereval')
    ob.ev('evaluated')
    if '0' in text.values():
        ob.ev('zero operand')
    if any(x.lstrip('-').isdigit() and abs(int(x)) > 2 ** 53
           for x in text.values()):
        ob.ev('operand above 2**53')
    ob.key(case['links'], text, case['root'], case['scheme'])
    ob.sample(' '.join(written(M, text, r)))
