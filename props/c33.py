import contextlib
import copy
import io
import locale
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import gimpy
import gimpy.graph
from mon import algos, gen, snap

PID = 'C33'
RULE = ('random graphs and sequences of create, write, display and algorithm '
        'calls over every layout, format and display mode, with stand-in '
        'renderers on a scratch PATH that work, are missing, are not '
        'executable, fail with or without partial output, are killed, print '
        'warnings, print more than a pipe holds, or print nothing, in a UTF-8 '
        'and in an ASCII locale, and of graphs that cannot be turned into '
        'text or bytes. Watched: '
        'bytes received and written, every file of the scratch directories, '
        'files opened for writing and processes started (audit hook), open '
        'descriptors, children, attributes, display mode. Distinct by '
        'sequence and graph.')
QUICK, THOROUGH = 7000, 120000
FAULTS = ['good', 'warn', 'big', 'empty', 'missing', 'noexec', 'badformat',
          'fail', 'partial', 'killed']
MODES = ['off', 'file', 'PIL', 'matplotlib', 'xdot', 'nonsense']
REQUIRED = dict({'renderer ' + f: 300 for f in FAULTS},
                **{'create': 1000, 'write': 1000, 'write dot': 200,
                   'display file': 1000, 'display off': 200,
                   'display PIL': 300, 'display matplotlib': 30,
                   'viewer saw the picture': 150, 'good after a fault': 500,
                   'error reported': 1000, 'earlier file replaced': 200,
                   'directory compared': 10000, 'highlight': 500,
                   'highlight taken back': 100,
                   'algorithm in file mode': 200, 'ASCII locale': 1000,
                   'more than ASCII in an ASCII locale': 300,
                   'graph cannot be written': 500, 'TeX written': 500,
                   'latex failed': 150, 'dot2tex failed': 150})
ASSUMES = ['renderers are stand-ins; viewers are stubs that record what they '
           'were asked to show; so are dot2tex and latex']

LAYOUTS = ['dot', 'fdp', 'neato', 'circo', 'twopi', 'sfdp']
FORMATS = ['png', 'svg', 'ps', 'pdf', 'gif', 'plain', 'xdot', 'canon']
NAMES = ['graph', 'graph', 'my graph', 'a.b', 'sub/pic', '\u00e9t\u00e9', '-x',
         '%s', 'x;y']

STANDIN = r'''#!/bin/sh
# records how it was called and prints a picture of its input
layout=${0##*/}
fmt= out= in=
while [ $# -gt 0 ]; do
  case "$1" in
    -T) fmt=$2; shift;;
    -T*) fmt=${1#-T};;
    -K) layout=$2; shift;;
    -K*) layout=${1#-K};;
    -o) out=$2; shift;;
    -o*) out=${1#-o};;
    -*) :;;
    *) in=$1;;
  esac
  shift
done
if [ -n "$out" ]; then exec > "$out"; fi
picture() {
  if [ "$fmt" = png ] && [ -n "$STANDIN_PNG" ]; then
    /bin/cat "$STANDIN_PNG"
  else
    echo "picture $layout $fmt"
  fi
  if [ -n "$in" ]; then /bin/cat "$in"; else /bin/cat; fi
}
case "$STANDIN_MODE" in
  good) picture;;
  meet) # go on once two are at work, or after a second
        if /bin/mkdir "$STANDIN_MEET/a" 2>/dev/null; then
          for i in 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0; do
            if [ -d "$STANDIN_MEET/b" ]; then break; fi
            /bin/sleep 0.05
          done
        else /bin/mkdir "$STANDIN_MEET/b"; fi
        picture;;
  warn) echo "Warning: node overlap" >&2; picture;
        echo "Warning: more" >&2;;
  big) /bin/cat "$STANDIN_BIG" >&2; picture; /bin/cat "$STANDIN_BIG";;
  empty) :;;
  fail) echo "Error: syntax error in line 1" >&2; exit 1;;
  partial) picture; echo "Error: out of memory" >&2; exit 3;;
  killed) echo "picture $layout $fmt"; kill -9 $$;;
esac
exit 0
'''


TEXTOOL = r'''#!/bin/sh
# latex and pdflatex read NAME.tex, dvips reads NAME.dvi
case "$STANDIN_MODE" in fail) echo "! Emergency stop."; exit 1;; esac
case "${0##*/}" in
  latex) in=.tex out=.dvi;;
  pdflatex) in=.tex out=.pdf;;
  dvips) in=.dvi out=.ps;;
esac
n=$1
case "$n" in -*) n=./$n;; esac
b=${n%$in}
{ echo "${0##*/}"; /bin/cat "$b$in"; } > "$b$out"
'''


def gen_case(rng, i, tier):
    c = gen.graph_case(rng, tier, hi=5, big=6, attrs=gen.cost_attrs())
    c['nattr'] = {str(k): {'label': rng.choice(['a', 'x y', '\u00e9', ''])}
                  for k in range(c['n']) if rng.random() < .4}
    c['gattr'] = {}
    if rng.random() < .5:
        c['gattr']['layout'] = rng.choice(LAYOUTS)
    ops = []
    last = None
    for _ in range(rng.randint(1, 6 if tier == 'quick' else 10)):
        fault = 'good' if rng.random() < .35 else rng.choice(FAULTS)
        r = rng.random()
        if r < .2:
            op = {'op': 'create', 'layout': rng.choice(LAYOUTS),
                  'format': rng.choice(FORMATS)}
        elif r < .42:
            op = {'op': 'write', 'layout': rng.choice(LAYOUTS + [None] * 4),
                  'format': rng.choice(FORMATS + ['dot', 'dot', None]),
                  'to': rng.choice(['memory', 'memory', 'file', 'append'])}
        elif r < .95:
            op = {'op': 'display', 'mode': rng.choice(
                ['file'] * 6 + ['PIL'] * 4 + ['off', 'off', 'xdot',
                                              'nonsense'] +
                (['matplotlib'] if rng.random() < .35 else [])),
                'basename': rng.choice(NAMES + [None]),
                'format': rng.choice(FORMATS + [None, 'dot'])}
            if op['mode'] in ('PIL', 'matplotlib'):
                op['format'] = rng.choice(['png', None])
                op['wait'] = rng.random() < .5
            if rng.random() < .4:
                op['highlight'] = [[rng.randrange(c['n']), rng.random() < .5]
                                   for _ in range(rng.randint(0, 2))]
            if op['mode'] == 'file' and last and rng.random() < .4:
                op['basename'], op['format'] = last
            last = op['basename'], op['format']
        else:
            f = algos.Facts(c)
            a = algos.draw(rng, f, display_only=True, k=1)
            if not a:
                continue
            op = {'op': 'algo', 'call': a[0]}
            fault = 'good'
        op['fault'] = fault
        if op['op'] != 'algo' and rng.random() < .2:
            op['locale'] = 'C'
        if op['op'] in ('create', 'write') or op.get('mode') in (
                'file', 'PIL', 'matplotlib'):
            if rng.random() < .12:
                op['unwritable'] = rng.choice(['surrogate', 'str'])
        ops.append(op)
        if rng.random() < .12:
            op = {'op': 'tex', 'mode': rng.choice(['file'] * 5 + ['PIL',
                                                                  'off']),
                  'basename': rng.choice(NAMES + [None]),
                  'format': rng.choice(['pdf', 'pdf', 'ps', 'ps', 'png',
                                        None]),
                  'fault': rng.choice(['good', 'good', 'good', 'dot2tex',
                                       'missing', 'fail'])}
            if rng.random() < .2:
                op['locale'] = 'C'
            if rng.random() < .4:
                op['highlight'] = [[rng.randrange(c['n']), False]]
            ops.append(op)
        if rng.random() < .06:
            ops.append({'op': 'pair', 'how': [
                [rng.choice(['create', 'write', 'file']), rng.choice(LAYOUTS),
                 rng.choice(FORMATS)] for _ in range(2)],
                'one': rng.random() < .3})
        if rng.random() < .2:
            ops.append({'op': 'edit', 'i': rng.randrange(c['n'])})
    c['ops'] = ops
    return c


def reduce(case):
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
    if not any(o['op'] == 'algo' for o in ops):
        yield from gen.drop_reducer(case)


# --- scratch world -----------------------------------------------------------

W = {}


class Audit(object):
    """what the process does while a call runs"""

    def __init__(self):
        self.on = False
        self.writes = []
        self.spawned = 0
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == 'open':
            path, mode, flags = args
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR |
                                                   os.O_CREAT):
                self.writes.append(path)
        elif event in ('subprocess.Popen', 'os.posix_spawn', 'os.system',
                       'os.exec'):
            self.spawned += 1


def setup():
    if W:
        return
    base = tempfile.mkdtemp(prefix='verif-c33-')
    W['base'] = base
    W['old'] = (os.getcwd(), dict(os.environ), tempfile.tempdir)
    for d in ('tmp', 'cwd', 'bin', 'none', 'noexec', 'badformat'):
        os.mkdir(os.path.join(base, d))
    for l in LAYOUTS:
        p = os.path.join(base, 'bin', l)
        with open(p, 'w') as f:
            f.write(STANDIN)
        os.chmod(p, 0o755)
        p = os.path.join(base, 'noexec', l)
        with open(p, 'w') as f:
            f.write(STANDIN)
        os.chmod(p, 0o644)
        p = os.path.join(base, 'badformat', l)
        with open(p, 'wb') as f:
            f.write(b'\x00\x01not a program')
        os.chmod(p, 0o755)
    with open(os.path.join(base, 'big'), 'w') as f:
        f.write('x' * 99 + '\n')
        f.write(('y' * 99 + '\n') * 3000)
    W['big'] = open(os.path.join(base, 'big'), 'rb').read()
    png = os.path.join(base, 'p.png')
    if gimpy.graph.PIL_INSTALLED:
        from PIL import Image
        Image.new('RGB', (7, 5), (10, 200, 30)).save(png)
        W['png'] = open(png, 'rb').read()
        W['pngpath'] = png
        Image.init()
    for l in ('latex', 'pdflatex', 'dvips'):
        p = os.path.join(base, 'bin', l)
        with open(p, 'w') as f:
            f.write(TEXTOOL)
        os.chmod(p, 0o755)
    os.environ['TMPDIR'] = os.path.join(base, 'tmp')
    tempfile.tempdir = os.path.join(base, 'tmp')
    os.environ['STANDIN_BIG'] = os.path.join(base, 'big')
    W['audit'] = Audit()


def teardown():
    if not W:
        return
    cwd, env, td = W['old']
    os.chdir(cwd)
    os.environ.clear()
    os.environ.update(env)
    tempfile.tempdir = td
    base = W['base']
    W.clear()
    shutil.rmtree(base, ignore_errors=True)


@contextlib.contextmanager
def viewers(ob, seen, wait):
    """stubs for everything that could open a window"""
    undo = []

    def patch(o, name, f):
        if hasattr(o, name):
            undo.append((o, name, o.__dict__[name] if isinstance(o, type)
                         else getattr(o, name)))
            setattr(o, name, f)
    if gimpy.graph.PIL_INSTALLED:
        from PIL import Image, ImageShow

        def show(self, *a, **kw):
            self.load()
            seen.append(('PIL', self.size, self.convert('RGB').getpixel(
                (3, 3))))
        patch(Image.Image, 'show', show)
        patch(ImageShow, 'show', lambda im, *a, **kw: show(im))
    if gimpy.graph.MATPLOTLIB_INSTALLED:
        import matplotlib.pyplot as plt

        def imshow(x, *a, **kw):
            if hasattr(x, 'convert'):
                seen.append(('drawn', x.size, x.convert('RGB').getpixel(
                    (3, 3))))
            else:
                seen.append(('drawn', (len(x[0]), len(x)),
                             tuple(int(v) for v in x[3][3][:3])))
        patch(plt, 'imshow', imshow)
        patch(plt, 'draw', lambda *a, **kw: seen.append(('on screen',)))
        patch(plt, 'show', lambda *a, **kw: seen.append(
            ('on screen', kw.get('block', a[0] if a else None))))
        patch(plt, 'pause', lambda *a, **kw: None)
        patch(plt, 'waitforbuttonpress', lambda *a, **kw: False)
    try:
        yield
    finally:
        for o, name, f in reversed(undo):
            setattr(o, name, f)


def use(fault):
    d = {'missing': 'none', 'noexec': 'noexec',
         'badformat': 'badformat'}.get(fault, 'bin')
    os.environ['PATH'] = os.path.join(W['base'], d)
    os.environ['STANDIN_MODE'] = fault
    if 'pngpath' in W:
        os.environ['STANDIN_PNG'] = W['pngpath']


def expected(fault, layout, fmt, text):
    """bytes printed by the stand-in, None if it fails"""
    head = W['png'] if fmt == 'png' and 'png' in W else \
        ('picture %s %s\n' % (layout, fmt)).encode()
    if fault in ('good', 'warn'):
        return head + text.encode('utf8')
    if fault == 'big':
        return head + text.encode('utf8') + W['big']
    if fault == 'empty':
        return b''
    return None


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def fds():
    return len(os.listdir('/proc/self/fd'))


class Hung(Exception):
    pass


def on_alarm(*a):
    raise Hung()


def attrs(g, skip=()):
    s = snap.full(g)
    for n in skip:
        if n in s['nattr']:
            s['nattr'][n].pop('color', None)
    return s


def perform(g, N, op, case, target):
    """the call; returns its value"""
    if op['op'] == 'create':
        return g.create(op['layout'], op['format'])
    if op['op'] == 'write':
        kw = {}
        if op['format'] is not None:
            kw['format'] = op['format']
        return g.write(target, op['layout'], **kw)
    if op['op'] == 'display':
        kw = {}
        if op['basename'] is not None:
            kw['basename'] = op['basename']
        if op['format'] is not None:
            kw['format'] = op['format']
        if 'highlight' in op:
            kw['highlight'] = [g.get_node(N[i]) if asnode else N[i]
                               for i, asnode in op['highlight']]
        if 'wait' in op:
            kw['wait_for_click'] = op['wait']
        return g.display(**kw)
    return algos.call(g, N, op['call'][0], op['call'][1],
                      {'display': 'file'})


def run(case, ob):
    cwd = os.path.join(W['base'], 'cwd')
    tmp = os.path.join(W['base'], 'tmp')
    for d in (cwd, tmp):
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
    os.mkdir(os.path.join(cwd, 'sub'))
    os.chdir(cwd)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(case['n'])]
    g = gen.build(gimpy, case)
    facts = algos.Facts(case)
    edited = False
    faulted = False
    for op in case['ops']:
        if op['op'] == 'edit':
            g.set_node_attr(N[op['i']], 'label', 'edited')
            edited = True
            continue
        if op['op'] == 'algo' and not algos.BY_NAME[op['call'][0]]['domain'](
                facts):
            continue
        if op['op'] == 'pair':
            pair(ob, g, N, op, cwd, tmp)
            continue
        if op['op'] == 'tex':
            textool(ob, g, N, op, cwd, tmp)
            continue
        if 'unwritable' in op:
            unwritable(ob, case, g, N, op, cwd, tmp)
            continue
        one(ob, case, g, N, op, cwd, tmp, faulted)
        if op['fault'] not in ('good', 'warn', 'big', 'empty'):
            faulted = True
    ob.key(case['ops'], case['edges'], case['scheme'], case['n'], edited)
    ob.sample(case['ops'])


@contextlib.contextmanager
def speaking(name):
    """the locale during a call"""
    if name is None:
        yield
        return
    old = locale.setlocale(locale.LC_CTYPE)
    locale.setlocale(locale.LC_CTYPE, name)
    try:
        yield
    finally:
        locale.setlocale(locale.LC_CTYPE, old)


class NoText(object):
    def __str__(self):
        raise ValueError('no text')

    def __deepcopy__(self, memo):
        return self


def unwritable(ob, case, g, N, op, cwd, tmp):
    """the graph cannot be turned into text, or the text into bytes"""
    mode = op.get('mode')
    what = '%s of a graph that cannot be written' % op
    n = N[len(N) // 2]
    had = g.get_node_attr(n, 'label')
    lit = sorted({N[i] for i, _ in op.get('highlight', [])}, key=repr)
    g.set_node_attr(n, 'label', '\ud800' if op['unwritable'] == 'surrogate'
                    else NoText())
    state = attrs(g, lit)
    before = tree(cwd)
    use('good')
    if mode:
        g.set_display_mode(mode)
    target = io.BytesIO()
    nfd = fds()
    seen = []
    try:
        with viewers(ob, seen, op.get('wait')), \
                contextlib.redirect_stdout(io.StringIO()):
            perform(g, N, op, case, target)
    except Exception:
        pass
    left = os.listdir(tmp)
    ob.check(not left, '%s left temporary files: %r', what, left)
    ob.check(fds() <= nfd, '%s left %d open descriptors', what, fds() - nfd)
    files = tree(cwd)
    if mode == 'file':
        name = '%s.%s' % ('graph' if op['basename'] is None else
                          op['basename'], op['format'] or 'png')
        files.pop(name, None)
        before.pop(name, None)
    ob.check(files == before, '%s: files of the working directory: %r, '
             'expected %r', what, sorted(files), sorted(before))
    if mode:
        g.set_display_mode('off')
    d = snap.diff(state, attrs(g, lit))
    ob.check(d is None, '%s changed the graph: %s', what, d)
    ob.ev('graph cannot be written')
    g.set_node_attr(n, 'label', had)


def pair(ob, g, N, op, cwd, tmp):
    """two renderings at a time, of two graphs or of one"""
    h = g
    if not op['one']:
        h = copy.deepcopy(g)
        h.set_node_attr(N[0], 'label', 'the other')
    use('meet')
    meet = os.environ['STANDIN_MEET'] = os.path.join(W['base'], 'meet')
    shutil.rmtree(meet, ignore_errors=True)
    os.mkdir(meet)
    files = tree(cwd)
    for x in (g, h):
        x.set_display_mode('file')
    states = attrs(g), attrs(h)
    results = [None, None]

    def work(k, x, how, layout, fmt):
        try:
            if how == 'create':
                results[k] = x.create(layout, fmt)
            elif how == 'write':
                f = io.BytesIO()
                x.write(f, layout, fmt)
                results[k] = f.getvalue()
            else:
                x.display(basename='pair%d' % k, format=fmt)
                with open(os.path.join(cwd, 'pair%d.%s' % (k, fmt)),
                          'rb') as f:
                    results[k] = f.read()
        except Exception as e:
            results[k] = e
    both = [threading.Thread(target=work, args=(k, x) + tuple(op['how'][k]),
                             daemon=True) for k, x in enumerate((g, h))]
    for t in both:
        t.start()
    for t in both:
        t.join(120)
        ob.check(not t.is_alive(), '%s did not return within 120 s', op)
    for k, x in enumerate((g, h)):
        how, layout, fmt = op['how'][k]
        if how == 'file':
            layout = x.get_layout()
            if os.path.exists(os.path.join(cwd, 'pair%d.%s' % (k, fmt))):
                os.unlink(os.path.join(cwd, 'pair%d.%s' % (k, fmt)))
        want = expected('good', layout, fmt, x.to_string())
        ob.check(results[k] == want, '%s: call %d gave %r instead of %r', op,
                 k, results[k], want)
        ob.eq(attrs(x), states[k], '%s: attributes of graph %d' % (op, k))
    ob.eq(tree(cwd), files, '%s: files beside the graphs' % op)
    ob.eq(tree(tmp), {}, '%s: temporary files' % op)
    for x in (g, h):
        x.set_display_mode('off')
    if len(os.listdir(meet)) == 2:
        ob.ev('two renderings at a time')
    shutil.rmtree(meet, ignore_errors=True)


def textool(ob, g, N, op, cwd, tmp):
    """layout dot2tex: a TeX file and what latex makes of it"""
    if not gimpy.graph.DOT2TEX_INSTALLED:
        return
    mode, fault = op['mode'], op['fault']
    what = '%s with layout dot2tex' % op
    own = g.get_layout()
    g.set_layout('dot2tex')
    g.set_display_mode(mode)
    lit = sorted({N[i] for i, _ in op.get('highlight', [])}, key=repr)
    shown = copy.deepcopy(g)
    for n in lit:
        shown.set_node_attr(n, 'color', 'red')
    shown.set_layout('dot')
    shown.set_display_mode('file')
    text = shown.to_string()
    if mode == 'off':
        lit = []
    state = attrs(g, lit)
    state['gattr'].pop('display', None)
    before = tree(cwd)
    calls = []

    def convert(source, *a, **kw):
        calls.append(source)
        if fault == 'dot2tex':
            raise RuntimeError('dot2tex does not work')
        return 'TEX\n' + source
    real = gimpy.graph.dot2tex.dot2tex
    use(fault if fault in ('missing', 'fail') else 'good')
    nfd = fds()
    base = 'graph' if op['basename'] is None else op['basename']
    kw = {} if op['basename'] is None else {'basename': base}
    if op['format'] is not None:
        kw['format'] = op['format']
    if 'highlight' in op:
        kw['highlight'] = [N[i] for i, _ in op['highlight']]
    gimpy.graph.dot2tex.dot2tex = convert
    seen = []
    # the programs write to the descriptor itself
    save, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(null, 1)
    try:
        with viewers(ob, seen, None), contextlib.redirect_stdout(
                io.StringIO()), speaking(op.get('locale')):
            g.display(**kw)
    finally:
        os.dup2(save, 1)
        os.close(save)
        os.close(null)
        gimpy.graph.dot2tex.dot2tex = real
    files = tree(cwd)
    want = dict(before)
    if mode != 'off':
        ob.check(calls == [text], '%s: dot2tex was given %r, expected %r',
                 what, calls, text)
        ob.eq(g.attr['display'], 'file', what + ': display mode afterwards')
        if fault == 'dot2tex':
            files.pop(base + '.dot', None)
            want.pop(base + '.dot', None)
            ob.ev('dot2tex failed')
        else:
            tex = b'TEX\n' + text.encode('utf8')
            want[base + '.tex'] = tex
            ob.ev('TeX written')
            if not tex.isascii() and 'locale' in op:
                ob.ev('more than ASCII in an ASCII locale')
            if fault == 'good':
                dvi = b'latex\n' + tex
                want[base + '.dvi'] = dvi
                if op['format'] == 'ps':
                    want[base + '.ps'] = b'dvips\n' + dvi
                else:
                    want[base + '.pdf'] = b'pdflatex\n' + tex
            else:
                ob.ev('latex failed')
    else:
        ob.eq(g.attr['display'], 'off', what + ': display mode afterwards')
    ob.check(not seen, '%s opened a viewer', what)
    ob.check(files == want, '%s: files of the working directory: %r, '
             'expected %r', what, {k: clip(v) for k, v in files.items()},
             {k: clip(v) for k, v in want.items()})
    ob.check(not os.listdir(tmp), '%s left temporary files', what)
    ob.check(fds() <= nfd, '%s left open descriptors', what)
    ob.eq(g.get_layout(), 'dot2tex', what + ': layout afterwards')
    g.set_display_mode('off')
    after = attrs(g, lit)
    after['gattr'].pop('display', None)
    d = snap.diff(state, after)
    ob.check(d is None, '%s changed the graph: %s', what, d)
    g.set_layout(own)


def one(ob, case, g, N, op, cwd, tmp, faulted):
    fault = op['fault']
    kind = op['op']
    mode = op.get('mode', 'off')
    fmt = op.get('format') or 'png'
    before_files = tree(cwd)
    lit = sorted({N[i] for i, _ in op.get('highlight', [])}, key=repr)
    if kind == 'display' and mode == 'off':
        lit = []
    state = attrs(g, lit)
    shown = copy.deepcopy(g)
    for n in lit:
        shown.set_node_attr(n, 'color', 'red')
    if kind == 'display' and mode != 'off':
        shown.set_display_mode(mode)
    text = shown.to_string()
    layout = op.get('layout') or g.get_layout()
    want = expected(fault, layout, fmt, text)
    asdot = fmt == 'dot' and (kind == 'write' or mode == 'file')
    if asdot:
        want = text.encode('utf8')
    target = None
    prefix = b''
    if kind == 'write':
        if op['to'] == 'memory':
            target = io.BytesIO()
        else:
            if op['to'] == 'append':
                prefix = b'kept\n'
            target = open(os.path.join(cwd, 'target'), 'w+b')
            target.write(prefix)
            target.flush()
    if kind == 'display':
        g.set_display_mode(mode)
    use(fault)
    seen = []
    nfd = fds()
    audit = W['audit']
    audit.writes, audit.spawned = [], 0
    out = io.StringIO()
    what = '%s with renderer %s' % (
        {k: v for k, v in op.items() if k not in ('fault',)}, fault)
    r = err = None
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(120)
    try:
        with viewers(ob, seen, op.get('wait')), \
                contextlib.redirect_stdout(out):
            audit.on = True
            try:
                with speaking(op.get('locale')):
                    r = perform(g, N, op, case, target)
            finally:
                audit.on = False
    except Hung:
        ob.fail('%s did not return within 120 s', what)
    except Exception as e:
        err = e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    ob.ev('renderer ' + fault)
    if 'locale' in op:
        ob.ev('ASCII locale')
        if not text.isascii() and (kind != 'display' or mode == 'file'):
            ob.ev('more than ASCII in an ASCII locale')
    ob.ev(kind if kind != 'display' else 'display ' + mode)
    if kind == 'write' and fmt == 'dot':
        ob.ev('write dot')
    if target is not None:
        target.flush()
        if op['to'] == 'memory':
            got = target.getvalue()
        else:
            with open(os.path.join(cwd, 'target'), 'rb') as f:
                got = f.read()
            target.close()
            os.unlink(os.path.join(cwd, 'target'))
            nfd -= 0
        target = None
        ob.check(got.startswith(prefix), '%s lost what the file held', what)
        got = got[len(prefix):]
    # --- outcome
    done = err is None
    uses = kind in ('create', 'write', 'algo') or mode in ('file', 'PIL',
                                                           'matplotlib')
    if asdot:
        uses = False
    bad = uses and fault in ('missing', 'noexec', 'badformat', 'fail',
                             'partial', 'killed')
    viewer = kind == 'display' and mode in ('PIL', 'matplotlib')
    if bad:
        ob.check(err is not None or out.getvalue().strip(),
                 '%s: nothing tells that the renderer did not work', what)
        ob.ev('error reported')
        if fault in ('fail', 'partial', 'killed'):
            ob.check(err is not None, '%s raised no error', what)
        ob.check(err is not None or not isinstance(r, (bytes, str)),
                 '%s returned %r', what, r)
    elif not (viewer and (want == b'' or
                          (fault == 'empty'))):
        if err is not None:
            raise err
    if kind == 'create' and not bad:
        ob.check(r == want, '%s returned %r, the renderer printed %r', what,
                 clip(r), clip(want))
    if kind == 'write':
        ob.check(got == (want or b''), '%s wrote %r, expected %r', what,
                 clip(got), clip(want))
    # --- viewers
    if viewer:
        if not bad and fault != 'empty' and 'png' in W:
            pics = [s for s in seen if len(s) == 3]
            ob.check(len(pics) == 1 and pics[0][1:] == ((7, 5),
                                                        (10, 200, 30)),
                     '%s: the viewer saw %r', what, seen)
            if mode == 'matplotlib':
                ob.check(('on screen',) == seen[-1][:1], '%s: drawn but '
                         'never put on screen: %r', what, seen)
            ob.ev('viewer saw the picture')
        else:
            ob.check(not [s for s in seen if len(s) == 3],
                     '%s: the viewer saw %r', what, seen)
    else:
        ob.check(not seen, '%s opened a viewer: %r', what, seen)
    # --- files
    files = tree(cwd)
    files.pop('target', None)
    allowed = dict(before_files)
    if kind == 'display' and mode == 'file':
        name = (op['basename'] if op['basename'] is not None else
                'graph') + '.' + fmt
        if not bad:
            if name in before_files:
                ob.ev('earlier file replaced')
            allowed[name] = want
        else:
            left = files.pop(name, None)
            allowed.pop(name, None)
            ob.check(left in (None, b'', before_files.get(name)),
                     '%s left %r', what, clip(left))
    elif kind == 'algo':
        pic = files.pop('graph.png', None)
        allowed.pop('graph.png', None)
        if pic is not None:
            ob.check('png' not in W or pic.startswith(W['png']) and
                     pic.rstrip().endswith(b'}'),
                     '%s wrote an incomplete picture %r', what, clip(pic))
            ob.ev('algorithm in file mode')
    ob.check(files == allowed, '%s: files of the working directory: %r, '
             'expected %r', what, {k: clip(v) for k, v in files.items()},
             {k: clip(v) for k, v in allowed.items()})
    left = os.listdir(tmp)
    ob.check(not left, '%s left temporary files: %r', what, left)
    if 'matplotlib' != mode:
        out_of = [p for p in audit.writes if isinstance(p, (str, bytes)) and
                  not inside(p)]
        ob.check(not out_of, '%s opened for writing: %r', what, out_of)
    if not uses:
        ob.check(not audit.spawned, '%s started a process', what)
        if kind == 'display' and mode != 'file':
            ob.check(not audit.writes, '%s opened for writing: %r', what,
                     audit.writes)
    ob.ev('directory compared')
    err = None
    n = fds()
    if kind == 'write' and op['to'] != 'memory':
        n += 1
    ob.check(n <= nfd, '%s left %d open descriptors', what, n - nfd)
    try:
        p, st = os.waitpid(-1, os.WNOHANG)
        ob.fail('%s left a child process', what)
    except ChildProcessError:
        pass
    # --- graph and mode
    if kind == 'algo':
        g.set_display_mode('off')
        return
    if kind == 'display':
        m = g.attr['display']
        if mode in ('off', 'file', 'PIL', 'matplotlib') and (
                mode in ('off', 'file') or 'png' in W):
            ob.eq(m, mode, '%s: display mode afterwards' % what)
        g.set_display_mode('off')
    after = attrs(g, lit)
    d = snap.diff(state, after)
    ob.check(d is None, '%s changed the graph: %s', what, d)
    for n in lit:
        c = g.get_node_attr(n, 'color')
        ob.check(c in ('red', 'black'), '%s: colour of %r afterwards is %r',
                 what, n, c)
        ob.ev('highlight')
    if lit and done:
        ends = {g.get_node_attr(n, 'color') for n in lit}
        ob.check(len(ends) == 1, '%s: the highlighted nodes %r end with '
                 'different colours %r', what, lit, ends)
        if mode in ('PIL', 'matplotlib'):
            ob.eq(ends, {'black'}, '%s: colours of the highlighted nodes '
                  'after the picture was shown' % what)
            ob.ev('highlight taken back')
    if faulted and not bad and uses:
        ob.ev('good after a fault')


def inside(p):
    p = os.path.abspath(os.fsdecode(p))
    return p.startswith(W['base'] + os.sep) or p == os.devnull


def clip(b):
    return b if b is None or len(b) < 300 else b[:150] + b'...' + b[-100:]
