"""Runner for the monitored executions.

A property module (props/cNN.py) provides

  PID, RULE              id, and how cases are made / what counts
  QUICK, THOROUGH        number of random cases per tier
  fixed(tier)            optional: iterable of systematic cases
  gen_case(rng, i, tier) one random case (JSON serialisable)
  run(case, ob)          execute the real code on the case under monitors
  REQUIRED               {event name: minimum}; fewer -> inconclusive (exit 2)
  STEPS                  optional: bound on loop iterations of a case
  PAST                   optional: a quarter of the random cases reach their
                         graph through a history (gen.past)

run() reports through the observer `ob`: ob.ev(name, n) counts observed events,
ob.check(cond, msg) is an oracle decision, ob.key(k) registers a distinct
non-trivial case, ob.sample(text) may be written to the evidence.

Verdicts: exit 0 held on everything observed; exit 1 plus a VIOLATION line;
exit 2 inconclusive (watchdog, dead worker, or a deciding monitor that was
never reached).
"""
import contextlib
import hashlib
import io
import json
import os
import random
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
MAX_KEYS = 150000          # per worker; later cases are not counted
# a thorough run stops making new cases after this many seconds
SOFT_LIMIT = float(os.environ.get('VERIF_SOFT_LIMIT', '780'))
CASE_CPU = 60              # seconds; cases take milliseconds, at most 3 s
WALL_LIMIT = {'quick': 600, 'thorough': 3 * 3600}


class Violation(Exception):
    pass


class StepLimit(BaseException):
    pass


class HarnessError(BaseException):
    """the machinery, not the code under test, failed: inconclusive"""


class Observer(object):
    def __init__(self):
        self.events = Counter()
        self.checks = 0
        self.keys = set()
        self.cases = 0
        self.samples = []
        self.known = Counter()
        self.case = None

    def ev(self, name, n=1):
        self.events[name] += n

    def check(self, cond, msg, *args):
        self.checks += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def fail(self, msg, *args):
        raise Violation(msg % args if args else msg)

    def key(self, *parts):
        self.cases += 1
        if len(self.keys) >= MAX_KEYS:
            self.events['cases beyond the distinct counter'] += 1
            return
        h = hashlib.blake2b(repr(parts).encode('utf8', 'backslashreplace'),
                            digest_size=8).digest()
        self.keys.add(h)

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:600])

    def eq(self, got, want, what):
        self.checks += 1
        if got != want:
            raise Violation('%s: got %r, expected %r' % (what, got, want))

    @contextlib.contextmanager
    def raises(self, what, *types):
        """the block must raise (one of types, or any Exception)"""
        self.checks += 1
        try:
            yield
        except (types or (Exception,)):
            return
        raise Violation('%s: no exception was raised' % what)


# --- step budget: loop back-edges executed inside the code under test ------

class Steps(object):
    TOOL = 3

    def __init__(self):
        self.count = 0
        self.limit = 10 ** 9
        self.total = 0
        self.on = False

    def install(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'verif-steps')
        except ValueError:
            pass
        mon.register_callback(self.TOOL, mon.events.JUMP, self._jump)
        seen = set()
        roots = (os.path.join(REPO, 'src') + os.sep, os.sep + 'blimpy' + os.sep)
        for m in list(sys.modules.values()):
            f = getattr(m, '__file__', None) or ''
            if not (f.startswith(roots[0]) or roots[1] in f):
                continue
            for o in list(vars(m).values()):
                self._add(o, m.__name__, seen)
        self.on = True
        return len(seen)

    def _add(self, o, modname, seen):
        if isinstance(o, type):
            if o.__module__ == modname:
                for x in list(vars(o).values()):
                    self._add(x, modname, seen)
            return
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for x in (o.fget, o.fset, o.fdel):
                if x is not None:
                    self._add(x, modname, seen)
            return
        while hasattr(o, '__wrapped__'):
            self._code(getattr(o, '__code__', None), seen)
            o = o.__wrapped__
        self._code(getattr(o, '__code__', None), seen)

    def _code(self, code, seen):
        if code is None or code in seen or not hasattr(code, 'co_consts'):
            return
        seen.add(code)
        sys.monitoring.set_local_events(self.TOOL, code,
                                        sys.monitoring.events.JUMP)
        for c in code.co_consts:
            if hasattr(c, 'co_consts'):
                self._code(c, seen)

    def _jump(self, code, src, dst):
        if dst > src:
            return
        self.count += 1
        if self.count > self.limit:
            self.total += self.count
            self.count = 0
            raise StepLimit()

    def start(self, limit):
        self.total += self.count
        self.count = 0
        self.limit = limit


STEPS = Steps()


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def load_gimpy():
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    import gimpy
    import gimpy.graph
    import gimpy.tree
    if not gimpy.__file__.startswith(src):
        raise RuntimeError('gimpy imported from %s' % gimpy.__file__)
    return gimpy


def run_case(mod, case, ob, cpu=CASE_CPU):
    """None, or the violation message"""
    ob.case = case
    limit = getattr(mod, 'STEPS', 3000000)
    if isinstance(case, dict) and case.get('past'):
        limit *= 3
        ob.ev('graph with a past')
    if isinstance(case, dict) and isinstance(case.get('n'), int) and \
            case['n'] >= 25:
        ob.ev('large graph')
        limit *= 10
    STEPS.start(limit)
    # a second bound, in processor time of this process: loops whose steps
    # get slower and slower never reach the first one
    signal.signal(signal.SIGVTALRM, _out_of_time)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        with quiet():
            mod.run(case, ob)
        return None
    except Violation as e:
        return str(e)
    except StepLimit:
        return ('no answer within %d loop iterations or %d s of processor '
                'time (bounded progress)' % (limit, cpu))
    except (MemoryError, KeyboardInterrupt):
        raise
    except SystemExit as e:
        return 'the call ended the interpreter: SystemExit(%r)' % (e.code,)
    except RecursionError:
        return 'RecursionError (unbounded recursion)'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join('%s:%d %s' % (os.path.basename(f.filename),
                                        f.lineno or 0, f.name)
                          for f in tb[-4:])
        return 'raised %s: %s [%s]' % (type(e).__name__, e, where)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        STEPS.start(10 ** 12)


def _out_of_time(sig, frame):
    raise StepLimit()


def random_case(mod, rng, k, tier):
    c = mod.gen_case(rng, k, tier)
    if getattr(mod, 'PAST', None) and rng.random() < .25:
        # the graph of the case is reached through a history (gen.past)
        c['past'] = dict(mod.PAST, seed=rng.randrange(10 ** 9))
    if k % 4 == 0:
        # as a replay would read it: no string is one of gimpy's own objects
        c = json.loads(json.dumps(c))
    return c


def cases(mod, tier, seed):
    """(index, thunk) of every case of the run, in order"""
    i = 0
    if hasattr(mod, 'fixed'):
        for c in mod.fixed(tier):
            yield i, (lambda c=c: c)
            i += 1
    n = mod.QUICK if tier == 'quick' else mod.THOROUGH
    for k in range(n):
        def make(k=k):
            rng = random.Random('%s:%s:%s' % (seed, mod.PID, k))
            return random_case(mod, rng, k, tier)
        yield i, make
        i += 1


def worker(mod, tier, seed, w, nw, out):
    sys.setrecursionlimit(3000)
    ob = Observer()
    res = {'n': 0, 'violation': None, 'error': None}
    t0 = time.time()
    try:
        if hasattr(mod, 'setup'):
            mod.setup()
        STEPS.install()
        for i, make in cases(mod, tier, seed):
            if i % nw != w:
                continue
            if tier != 'quick' and time.time() - t0 > SOFT_LIMIT:
                break
            case = make()
            msg = run_case(mod, case, ob)
            res['n'] += 1
            if msg is not None:
                res['violation'] = {'index': i, 'message': msg, 'case': case}
                break
    except BaseException:
        res['error'] = traceback.format_exc()[-3000:]
    finally:
        if hasattr(mod, 'teardown'):
            try:
                mod.teardown()
            except Exception:
                pass
    STEPS.start(10 ** 12)
    res.update(events=dict(ob.events), checks=ob.checks,
               cases=ob.cases, keys=[k.hex() for k in ob.keys], samples=ob.samples,
               known=dict(ob.known), steps=STEPS.total, wall=time.time() - t0)
    with open(out, 'w') as f:
        json.dump(res, f)


def shrink(mod, case, msg, budget=20.0):
    """greedy reduction with the module's own reducer, keeps the failure"""
    if not hasattr(mod, 'reduce'):
        return case, msg
    t0 = time.time()
    best, bmsg = case, msg
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for c in mod.reduce(best):
            if time.time() - t0 > budget:
                break
            try:
                m = run_case(mod, c, Observer(), cpu=10)
            except BaseException:
                continue
            if m is not None:
                best, bmsg, progress = c, m, True
                break
    return best, bmsg


def known_findings(pid):
    """lines of known_findings.txt that concern this property"""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip('\n')
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                out[key[len('key='):]] = text
    return out


def main(mod, argv):
    pid = mod.PID
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    replay = None
    nw = int(os.environ.get('VERIF_JOBS', '8'))
    args = list(argv)
    while args:
        a = args.pop(0)
        if a == '--replay':
            replay = args.pop(0)
        elif a in ('quick', 'thorough'):
            tier = a
    load_gimpy()
    if replay:
        data = json.load(open(replay))
        if hasattr(mod, 'setup'):
            mod.setup()
        STEPS.install()
        ob = Observer()
        msg = run_case(mod, data['case'], ob)
        if hasattr(mod, 'teardown'):
            mod.teardown()
        print('replay of', json.dumps(data['case'])[:2000])
        print('result:', msg or 'held', dict(ob.events))
        return 1 if msg else 0

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    nw = min(nw, getattr(mod, 'MAXJOBS', nw))
    pids = {}
    for w in range(nw):
        p = os.fork()
        if p == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                worker(mod, tier, seed, w, nw, os.path.join(tmp, '%d' % w))
                code = 0
            finally:
                os._exit(code)
        pids[p] = w
    deadline = t0 + WALL_LIMIT[tier]
    problem = None
    live = dict(pids)
    stop_at = None
    while live:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            time.sleep(0.05)
            now = time.time()
            if now > deadline or (stop_at and now > stop_at):
                if not stop_at:
                    problem = 'watchdog: not finished after %d s' % (now - t0)
                for q in live:
                    with contextlib.suppress(OSError):
                        os.killpg(q, signal.SIGKILL)
                    with contextlib.suppress(OSError):
                        os.kill(q, signal.SIGKILL)
                deadline = now + 10 ** 6
                stop_at = None
            continue
        w = live.pop(p, None)
        if w is None:
            continue
        if st != 0 and problem is None:
            problem = 'worker %d ended with status %d' % (w, st)
        if st == 0 and live and not stop_at:
            # a violation in one worker: give the others a little time only
            with contextlib.suppress(Exception):
                if json.load(open(os.path.join(tmp, '%d' % w)))['violation']:
                    stop_at = time.time() + 5
    total = Counter()
    keys = set()
    samples = []
    checks = steps = n = ncases = 0
    viols = []
    for w in range(nw):
        f = os.path.join(tmp, '%d' % w)
        if not os.path.exists(f):
            continue
        try:
            r = json.load(open(f))
        except ValueError:
            continue
        finally:
            os.unlink(f)
        n += r['n']
        ncases += r['cases']
        total.update(r['events'])
        checks += r['checks']
        steps += r['steps']
        keys.update(r['keys'])
        samples += r['samples']
        if r['violation']:
            viols.append(r['violation'])
        if r['error'] and problem is None:
            problem = 'harness error: ' + r['error']
    with contextlib.suppress(OSError):
        os.rmdir(tmp)

    required = dict(getattr(mod, 'REQUIRED', {}))
    if getattr(mod, 'PAST', None):
        required['graph with a past'] = 500
    missing = [] if viols else [
        '%s seen %d times, need %d' % (k, total[k], v)
        for k, v in required.items() if total[k] < v]
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(seed)
        if seed.lstrip('-').isdigit() else 0,
        'level': 'exploration',
        'coverage': {
            'evaluations': max(n, ncases),
            'executions': n,
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': samples[:3] or ['(none)'],
            'oracle_decisions': checks,
            'observed_events': dict(sorted(total.items())),
            'loop_iterations_monitored': steps,
        },
        'assumptions': list(getattr(mod, 'ASSUMES', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for key, text in sorted(known_findings(pid).items()):
        if total['known:' + key]:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if viols:
        v = min(viols, key=lambda v: v['index'])
        if hasattr(mod, 'setup'):
            mod.setup()
        STEPS.install()
        case, msg = shrink(mod, v['case'], v['message'])
        if hasattr(mod, 'teardown'):
            with contextlib.suppress(Exception):
                mod.teardown()
        os.makedirs(REPLAYS, exist_ok=True)
        name = '%s-%s.json' % (pid, hashlib.sha1(
            json.dumps(case, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(REPLAYS, name)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed,
                       'index': v['index'], 'message': msg, 'case': case,
                       'original_case': v['case'],
                       'original_message': v['message'],
                       'replay': 'bash /verif/check.sh %s --replay %s'
                                 % (pid, path)}, f, indent=1)
        print('case:', json.dumps(case)[:1500])
        print('violated:', msg[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if problem:
        print('INCONCLUSIVE property=%s %s' % (pid, problem))
        return 2
    if missing:
        print('INCONCLUSIVE property=%s monitors not reached: %s'
              % (pid, '; '.join(missing)))
        return 2
    print('HELD property=%s on %d executions (%d distinct non-trivial), '
          '%d oracle decisions, %.1f s'
          % (pid, n, len(keys), checks, time.time() - t0))
    return 0
