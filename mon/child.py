"""One process of a C38 batch: performs random programs and prints a digest
of every observation.

python -m mon.child SEED COUNT        one line per program
python -m mon.child SEED COUNT SHOW   the observations of program SHOW
"""
import hashlib
import random
import sys
from . import core


def programs(seed, count):
    from props import c04
    for k in range(count):
        rng = random.Random('C38:%s:%d' % (seed, k))
        scheme = rng.choice(['str', 'str', 'str', 'mixed', 'int', 'tuple',
                             'float'])
        f = rng.choice([c04.algorithm_actor] * 5 +
                       [c04.update_actor] * 2 + [c04.set_actor,
                                                 c04.generated_actor])
        if rng.random() < .2:
            b = rng.random() < .6
            yield c04.tree_actor(rng, 'quick', scheme, b)
        else:
            yield f(rng, 'quick', scheme)


def observe(gimpy, spec):
    from props import c04
    a = c04.Actor(spec, gimpy, c04.argument_pool())
    while a.pos < len(spec['ops']):
        core.STEPS.start(3000000)
        try:
            a.step()
        except core.StepLimit:
            a.log.append('no answer')
            break
    core.STEPS.start(10 ** 12)
    # order is part of what is observed: repr, not equality
    out = [repr(x) for x in a.log]
    out.append(repr(c04.plain(a.state())))
    try:
        out.append(a.g.to_string())
    except Exception as e:
        out.append('raised ' + type(e).__name__)
    return out


def main():
    seed, count = sys.argv[1], int(sys.argv[2])
    show = int(sys.argv[3]) if len(sys.argv) > 3 else None
    gimpy = core.load_gimpy()
    sys.setrecursionlimit(3000)
    core.STEPS.install()
    for k, spec in enumerate(programs(seed, count)):
        if show is not None and k != show:
            continue
        out = observe(gimpy, spec)
        if show is None:
            print(k, spec['kind'].replace(' ', '-'), len(out), hashlib.sha1(
                '\n'.join(out).encode('utf8')).hexdigest())
        else:
            for line in out:
                print(line.replace('\n', '\\n'))


if __name__ == '__main__':
    main()
