import os
import subprocess
import sys
from mon import core

PID = 'C38'
RULE = ('batches of random programs (algorithms, updates, trees, disjoint '
        'sets, generated graphs; mostly string names) performed in three '
        'separate processes with different string hash seeds; every return '
        'value, printed text, attribute, adjacency list and DOT text is '
        'recorded in order and must be equal in the three. An execution is a '
        'batch; distinct by batch and programs per batch.')
QUICK, THOROUGH = 48, 1200
SIZE = 140
REQUIRED = {'program compared': 6000, 'observation compared': 30000,
            'process': 140, 'kind: algorithms': 2000, 'kind: updates': 500,
            'kind: tree': 300, 'kind: binary-tree': 400,
            'kind: disjoint-set': 300, 'kind: generated': 300}


def gen_case(rng, i, tier):
    return {'seed': rng.randrange(10 ** 9), 'size': SIZE,
            'hash': ['0', str(rng.randrange(1, 2 ** 32 - 1)),
                     str(rng.randrange(1, 2 ** 32 - 1))]}


def reduce(case):
    n = case['size']
    for m in (n // 2, n - 1):
        if 0 < m < n:
            yield dict(case, size=m)


def child(case, h, *more):
    env = dict(os.environ, PYTHONHASHSEED=h)
    try:
        p = subprocess.run(
            [sys.executable, '-m', 'mon.child', str(case['seed']),
             str(case['size'])] + [str(m) for m in more], env=env,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            stdin=subprocess.DEVNULL, text=True, timeout=500)
    except subprocess.TimeoutExpired:
        raise core.HarnessError('child process: no answer')
    if p.returncode:
        raise core.HarnessError('child process: ' + p.stderr[-1500:])
    return p.stdout.splitlines()


def run(case, ob):
    outs = []
    for h in case['hash']:
        outs.append(child(case, h))
        ob.ev('process')
    first = outs[0]
    ob.check(len(first) == case['size'], 'the batch has %d programs of %d',
             len(first), case['size'])
    for h, other in list(zip(case['hash'], outs))[1:]:
        for a, b in zip(first, other):
            k, kind, n, _ = a.split()
            if a != b:
                x = child(case, case['hash'][0], k)
                y = child(case, h, k)
                for u, v in zip(x + ['end'], y + ['end']):
                    if u != v:
                        ob.fail('program %s (%s): with hash seed %s %.400s, '
                                'with %s %.400s', k, kind, case['hash'][0],
                                u, h, v)
                ob.fail('program %s (%s) differs between hash seeds %s and '
                        '%s', k, kind, case['hash'][0], h)
            ob.checks += int(n)
            ob.ev('observation compared', int(n))
            ob.ev('program compared')
            ob.ev('kind: ' + kind)
    for k in range(case['size']):
        ob.key(case['seed'], k)
    ob.sample(case)
