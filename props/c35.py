import gimpy
from mon import algos, gen, frames

PID = 'C35'
RULE = ('twin execution: one graph runs a random history of algorithms '
        '(repeated ones, ones cut short by an exception from the k-th '
        'display, structural updates) and then the algorithm under test, '
        'twice; a fresh graph made by the same updates runs only the latter. '
        'Results and result attributes must be equal. Distinct by graph and '
        'history.')
QUICK, THOROUGH = 90000, 1800000
REQUIRED = dict({'compared: ' + a['name']: 100 for a in algos.A},
                **{'history call': 20000, 'aborted call': 3000,
                   'update in the history': 3000, 'repeated': 10000,
                   'missing capacity': 300})


def gen_case(rng, i, tier):
    c = algos.universal(rng, tier)
    f = algos.Facts(c)
    if f.plain_net and not f.demand and rng.random() < .5:
        cap = gen.caps(rng)
        for e in c['edges']:
            if rng.random() < .7:
                e[2]['capacity'] = cap()
        f = algos.Facts(c)
    final = algos.draw(rng, f, k=1)
    hist = []
    for _ in range(rng.randint(0, 5)):
        r = rng.random()
        if r < .2:
            hist.append(['readd edge', rng.randrange(10 ** 6)])
        elif r < .28:
            hist.append(['readd node', rng.randrange(10 ** 6)])
        elif r < .5:
            for name, args in algos.draw(rng, f, display_only=True, k=1):
                hist.append(['abort', name, args, rng.choice(
                    [1, 2, 3, 4, 6, 8, 12, 20])])
        elif r < .6:
            # the algorithm under test itself, on other arguments
            a = algos.BY_NAME[final[0][0]]
            hist.append(['call', a['name'], a['draw'](rng, f)])
        else:
            for name, args in algos.draw(rng, f, k=1):
                hist.append(['call', name, args])
    c['hist'] = hist
    c['final'] = final[0]
    return c


def reduce(case):
    h = case['hist']
    for i in range(len(h)):
        yield dict(case, hist=h[:i] + h[i + 1:])
    yield from gen.drop_reducer(case)
    if case['scheme'] != 'int':
        yield dict(case, scheme='int')


def update(g, case, op, N):
    if op[0] == 'readd edge':
        if not case['edges']:
            return
        e = case['edges'][op[1] % len(case['edges'])]
        u, v, a = N[e[0]], N[e[1]], dict(e[2])
        g.del_edge((u, v))
        g.add_edge(u, v, **a)
    else:
        i = op[1] % case['n']
        g.del_node(N[i])
        g.add_node(N[i], **case.get('nattr', {}).get(str(i), {}))
        for e in case['edges']:
            if i in e[:2]:
                g.add_edge(N[e[0]], N[e[1]], **e[2])




def run(case, ob):
    f = algos.Facts(case)
    nm = gen.namer(case['scheme'])
    N = [nm(i) for i in range(case['n'])]
    used = gen.build(gimpy, case)
    fresh = gen.build(gimpy, case)
    fresh2 = gen.build(gimpy, case)
    name, args = case['final']
    if not algos.BY_NAME[name]['domain'](f):
        return
    ran = False
    for op in case['hist']:
        if op[0].startswith('readd'):
            for g in (used, fresh, fresh2):
                update(g, case, op, N)
            ob.ev('update in the history')
            continue
        if not algos.BY_NAME[op[1]]['domain'](f):
            continue
        ran = True
        if op[0] == 'call':
            algos.call(used, N, op[1], op[2])
            ob.ev('history call')
        else:
            fr = frames.Frames(abort_at=op[3])
            with frames.observe(gimpy, fr):
                try:
                    algos.call(used, N, op[1], op[2], {'display': 'file'})
                except frames.Abort:
                    ob.ev('aborted call')
            used.set_display_mode('off')
    want = algos.call(fresh, N, name, args)
    got = algos.call(used, N, name, args)
    what = '%s %r after %r' % (name, args, case['hist'])
    ob.eq(got, want, what)
    ob.ev('compared: ' + name)
    again = algos.call(used, N, name, args)
    ob.eq(again, want, 'second ' + what)
    ob.ev('repeated')
    if not f.caps and 'flow' in name:
        ob.ev('missing capacity')
    if not ran:
        # determinism over two fresh graphs
        ob.eq(algos.call(fresh2, N, name, args), want, 'twin ' + what)
    else:
        ob.key(case['dir'], case['n'], case['edges'], case['hist'],
               case['final'])
    ob.sample({'history': case['hist'][:4], 'then': case['final']})
