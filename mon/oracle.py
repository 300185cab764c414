"""Independent reference computations.

Nothing here imports gimpy.  Graphs are plain data: a list of nodes and, for
edges, a dict {(u, v): value} (directed) or a dict whose keys are read in
both orientations (undirected).  Most functions check a certificate instead
of recomputing an answer with the same algorithm as the code under test.
"""
from collections import deque
import itertools


def out_adj(nodes, edges, directed):
    adj = {n: [] for n in nodes}
    for (u, v) in edges:
        adj[u].append(v)
        if not directed and u != v:
            adj[v].append(u)
    return adj


def in_adj(nodes, edges, directed):
    if not directed:
        return out_adj(nodes, edges, False)
    adj = {n: [] for n in nodes}
    for (u, v) in edges:
        adj[v].append(u)
    return adj


def hop_distances(adj, s):
    dist = {s: 0}
    q = deque([s])
    while q:
        x = q.popleft()
        for y in adj[x]:
            if y not in dist:
                dist[y] = dist[x] + 1
                q.append(y)
    return dist


def reach(adj, s):
    return set(hop_distances(adj, s))


def weighted_arcs(edges, directed, weight):
    arcs = []
    for (u, v), d in edges.items():
        w = weight(d)
        arcs.append((u, v, w))
        if not directed:
            arcs.append((v, u, w))
    return arcs


def bellman_ford(nodes, arcs, s):
    """(distances from s, has a negative cycle reachable from s)"""
    dist = {s: 0}
    for _ in range(len(nodes) + 1):
        changed = False
        for (u, v, w) in arcs:
            if u in dist:
                d = dist[u] + w
                if v not in dist or d < dist[v]:
                    dist[v] = d
                    changed = True
        if not changed:
            return dist, False
    return dist, True


def has_negative_cycle(nodes, arcs):
    dist = {n: 0 for n in nodes}
    for _ in range(len(nodes) + 1):
        changed = False
        for (u, v, w) in arcs:
            if dist[u] + w < dist[v]:
                dist[v] = dist[u] + w
                changed = True
        if not changed:
            return False
    return True


def undirected_components(nodes, edges):
    adj = out_adj(nodes, edges, False)
    comp = {}
    for n in nodes:
        if n not in comp:
            for m in reach(adj, n):
                comp[m] = n
    return comp


def strong_components(nodes, edges):
    """list of frozensets, from the reachability definition"""
    fwd = out_adj(nodes, edges, True)
    r = {n: reach(fwd, n) for n in nodes}
    seen, out = set(), []
    for n in nodes:
        if n in seen:
            continue
        c = frozenset(m for m in r[n] if n in r[m])
        out.append(c)
        seen |= c
    return out


class Partition(object):
    """set partition by relabelling"""

    def __init__(self):
        self.block = {}

    def add(self, items):
        b = object()
        for i in items:
            self.block[i] = b

    def same(self, a, b):
        return self.block[a] is self.block[b]

    def union(self, a, b):
        x, y = self.block[a], self.block[b]
        if x is y:
            return False
        for k in self.block:
            if self.block[k] is x:
                self.block[k] = y
        return True

    def members(self, a):
        return {k for k in self.block if self.block[k] is self.block[a]}


def is_forest(nodes, edges):
    p = Partition()
    for n in nodes:
        p.add([n])
    return all(p.union(u, v) for (u, v) in edges)


def min_forest_weight(nodes, edges, weight):
    """total weight of a minimum spanning forest (Boruvka, ties by rank)"""
    ranked = sorted(((weight(d), i, e) for i, (e, d) in
                     enumerate(edges.items()) if e[0] != e[1]),
                    key=lambda t: t[:2])
    comp = {n: n for n in nodes}
    total = 0
    while True:
        best = {}
        for (w, i, (u, v)) in ranked:
            a, b = comp[u], comp[v]
            if a == b:
                continue
            best.setdefault(a, (w, i, u, v))
            best.setdefault(b, (w, i, u, v))
        if not best:
            return total
        for (w, i, u, v) in sorted(set(best.values()),
                                   key=lambda t: t[:2]):
            a, b = comp[u], comp[v]
            if a == b:
                continue
            total += w
            for n in comp:
                if comp[n] == a:
                    comp[n] = b


def flow_balance(nodes, flow):
    """outflow - inflow per node"""
    bal = {n: 0 for n in nodes}
    for (u, v), f in flow.items():
        bal[u] += f
        bal[v] -= f
    return bal


def max_flow_value(nodes, cap, s, t):
    """Edmonds-Karp on a dense residual dict"""
    res = {}
    adj = {n: set() for n in nodes}
    for (u, v), c in cap.items():
        res[u, v] = res.get((u, v), 0) + c
        res.setdefault((v, u), 0)
        adj[u].add(v)
        adj[v].add(u)
    total = 0
    while True:
        pred = {s: None}
        q = deque([s])
        while q and t not in pred:
            x = q.popleft()
            for y in adj[x]:
                if y not in pred and res[x, y] > 0:
                    pred[y] = x
                    q.append(y)
        if t not in pred:
            return total
        path = []
        x = t
        while pred[x] is not None:
            path.append((pred[x], x))
            x = pred[x]
        a = min(res[e] for e in path)
        for (u, v) in path:
            res[u, v] -= a
            res[v, u] += a
        total += a


def feasible_exists(nodes, cap, demand):
    """is there a flow with outflow - inflow = demand at every node"""
    if sum(demand.values()) != 0:
        return False
    s, t = ('source',), ('sink',)
    c = dict(cap)
    for n in nodes:
        if demand[n] > 0:
            c[s, n] = demand[n]
        elif demand[n] < 0:
            c[n, t] = -demand[n]
    need = sum(d for d in demand.values() if d > 0)
    return max_flow_value(list(nodes) + [s, t], c, s, t) == need


def flow_is_optimal(nodes, cap, cost, flow):
    """no negative cycle in the residual network of a feasible flow"""
    arcs = []
    for e, c in cap.items():
        if flow[e] < c:
            arcs.append((e[0], e[1], cost[e]))
        if flow[e] > 0:
            arcs.append((e[1], e[0], -cost[e]))
    return not has_negative_cycle(nodes, arcs)


def hamiltonian_path_exists(adj, s, t=None):
    nodes = list(adj)
    idx = {n: i for i, n in enumerate(nodes)}
    nb = [[idx[m] for m in adj[n]] for n in nodes]
    full = (1 << len(nodes)) - 1
    layer = {(1 << idx[s], idx[s])}
    for _ in range(len(nodes) - 1):
        nxt = set()
        for (mask, x) in layer:
            for y in nb[x]:
                if not mask >> y & 1:
                    nxt.add((mask | 1 << y, y))
        layer = nxt
    return any(mask == full and (t is None or x == idx[t])
               for (mask, x) in layer)


def solve_linear(a, b):
    """Gaussian elimination with partial pivoting on floats"""
    n = len(b)
    m = [list(map(float, a[i])) + [float(b[i])] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        m[c], m[p] = m[p], m[c]
        for r in range(n):
            if r != c and m[r][c] != 0.0:
                f = m[r][c] / m[c][c]
                for k in range(c, n + 1):
                    m[r][k] -= f * m[c][k]
    return [m[i][n] / m[i][i] for i in range(n)]


def is_connected(nodes, edges):
    nodes = list(nodes)
    if not nodes:
        return True
    return len(reach(out_adj(nodes, edges, False), nodes[0])) == len(nodes)


def small_digraphs(n, loops=False):
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for mask in range(1 << len(pairs)):
        yield [p for b, p in enumerate(pairs) if mask >> b & 1]


def small_graphs(n):
    pairs = list(itertools.combinations(range(n), 2))
    for mask in range(1 << len(pairs)):
        yield [p for b, p in enumerate(pairs) if mask >> b & 1]
