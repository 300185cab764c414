"""Observable state of a gimpy graph, as plain comparable data."""
import copy


def nkey(x):
    return (type(x).__name__, repr(x))


def structure(g):
    """nodes, edges and adjacency, in a canonical order-free form plus the
    adjacency order"""
    directed = g.graph_type == 'digraph'
    nodes = list(g.get_node_list())
    s = {'type': str(g.graph_type),
         'nodes': nodes,
         'num': (g.get_node_num(), g.get_edge_num()),
         'edges': list(g.get_edge_list()),
         'nb': {n: list(g.get_neighbors(n)) for n in nodes}}
    if directed:
        s['in'] = {n: list(g.get_in_neighbors(n)) for n in nodes}
    return s


def node_attrs(g, skip=()):
    return {n: {a: copy.deepcopy(v) for a, v in g.get_node(n).attr.items()
                if a not in skip} for n in g.get_node_list()}


def edge_attrs(g, skip=()):
    return {e: {a: copy.deepcopy(v) for a, v in g.edge_attr[e].items()
                if a not in skip} for e in g.get_edge_list()}


def graph_attrs(g, skip=()):
    return {a: copy.deepcopy(v) for a, v in g.attr.items() if a not in skip}


def full(g):
    s = structure(g)
    s['nattr'] = node_attrs(g)
    s['eattr'] = edge_attrs(g)
    s['gattr'] = graph_attrs(g)
    s['cluster'] = copy.deepcopy(g.cluster)
    if hasattr(g, 'sizes'):
        s['sizes'] = dict(g.sizes)
    if hasattr(g, 'root'):
        s['root'] = None if g.root is None else g.root.name
    return s


def diff(a, b):
    """short description of the first difference"""
    for k in a:
        if k not in b:
            return '%s disappeared' % k
        if a[k] != b[k]:
            if isinstance(a[k], dict) and isinstance(b[k], dict):
                for x in list(a[k]) + list(b[k]):
                    if a[k].get(x) != b[k].get(x):
                        return '%s[%r]: %r -> %r' % (k, x, a[k].get(x),
                                                     b[k].get(x))
            return '%s: %r -> %r' % (k, a[k], b[k])
    for k in b:
        if k not in a:
            return '%s appeared' % k
    return None
