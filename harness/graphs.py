'''Abstraction of beer.graph.Graph: public API only.'''
import networkx as nx
from vlib import rat, close

def new_graph(beer, inner):
    g = beer.graph.Graph()
    ids = [g.add_state(), g.add_state()]
    g.start_state, g.end_state = ids
    for x in range(2, inner + 2):
        ids.append(g.add_state(pdf_id=100 + x))
    return g, ids

def project(g):
    'Real graph -> (ids, pdf, arcs, start, end).'
    ids = list(g.states())
    pdf = {i: g.state_from_id(i).pdf_id for i in ids}
    arcs = [(a.start, a.end, float(a.weight)) for a in g.arcs()]
    return ids, pdf, arcs, g.start_state, g.end_state

def spec_project(j):
    ids = j['ids']
    pdf = {i: (None if p == -1 else p) for i, p in zip(ids, j['pdf'])}
    arcs = [(a[0], a[1], float(rat(a[2]))) for a in j['arcs']]
    return ids, pdf, arcs, j['start'], j['end']

def dangling(p):
    ids, pdf, arcs, st, en = p
    live = set(ids)
    return [a for a in arcs if a[0] not in live or a[1] not in live] + \
           [x for x in (st, en) if x not in live]

def to_nx(p):
    ids, pdf, arcs, st, en = p
    n = nx.MultiDiGraph()
    for i in ids:
        n.add_node(i, lab=(pdf[i], i == st, i == en))
    for s, e, w in arcs:
        n.add_edge(s, e, w=w)
    return n

def same_identity(p, q):
    if set(p[0]) != set(q[0]) or p[1] != q[1] or p[3:] != q[3:] or len(p[2]) != len(q[2]):
        return False
    d = {(a[0], a[1]): a[2] for a in p[2]}
    return all((a[0], a[1]) in d and close(a[2], d[(a[0], a[1])], 1e-6, 1e-9) for a in q[2])

def isomorphic(p, q):
    if same_identity(p, q):
        return True
    if len(p[0]) != len(q[0]) or len(p[2]) != len(q[2]):
        return False
    em = lambda a, b: len(a) == len(b) and all(close(x['w'], y['w'], 1e-6, 1e-9) for x, y in
            zip(sorted(a.values(), key=lambda d: d['w']), sorted(b.values(), key=lambda d: d['w'])))
    return nx.is_isomorphic(to_nx(p), to_nx(q), node_match=lambda a, b: a['lab'] == b['lab'], edge_match=em)

def explain(p, q):
    return 'code: %s  specification: %s' % (p, q)
