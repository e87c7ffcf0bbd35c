'''C02: graphs enumerated by spec/GraphCompile.tla compiled by the real code.'''
import json
import numpy as np
from vlib import rat


def build(beer, case, order=None):
    g = beer.graph.Graph()
    for p in case['pdf']:
        g.add_state(pdf_id=None if p == -1 else p)
    g.start_state, g.end_state = 0, 1
    arcs = list(case['arcs'])
    if order is not None:
        order.shuffle(arcs)
    for s, e, w in arcs:
        w = w / 8.
        if order is not None and order.random() < .25:
            # theorem Subdivide: a chain of non-emitting states
            for k in range(order.choice([1, 1, 2, 8, 20])):
                x = 1. if k == 0 and case['norm'] else 2. ** order.choice([0, -2, -20, -30, 20])
                n = g.add_state()
                g.add_arc(s, n, w * x)
                s, w = n, 1. / x
        g.add_arc(s, e, w)
    if case['norm']:
        g.normalize()
    return g


def fl(v):
    return np.array([[float(rat(x)) for x in r] for r in v]) if v and isinstance(v[0][0], list) \
        else np.array([float(rat(x)) for x in v])


def compare(ctx, case, cg):
    exp = case['compiled']
    pdf = list(cg.pdf_id_mapping)
    if sorted(pdf) != sorted(exp['pdf']):
        return 'density labels %s, expected %s' % (pdf, exp['pdf'])
    perm = [pdf.index(p) for p in exp['pdf']]          # labels are unique in this model
    got = dict(init=cg.init_log_probs, final=cg.final_log_probs, trans=cg.trans_log_probs)
    for k, v in got.items():
        a = v.detach().double().exp().numpy()
        a = a[perm] if k != 'trans' else a[np.ix_(perm, perm)]
        e = fl(exp[k])
        if a.shape != e.shape or not np.allclose(a, e, rtol=1e-4, atol=1e-6):
            return '%s is %s, expected %s' % (k, a.round(5).tolist(), e.round(5).tolist())
    if len(pdf) != cg.n_states:
        return 'n_states %d' % cg.n_states
    return None


def run(ctx):
    import beer
    runs = [
        ctx.tlc('GraphCompile', dict(Inner=2, MaxArcs=6, MinArcs=2, Weights=ctx.pick([2], [1, 3]), AllowNormalize=True, Depth=1),
                invariants=['Stochastic', 'BothWays', 'PathSums', 'Subdivide', 'Emit'], workers=8, timeout=800),
        ctx.tlc('GraphCompile', dict(Inner=2, MaxArcs=4, MinArcs=2, Weights=[1, 3], AllowNormalize=False, Depth=1),
                invariants=['Stochastic', 'BothWays', 'PathSums', 'Subdivide', 'Emit'], workers=8, timeout=800)]
    for inner, arcs in ((4, 8), (5, 9), (5, 12), (6, 11)):
        runs.append(ctx.tlc('GraphCompile', dict(Inner=inner, MaxArcs=arcs, MinArcs=2, Weights=[1, 3], AllowNormalize=True, Depth=1),
                    next_='SimNext', invariants=['Stochastic', 'BothWays', 'Subdivide', 'Emit'],
                    simulate=ctx.pick(400, 8000), depth=arcs + 4, timeout=800))
    seen = set()
    multi = 0
    for r in runs:
        for case in r.prints:
            key = json.dumps([case['pdf'], sorted(case['arcs']), case['norm']])
            if key in seen:
                continue
            seen.add(key)
            with ctx.guard('compile-raises', case):
                msg = compare(ctx, case, build(beer, case, ctx.rng).compile())
                if msg:
                    ctx.violation('compiled', 'graph pdf=%s arcs=%s norm=%s: %s' % (case['pdf'], case['arcs'], case['norm'], msg), case)
            ctx.validated += 1
            if case['pdf'].count(-1) > 3:
                multi += 1
                ctx.sample(case)
            if ctx.enough():
                return
    ctx.coverage['graphs'] = len(seen)
    ctx.coverage['graphs_with_inner_non_emitting'] = multi
