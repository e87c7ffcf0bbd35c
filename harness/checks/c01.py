'''C01: replay editing histories enumerated by spec/GraphEdit.tla into beer.graph.Graph.'''
import json
import graphs
from vlib import rat

TEMPLATES = None   # filled from the spec (see Templates operator output)


def build_templates(beer, table, c=1.):
    out = []
    for t in table:
        g = beer.graph.Graph()
        for p in t['pdf']:
            g.add_state(pdf_id=None if p == -1 else p)
        g.start_state, g.end_state = t['start'], t['end']
        for s, e, w in t['arcs']:
            g.add_arc(s, e, c * float(rat(w)))
        out.append(g)
    return out


def replay(ctx, beer, case, templates, c=1.):
    g, ids = graphs.new_graph(beer, case['inner'])
    m = dict(enumerate(ids))                  # spec id -> real id
    order = case['arcs']
    for s, e, w in order:
        g.add_arc(m[s], m[e], c * float(w))
    nxt = case['inner'] + 2
    for o in case['ops']:
        if o['op'] == 'replace':
            before = set(g.states())
            t = templates[o['unit'] - 1]
            g.replace_state(m[o['state']], t)
            fresh = [i for i in g.states() if i not in before]
            for k, i in enumerate(fresh):
                m[nxt + k] = i
            nxt += len(list(t.states()))
        else:
            g.normalize()
    return g


def run(ctx):
    import beer
    base = dict(Weights=[1, 2], Templates=range(1, 7), PrintOut=True)
    inv = ['NoDangling', 'NormalizedSums', 'ScaleFree', 'IsPathSubst', 'Emit']
    runs = []
    runs.append(ctx.tlc('GraphEdit', dict(base, Inner=1, MaxArcs=ctx.pick(3, 4), MaxOps=1, PathLen=5),
                        invariants=inv, workers=8, timeout=800))
    runs.append(ctx.tlc('GraphEdit', dict(base, Inner=1, MaxArcs=2, MaxOps=2, PathLen=5),
                        invariants=inv, workers=8, timeout=800))
    runs.append(ctx.tlc('GraphEdit', dict(base, Inner=3, MaxArcs=7, MaxOps=4, PathLen=3),
                        invariants=['NoDangling', 'NormalizedSums', 'ScaleFree', 'Emit'],
                        simulate=ctx.pick(1500, 20000), depth=14, timeout=800))
    tab = ctx.tlc('GraphEdit', dict(base, Inner=1, MaxArcs=0, MaxOps=0, PathLen=1), init='InitTemplates',
                  workers=1).prints
    table = [t for t in tab if 'template' in t]
    table = [x['template'] for x in sorted(table, key=lambda t: t['index'])]
    seen = set()
    for r in runs:
        for case in r.prints:
            key = json.dumps([case['inner'], case['arcs'], case['ops']])
            if key in seen:
                continue
            seen.add(key)
            # theorem ScaleFree: a scale of all the weights is forgotten by the last operation, normalise
            ns = [o['op'] for o in case['ops']]
            c = ctx.rng.choice([1., 2. ** -10, 2. ** -40, 2. ** 30]) if ns[-1] == 'normalize' and ns.count('normalize') == 1 else 1.
            templates = build_templates(beer, table, c)
            with ctx.guard('edit-raises', case):
                g = replay(ctx, beer, case, templates, c)
                p, q = graphs.project(g), graphs.spec_project(case['graph'])
                bad = graphs.dangling(p)
                if bad:
                    ctx.violation('dangling', 'history %s leaves %s' % (case['ops'], bad), case)
                elif not graphs.isomorphic(p, q):
                    ctx.violation('wrong-graph', 'arcs %s (times %s) ops %s: %s' % (case['arcs'], c, case['ops'], graphs.explain(p, q)), case)
                ts = build_templates(beer, table, c)
                for o in case['ops']:
                    if o['op'] == 'replace':
                        k = o['unit'] - 1
                        if not graphs.same_identity(graphs.project(templates[k]), graphs.project(ts[k])):
                            ctx.violation('unit-modified', 'unit graph %d changed by %s' % (k, case['ops']), case)
            ctx.validated += 1
            if len(case['ops']) > 1:
                ctx.sample(case)
            if ctx.enough():
                return
    ctx.coverage['histories'] = len(seen)
    ctx.coverage['exhaustive'] = False
