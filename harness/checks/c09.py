'''C09: the loops enumerated by spec/LoopBuild.tla built by the real commands.'''
import os
import shutil
import numpy as np
from checks.c02 import fl
from loopcases import build, load


def probs(t):
    return t.detach().double().exp().numpy()


def compare_compiled(cg, exp):
    if list(cg.pdf_id_mapping) != exp['pdf']:
        return 'density of each state %s, expected %s' % (list(cg.pdf_id_mapping), exp['pdf'])
    for k, v in (('init', cg.init_log_probs), ('final', cg.final_log_probs), ('trans', cg.trans_log_probs)):
        a, e = probs(v), fl(exp[k])
        if a.shape != e.shape or not np.allclose(a, e, rtol=1e-4, atol=1e-5):
            return '%s is %s, expected %s' % (k, a.round(5).tolist(), e.round(5).tolist())
    return None


def unit_arcs(case, u):
    g = case['groups'][case['units'][u] - 1]
    return {(a[0], a[1]): a[2] / a[3] for a in g['arcs']}, g['n']


def one(ctx, case, d, full):
    p = build(case, d, ctx.rng, ncomp=0, prior=ctx.rng.choice(PRIORS) if full else None)
    names = p['names']
    what = 'units %s groups %s boundary %d' % (case['units'], [g['id'] for g in case['groups']], case['boundary'])
    hmms, emissions = load(p['hmms.mdl'])
    if set(hmms) != set(names):
        return ctx.violation('units', '%s: unit HMMs for %s, expected %s' % (what, sorted(hmms), sorted(names)), case)
    if len(emissions) != case['npdf']:
        return ctx.violation('emissions', '%s: %d densities, expected %d' % (what, len(emissions), case['npdf']), case)
    for u, name in enumerate(names):
        g = hmms[name]
        arcs, n = unit_arcs(case, u)
        ids = list(g.states())
        pdfs = [g.state_from_id(i).pdf_id for i in ids]
        exp = [None] + list(range(case['start'][u], case['end'][u] + 1)) + [None]
        if pdfs != exp:
            return ctx.violation('unit-pdfs', '%s: unit %d has densities %s, expected %s' % (what, u + 1, pdfs, exp), case)
        got = {(ids.index(a.start), ids.index(a.end)): a.weight for a in g.arcs()}
        if set(got) != set(arcs) or any(abs(got[k] - arcs[k]) > 1e-6 for k in arcs):
            return ctx.violation('unit-arcs', '%s: unit %d has arcs %s, expected %s' % (what, u + 1, got, arcs), case)
        ncomp = p['conf'][case['units'][u] - 1]['n_normal_per_state']
        for k in range(case['start'][u], case['end'][u] + 1):
            if len(emissions[k].modelset) != ncomp:
                return ctx.violation('density-conf', '%s: density %d has %d components, expected %d' % (
                    what, k, len(emissions[k].modelset), ncomp), case)
    graph, start, end = load(p['decode.graph'])
    es = {n: case['start'][u] for u, n in enumerate(names)}
    ee = {n: case['end'][u] for u, n in enumerate(names)}
    if start != es or end != ee or list(start) != list(end):
        return ctx.violation('entry-exit', '%s: entry %s exit %s, expected %s %s' % (what, start, end, es, ee), case)
    msg = compare_compiled(graph.compile(), case['compiled'])
    if msg:
        return ctx.violation('loop', '%s: %s' % (what, msg), case)
    if full:
        model = load(p['model.mdl'])
        if model.start_pdf != es or model.end_pdf != ee or list(model.graph.pdf_id_mapping) != case['compiled']['pdf']:
            return ctx.violation('model', '%s: entry %s exit %s' % (what, model.start_pdf, model.end_pdf), case)
        if len(model.modelset) != case['npdf']:
            return ctx.violation('model', '%s: %d densities in the model' % (what, len(model.modelset)), case)
        for k in ('init', 'final'):
            a, e = probs(getattr(model.graph, k + '_log_probs')), fl(case['compiled'][k])
            if not np.allclose(a, e, rtol=1e-4, atol=1e-5):
                return ctx.violation('model', '%s: %s %s expected %s' % (what, k, a, e), case)
        x = np.random.RandomState(0).randn(3, 2)
        import torch
        llh = model.modelset.expected_log_likelihood(model.modelset.sufficient_statistics(torch.tensor(x).float()),
                                                     model.graph.pdf_id_mapping)
        ref = emissions.expected_log_likelihood(emissions.sufficient_statistics(torch.tensor(x).float()))
        if llh.shape != ref.shape or not torch.allclose(llh, ref, rtol=1e-4, atol=1e-4):
            return ctx.violation('model', '%s: state likelihoods are not those of density i for state i' % what, case)


def many(case):
    'assemble the expectation of a loop of many units from the blocks of Flat (theorem Closed).'
    f, seen, start, end = case['flat'], {}, [], []
    for g in case['units']:
        n = case['groups'][g - 1]['n'] - 2
        k = seen[g] = seen.get(g, 0) + 1
        start.append(f['below'][g - 1] + (k - 1) * n)
        end.append(start[-1] + n - 1)
    N = case['npdf']
    init, final, trans = [None] * N, [None] * N, [[None] * N for _ in range(N)]
    for u, g in enumerate(case['units']):
        for i in range(end[u] - start[u] + 1):
            init[start[u] + i], final[start[u] + i] = f['init'][g - 1][i], f['final'][g - 1][i]
            for v, h in enumerate(case['units']):
                b = f['own'][g - 1] if u == v else f['cross'][g - 1][h - 1]
                trans[start[u] + i][start[v]:end[v] + 1] = b[i]
    return dict(case, start=start, end=end, compiled=dict(pdf=list(range(N)), init=init, final=final, trans=trans))


PRIORS = ['dirichlet', 'dirichlet2', 'dirichlet_process', 'gamma_dirichlet_process', 'hierarchical_dirichlet_process']


def run(ctx):
    inv = ['Numbering', 'Closed', 'AcceptsLoop', 'RowsStochastic', 'Emit']
    runs = [ctx.tlc('LoopBuild', dict(Topos=ctx.pick([1, 2, 4], [1, 2, 3, 4, 5, 6]), NGroups=2, MaxUnits=3, MinUnits=1,
                                      LangLen=ctx.pick(3, 4)), invariants=inv, workers=8, timeout=800)]
    for ng, mx in ((2, 4), (3, 5), (3, 6), (4, 7)):
        runs.append(ctx.tlc('LoopBuild', dict(Topos=[1, 2, 3, 4, 5, 6], NGroups=ng, MaxUnits=mx, MinUnits=3, LangLen=1),
                            invariants=['Numbering', 'Emit'], simulate=ctx.pick(8, 60), depth=16, timeout=800))
    base = dict(Topos=[1], NGroups=1, MaxUnits=1, MinUnits=1, LangLen=1)
    runs.insert(0, ctx.tlc('LoopMany', dict(base, Sizes=ctx.pick([40, 70], [33, 50, 70, 101, 130]), K=ctx.pick(3, 6)),
                           init='MInit', next_='MNext', invariants=['EmitFlat'], timeout=800))
    seen = set()
    for r in runs:
        for case in r.prints:
            key = str((case['groups'], case['units'], case['boundary']))
            if key in seen:
                continue
            seen.add(key)
            if 'many' in case:
                case = many(case)
                ctx.count('many-units')
            d = os.path.join(ctx.scratch, 'w')
            with ctx.guard('build-raises', case):
                one(ctx, case, d, len(seen) % 2 == 0)
            shutil.rmtree(d, ignore_errors=True)
            ctx.validated += 1
            if len(case['units']) > 4:
                ctx.sample(dict(units=case['units'], groups=[g['id'] for g in case['groups']], boundary=case['boundary']))
            if ctx.enough() or ctx.elapsed() > ctx.pick(300, 840):
                return
    ctx.coverage['loops'] = len(seen)
