'''C10: histories of spec/LoopWeights.tla replayed into phone loops built by the
real commands (emissions replaced by a table so that every path is prescribed).'''
import copy
import os
import pickle
import shutil
import numpy as np
import torch
from checks.c02 import fl
from loopcases import build, load, make_alis
from special import dir_elog, sb_elog
from stub import TableSet
from vlib import cli

BIGRAM = ('dirichlet2', 'hierarchical_dirichlet_process')
TOL = 3e-4


def make(ctx, beer, case, d):
    'the loop with the weight prior of the case, through mkphoneloop / mkphoneloopbigram'
    kind = case['kind']
    via = kind in BIGRAM and case['strength'] == 2 and ctx.rng.random() < .5
    p = build(case, d, ctx.rng, prior='gamma_dirichlet_process' if via else kind,
              conc=len(case['order']) / case['strength'] if case['strength'] != 2 or ctx.rng.random() < .3 else None)
    path = p['model.mdl']
    if via:
        path = os.path.join(d, 'bigram.mdl')
        cli('hmm', 'mkphoneloopbigram', ['--weights-prior', kind, p['model.mdl'], path])
    model = load(path)
    # the copy the command works from is compiled once more: "as compiled"
    graph = load(p['decode.graph'])[0].compile()
    model.modelset.original_modelset = TableSet(case['npdf'], torch.float32)
    return p, model, graph.trans_log_probs.detach().double().exp().numpy(), via


def cat_of(model):
    return model.categoricalset if hasattr(model, 'categoricalset') else model.categorical


def conc_of(model):
    return cat_of(model).mean_field_factorization()[0][0].posterior.params.concentrations.detach().double()


def elog(model, kind, n):
    'expected log weights, [left unit,] entered unit, from the posterior alone'
    c = conc_of(model).tolist()
    if kind == 'dirichlet':
        return [dir_elog(c)] * n
    if kind == 'dirichlet2':
        return [dir_elog(row) for row in c]
    if kind == 'hierarchical_dirichlet_process':
        order = cat_of(model).ordering.tolist()
        return [sb_elog(c[i * n:(i + 1) * n], order) for i in range(n)]
    return [sb_elog(c, cat_of(model).ordering.tolist())] * n


def mirrors(model, case, compiled):
    n = len(case['order'])
    exp = np.log(np.maximum(compiled, 1e-300))
    ew = elog(model, case['kind'], n)
    for l, e in enumerate(case['ends']):
        for k, s in enumerate(case['starts']):
            exp[e - 1, s - 1] = np.log(1 - compiled[e - 1, e - 1]) + ew[l][k]
    got = model.graph.trans_log_probs.detach().double().numpy()
    ok = (got == exp) | (np.abs(np.where(np.isfinite(got), got, -1e6) - exp) < TOL * (1 + np.abs(exp))) | ((exp < -600) & (got < -80))
    if not ok.all():
        i, j = [int(x) for x in np.argwhere(~ok)[0]]
        return 'transition %d->%d has log probability %s, expected %s' % (i, j, got[i, j], exp[i, j])
    return None


def frames(case, walk, flat=False):
    x = torch.full((len(walk), case['npdf']), 0. if flat else -300.)
    if not flat:
        for t, j in enumerate(walk):
            x[t, j - 1] = 0.
    return x


def expected_conc(model, kind, counts, r):
    'the categorical model updated on its own with the given unit entries'
    import beer
    cat = copy.deepcopy(cat_of(model))
    param = cat.mean_field_factorization()[0][0]
    if hasattr(param, '_callbacks'):     # observers of the copy only cost time
        param._callbacks = {(cb, b) for cb, b in param._callbacks if getattr(cb, '__self__', None) is cat}
    rows = torch.tensor(counts, dtype=torch.float32)[None]
    acc = cat.accumulate_from_jointresps(cat.sufficient_statistics(rows)) if kind in BIGRAM else cat.accumulate(cat.sufficient_statistics(rows))
    optim = beer.VBConjugateOptimizer([[param]], r)
    optim.init_step()
    for q, s in acc.items():
        q.store_stats(s)
    optim.step()
    return param.posterior.params.concentrations.detach().double()


def step(model, x, r, **kw):
    import beer
    optim = beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), r)
    optim.init_step()
    elbo = beer.evidence_lower_bound(model, x, datasize=len(x), **kw)
    elbo.backward()
    optim.step()


def traversed(case, walk):
    'units entered by the walk, as positions in the unit list'
    out = []
    for t, j in enumerate(walk):
        if j in case['starts'] and (t == 0 or walk[t - 1] in case['ends']):
            out.append(case['order'][case['starts'].index(j)] - 1)
    return out


def flat_counts(model, case):
    init, trans, final = (getattr(model.graph, k + '_log_probs').detach().double().exp().numpy() for k in ('init', 'trans', 'final'))
    tot, z = None, 0.
    for f in case['flat']:
        p = [j - 1 for j in f['path']]
        w = init[p[0]] * final[p[-1]]
        for a, b in zip(p, p[1:]):
            w *= trans[a, b]
        c = np.array(f['n'], dtype=float)
        tot, z = (w * c if tot is None else tot + w * c), z + w
    return None if tot is None or z <= 0 else tot / z


def one(ctx, beer, case, d):
    kind, n = case['kind'], len(case['order'])
    p, model, compiled, via = make(ctx, beer, case, d)
    ops = lambda: '%s%s prior %s units %s groups %s boundary %s: %s' % (kind, ' (from a unigram loop)' if via else '', '1/%d per unit' % case['strength'], case['units'], [g['id'] for g in case['groups']], case['boundary'],
                                                              [(h['op'], h.get('walk'), h.get('r')) for h in case['hist'][:t + 1]])
    t = -1
    msg = mirrors(model, case, compiled)
    if msg:
        return ctx.violation('construction', '%s: %s' % (ops(), msg), case)
    for t, h in enumerate(case['hist']):
        if h['op'] in ('pickle', 'copy'):
            old = model
            model = pickle.loads(pickle.dumps(old)) if h['op'] == 'pickle' else copy.deepcopy(old)
            for who, m in (('copy', model), ('original', old)):
                msg = mirrors(m, case, compiled)
                if msg:
                    return ctx.violation('persist', '%s: the %s: %s' % (ops(), who, msg), case)
            before = model.graph.trans_log_probs.clone(), conc_of(model).clone()
            k = ctx.rng.randrange(n)
            cnt = [[3. * (i == k) + j for i in range(n)] for j in range(n)] if kind in BIGRAM else [7. * (i == k) for i in range(n)]
            cat = cat_of(old)
            rows = torch.tensor(cnt)[None]
            acc = cat.accumulate_from_jointresps(cat.sufficient_statistics(rows)) if kind in BIGRAM else cat.accumulate(cat.sufficient_statistics(rows))
            for q, s in acc.items():
                q.store_stats(s)
                q.natural_grad_update(1.)
            msg = mirrors(old, case, compiled)
            if msg:
                return ctx.violation('persist', '%s, original updated: %s' % (ops(), msg), case)
            if not torch.equal(before[0], model.graph.trans_log_probs) or not torch.equal(before[1], conc_of(model)):
                return ctx.violation('persist', '%s: the copy follows the updates of its original' % ops(), case)
            continue
        walk, r = h['walk'], float(h['r'][0]) / h['r'][1]
        x = frames(case, walk)
        kw = {}
        if h['op'] == 'viterbi':
            kw['viterbi'] = True
        elif h['op'] == 'path':
            kw['state_path'] = torch.tensor([j - 1 for j in walk]) if ctx.rng.random() < .5 else [j - 1 for j in walk]
            x = frames(case, walk, flat=True)
        elif h['op'] == 'ali':
            ad, _, _ = make_alis(d, p, [('utt', [p['names'][u] for u in traversed(case, walk)])])
            kw['inference_graph'] = np.load(os.path.join(ad, 'utt.npy'), allow_pickle=True)[0]
            if ctx.rng.random() < .5:
                kw['viterbi'] = True
        if ctx.rng.random() < .5:
            kw['scale'] = ctx.rng.choice([.5, 2., .75])
        exp = expected_conc(model, kind, h['n'], r)
        if ctx.rng.random() < .3:        # leftovers of another call must not matter
            model.expected_log_likelihood(model.sufficient_statistics(torch.zeros(6, case['npdf'])))
        step(model, x, r, **kw)
        got = conc_of(model)
        if kind in ('dirichlet', 'dirichlet2') and not via:
            spec = torch.tensor(fl(h['conc']), dtype=torch.float64)
            if not torch.allclose(got, spec, rtol=TOL, atol=TOL):
                return ctx.violation('statistics', '%s: weight posterior %s, expected %s' % (ops(), got.tolist(), spec.tolist()), case)
        if not torch.allclose(got, exp, rtol=TOL, atol=TOL):
            return ctx.violation('statistics', '%s: weight posterior %s, expected %s' % (ops(), got.tolist(), exp.tolist()), case)
        msg = mirrors(model, case, compiled)
        if msg:
            return ctx.violation('mirror', '%s: %s' % (ops(), msg), case)
        ctx.count('updates')
    cnt = flat_counts(model, case)
    if cnt is not None:
        exp = expected_conc(model, kind, cnt.tolist(), 1.)
        step(model, frames(case, [1] * case['flatlen'], flat=True), 1.)
        got = conc_of(model)
        # near ties are ranked arbitrarily by stick-breaking priors
        vals = sorted(np.array(cnt).ravel().tolist())
        tie = kind not in ('dirichlet', 'dirichlet2') and any(abs(a - b) < 1e-4 for a, b in zip(vals, vals[1:]))
        if not tie and not torch.allclose(got, exp, rtol=2e-3, atol=1e-3):
            return ctx.violation('expected-counts', '%s: uninformative frames: weight posterior %s, expected %s' % (ops(), got.tolist(), exp.tolist()), case)
        msg = mirrors(model, case, compiled)
        if msg:
            return ctx.violation('mirror', '%s, uninformative frames: %s' % (ops(), msg), case)
        ctx.count('expected_count_updates')


KINDS = ['dirichlet', 'dirichlet2', 'dirichlet_process', 'gamma_dirichlet_process', 'hierarchical_dirichlet_process']


def run(ctx):
    import beer
    inv = ['EntriesAreTraversals', 'ConcPositive', 'Emit']
    runs = []
    for kind, num in zip(KINDS, (70, 90, 60, 60, 60)):
        runs.append(ctx.tlc('LoopWeights', dict(Topos=[2, 3, 4, 5, 7], NGroups=2, MinUnits=2, MaxUnits=4, MaxFrames=7, MaxOps=5, FlatLen=4,
                                                Kinds='{"%s"}' % kind, Rates=[4, 2, 1],
                                                Strengths=[2] if kind.startswith('hier') else [2, 16, 64]), invariants=inv,
                            simulate=ctx.pick(num, num * 12), depth=80, timeout=800))
    cases = []
    for r in runs:
        seen = {str(c): c for c in r.prints}
        cases.append(list(seen.values()))
        if r.prints:
            c = r.prints[-1]
            ctx.sample(dict(kind=c['kind'], units=c['units'], boundary=c['boundary'], hist=[(h['op'], h.get('walk'), h.get('n')) for h in c['hist']]), 5)
    for k in range(max(map(len, cases))):
        for cc in cases:
            if k >= len(cc):
                continue
            d = os.path.join(ctx.scratch, 'w')
            with ctx.guard('raises', cc[k]):
                one(ctx, beer, cc[k], d)
            shutil.rmtree(d, ignore_errors=True)
            ctx.validated += 1
            if ctx.enough() or ctx.elapsed() > ctx.pick(150, 840):
                return
