'''C05: routing of likelihoods and responsibilities through trees of model sets
and through the HMM, against exact rationals of spec/Routing.tla.'''
import torch
import hmmcases
from routecases import build, cases, expected_mix, has, mats, size
from stub import LeafTable, TableSet


def near(a, b, tol=1e-7):
    a = torch.as_tensor(a).detach().double()
    return tuple(a.shape) == tuple(b.shape) and bool(((a - b).abs() <= tol * (1 + b.abs())).all())


def judge_acc(ctx, case, index, acc, dens, clause):
    'acc: what the code accumulated; dens: (frames, densities) expected responsibilities.'
    t = torch.arange(1, len(dens) + 1, dtype=dens.dtype)[:, None]
    seen = 0
    for tree, m in index:
        if m.param not in acc:
            ctx.violation(clause, '%s: nothing accumulated for %s' % (text(case), tree), case)
            continue
        seen += 1
        if tree['k'] == 'leaf':
            d = dens[:, tree['off']:tree['off'] + tree['n']]
            exp = torch.stack([d.sum(dim=0), (d * t).sum(dim=0)])
        else:
            exp = expected_mix(case, tree['id'], tree).sum(dim=0)
        if not near(acc[m.param], exp):
            ctx.violation(clause, '%s: %s accumulated %s, expected %s' % (text(case), tree, acc[m.param].tolist(), exp.tolist()), case)
    if len(acc) != seen:
        ctx.violation(clause, '%s: statistics for unknown parameters' % text(case), case)


def text(case):
    return 'tree=%s order=%s mode=%s scale=%s frames=%s' % (case['tree'], case['order'], case['mode'], case['scale'],
                                                            [f['lik'] + f['extra'] for f in case['frames']])


def graph(beer, order, shuffle_with=None):
    n = len(order)
    z = torch.zeros(n, dtype=torch.float64)
    return beer.graph.CompiledGraph(z, z.clone(), torch.zeros(n, n, dtype=torch.float64), list(order))


def tables(ctx, beer, case, k):
    lik, sets, resp, routed, dens = mats(case)
    order = [p - 1 for p in case['order']]
    index = []
    ms = build(beer, case['tree'], LeafTable, index)
    data = lik.log()
    if case['mode'] == 'resps':
        dyn = beer.DynamicallyOrderedModelSet(ms)
        if len(dyn) != size(case['tree']):
            ctx.violation('size', '%s: len %d' % (text(case), len(dyn)), case)
        stats = dyn.sufficient_statistics(data)
        llh = dyn.expected_log_likelihood(stats, order)
        if not near(llh, sets[:, order].log()):
            ctx.violation('position-likelihood', '%s: %s expected %s' % (text(case), llh.exp().tolist(), sets[:, order].tolist()), case)
        judge_acc(ctx, case, index, dyn.accumulate(stats, resp), dens, 'routing')
        # same model, natural order, asked again: nothing is remembered from before
        full = dyn.expected_log_likelihood(stats)
        if not near(full, sets.log()):
            ctx.violation('position-likelihood', '%s natural order: %s' % (text(case), full.exp().tolist()), case)
        judge_acc(ctx, case, index, dyn.accumulate(stats, routed), dens, 'routing-natural-order')
        # order and responsibilities permuted together: same statistics
        perm = list(range(len(order)))
        ctx.rng.shuffle(perm)
        dyn.expected_log_likelihood(stats, [order[i] for i in perm])
        judge_acc(ctx, case, index, dyn.accumulate(stats, resp[:, perm]), dens, 'routing-permuted')
        return
    scale = case['scale'][0] / case['scale'][1]
    cg = graph(beer, order)
    kw = {} if (scale == 1. and k % 2) else dict(scale=scale)
    if k % 3:
        hmm = beer.HMM.create(cg, ms)
    else:
        hmm = beer.HMM.create(graph(beer, list(range(size(case['tree'])))), ms)
        kw['inference_graph'] = cg
    stats = hmm.sufficient_statistics(data)
    if case['mode'] == 'path':
        path = [f['extra'][0] - 1 for f in case['frames']]
        kw['state_path'] = torch.LongTensor(path) if k % 2 else path
    if case['mode'] == 'viterbi':
        kw['viterbi'] = True
    if k % 5 < 2:        # whatever was evaluated before
        hmm.expected_log_likelihood(stats, scale=3., inference_graph=graph(beer, [0]))
    obj = hmm.expected_log_likelihood(stats, **kw)
    want = (resp * sets[:, order].log()).sum(dim=-1)
    if not near(obj, want):
        ctx.violation('hmm-objective', '%s: objective of the frames %s, expected %s' % (text(case), obj.tolist(), want.tolist()), case)
    acc = hmm.accumulate(stats)
    judge_acc(ctx, case, index, acc, dens, 'hmm-' + case['mode'])
    # accumulating twice does not compound the scale
    judge_acc(ctx, case, index, hmm.accumulate(stats), dens, 'hmm-%s-again' % case['mode'])
    # an evaluation in another mode leaves nothing behind
    hmm.expected_log_likelihood(stats, scale=3., inference_graph=graph(beer, [0]))
    hmm.expected_log_likelihood(stats, **kw)
    judge_acc(ctx, case, index, hmm.accumulate(stats), dens, 'hmm-%s-history' % case['mode'])


def real(ctx, beer, case, k):
    'Real densities in place of tables: frames are features, statistics are linear in the responsibilities.'
    lik, sets, resp, routed, dens = mats(case)
    order = [p - 1 for p in case['order']]
    kind = ('diagonal', 'isotropic', 'full', 'categorical')[k % 4]
    if kind == 'full' and not hasattr(torch, 'cholesky'):
        pass

    def leaf(off, n):
        g = torch.Generator().manual_seed(off * 7 + n + k)
        if kind == 'categorical':
            return beer.CategoricalSet.create(torch.rand(n, 4, generator=g, dtype=torch.float64) + .1)
        mean = torch.rand(2, generator=g, dtype=torch.float64)
        return beer.NormalSet.create(mean, torch.ones(2, dtype=torch.float64), n, cov_type=kind, noise_std=1.)
    index = []
    ms = build(beer, case['tree'], leaf, index)
    g = torch.Generator().manual_seed(k)
    nf = len(lik)
    if kind == 'categorical':
        data = torch.eye(4, dtype=torch.float64)[torch.randint(4, (nf,), generator=g)]
    else:
        data = torch.randn(nf, 2, generator=g, dtype=torch.float64)
    dyn = beer.DynamicallyOrderedModelSet(ms)
    stats = dyn.sufficient_statistics(data)
    llh = dyn.expected_log_likelihood(stats, order)
    acc = dyn.accumulate(stats, resp)
    for tree, m in index:
        p = m.mean_field_factorization()[0][0]
        exp = dens[:, tree['off']:tree['off'] + tree['n']].t() @ m.sufficient_statistics(data)
        if p not in acc or not near(acc[p], exp):
            ctx.violation('real-routing-' + kind, '%s: leaf %s' % (text(case), tree), case)
    # likelihood of each position: that of its density
    own = {}
    for tree, m in index:
        l = m.expected_log_likelihood(m.sufficient_statistics(data))
        for i in range(tree['n']):
            own[tree['off'] + i] = l[:, i]
    flat = flatten(case['tree'])
    exp = torch.stack([own[flat[p]] for p in order], dim=-1)
    if not near(llh, exp):
        ctx.violation('real-likelihood-' + kind, text(case), case)
    ctx.count('real_density_trees')


def flatten(t):
    if t['k'] == 'leaf':
        return [t['off'] + i for i in range(t['n'])]
    if t['k'] == 'joint':
        return [d for p in t['parts'] for d in flatten(p)]
    return flatten(t['sub']) * t['r']


def hmm_posteriors(ctx, beer):
    'Posterior training on graphs with real dynamics (HmmInference), densities shared.'
    r = ctx.tlc('HmmInference', dict(S=3, T=4, InitVals=[0, 1, 2], FinalVals=[0, 1], TransVals=[0, 1, 3], EmisVals=[1, 2],
                                     PrintOut=True), invariants=['RowsSumToOne', 'Emit'],
                simulate=ctx.pick(800, 6000), depth=14, timeout=600)
    seen = set()
    for k, case in enumerate(r.prints):
        key = str((case['init'], case['final'], case['trans'], case['frames']))
        if key in seen:
            continue
        seen.add(key)
        n, t = 3, len(case['frames'])
        with ctx.guard('hmm-dynamics-raise', case):
            # sharing: states with the same emission row may share a density
            cols = list(zip(*case['frames']))
            order, uniq = [], []
            for c in cols:
                if c not in uniq:
                    uniq.append(c)
                order.append(uniq.index(c))
            scale = (1., 2., .5)[k % 3]
            data = torch.tensor(uniq, dtype=torch.float64).t().log() / scale
            ms = TableSet(len(uniq))
            cg = hmmcases.compiled(beer, case, torch.float64, mapping=order)
            hmm = beer.HMM.create(cg, ms)
            obj = hmm.expected_log_likelihood(data, scale=scale)
            acc = hmm.accumulate(data)[ms.param]
            g = torch.tensor(case['post']['gamma'], dtype=torch.float64) / case['post']['z'] * scale
            want = (g * data[:, order]).sum(dim=-1)
            if not near(obj, want):
                ctx.violation('hmm-objective', 'order %s scale %s case %s: objective of the frames %s, expected %s' % (order, scale, case, obj.tolist(), want.tolist()), case)
            d = torch.zeros(t, len(uniq), dtype=torch.float64)
            for j in range(n):
                d[:, order[j]] += g[:, j]
            exp = torch.stack([d.sum(dim=0), (d * torch.arange(1, t + 1, dtype=torch.float64)[:, None]).sum(dim=0)])
            if not near(acc, exp):
                ctx.violation('hmm-dynamics', 'order %s scale %s case %s: %s expected %s' % (order, scale, case, acc.tolist(), exp.tolist()), case)
            if abs(float(acc[0].sum()) - t * scale) > 1e-6:
                ctx.violation('mass', 'mass %s for %d frames, scale %s' % (float(acc[0].sum()), t, scale), case)
        ctx.validated += 1
        ctx.count('hmm_dynamics_models')
        if ctx.enough():
            return


def run(ctx):
    import beer
    k = 0
    for modes, num, mix in ((('resps',), 700, True), (('path', 'viterbi', 'posterior'), 1200, True), (('resps',), 400, False)):
        for case in cases(ctx, modes, ctx.pick(num, num * 8), mix):
            with ctx.guard('raises', case):
                tables(ctx, beer, case, k)
            if case['mode'] == 'resps' and not has(case['tree'], 'mix'):
                with ctx.guard('real-raises', case):
                    real(ctx, beer, case, k)
            k += 1
            ctx.validated += 1
            ctx.count('trees_' + case['mode'])
            if len(str(case['tree'])) > 200:
                ctx.sample(case['tree'])
            if ctx.enough():
                return
    hmm_posteriors(ctx, beer)
