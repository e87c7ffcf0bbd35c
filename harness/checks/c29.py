'''C29: models created by the real constructors and commands from the
configurations of spec/Create.tla.'''
import os
import numpy as np
import torch
import yaml
from conj import fl, near, same_params, same_value, tensor_data
from loopcases import dump, load
from vlib import cli

NORMALS = ('full', 'diagonal', 'isotropic')


def given(case, dtype):
    'The arguments of the user: tensors.'
    c = case['cfg']
    t = lambda v: torch.tensor(v, dtype=dtype)
    out = {}
    if 'mean' in c:
        out['mean'] = t(fl(c['mean']))
    if 'cov' in c:
        v = fl(c['cov']['v'])
        out['cov'] = t(v[0]) if c['cov']['form'] != 'matrix' else t(v)
    if 'w' in c:
        out['w'] = t(fl(c['w']))
    return out, fl(c['s'])


def create(beer, case, args, s, single, dtype):
    'model, parameter'
    kind, n, size = case['cfg']['kind'], case['d'], case['rows']
    if kind in NORMALS:
        if single:
            m = beer.Normal.create(args['mean'], args['cov'], s, kind)
            return m, m.mean_precision
        m = beer.NormalSet.create(args['mean'], args['cov'], size, s, 0., cov_type=kind)
        return m, m.means_precisions
    if kind == 'categorical':
        m = beer.Categorical.create(args['w'], s) if single else beer.CategoricalSet.create(args['w'].repeat(size, 1), s)
        return m, m.weights
    if kind == 'gamma':
        m = beer.models.gamma.Gamma.create(args['mean'], 3., s)
        return m, m.rate
    if kind == 'sticks':
        m = beer.SBCategorical.create(size, s)
        return m, m.stickbreaking
    ns = beer.NormalSet.create(torch.zeros(2, dtype=dtype), torch.ones(2, dtype=dtype), n if single else n * size, cov_type='diagonal')
    if single:
        m = beer.Mixture.create(ns, prior_strength=s)
        return m.categorical, m.categorical.weights
    m = beer.MixtureSet.create(size, ns, s)
    return m.categoricalset, m.categoricalset.weights


def text(case):
    return '%s, strength %s, size %d' % ({k: v for k, v in case['cfg'].items() if k not in ('s', 'size')}, case['cfg']['s'], case['rows'])


def replay(ctx, beer, case, single, dtype, tol):
    fam, kind = case['fam'], case['cfg']['kind']
    args, s = given(case, dtype)
    if s == int(s) and ctx.rng.random() < .3:
        s = int(s)
    copies = {k: v.clone() for k, v in args.items()}
    model, p = create(beer, case, args, s, single, dtype)
    n = 1 if single else case['rows']
    rows = [case['prior']] * n
    if len(p) != n and not (fam == 'gam' or single):
        return ctx.violation('size', '%s: %d densities' % (text(case), len(p)), case)
    for what, dist in (('prior', p.prior), ('posterior', p.posterior)):
        diff = same_params(fam, dist, rows, dtype, single, tol)
        if not diff and fam != 'gam' and len(dist) != n:
            diff = 'counts %d densities' % len(dist)
        if diff:
            return ctx.violation('created-' + kind, '%s (%s, %s): %s %s' % (text(case), 'one' if single else 'set', dtype, what, diff), case)
        for x in dist.params.state_dict().values():
            if kind != 'sticks' and x.dtype != dtype:
                return ctx.violation('type', '%s: %s created as %s, expected %s' % (text(case), what, x.dtype, dtype), case)
    if kind == 'sticks':
        return None
    diff = same_value(fam, model, p, [case['value']] * n, single, tol)
    if diff:
        return ctx.violation('expected-' + kind, '%s: %s' % (text(case), diff), case)
    kl = p.kl_div_posterior_prior()
    if not bool((kl.abs() < 1e-3).all()):
        return ctx.violation('posterior', '%s: divergence %s to the prior' % (text(case), kl), case)
    for h in case['hist']:
        p.zero_stats()
        total = None
        for b in h['batches']:
            b = [o for o in b if o['row'] == 1 or not single]
            if not b:
                continue
            data = tensor_data(fam, case['d'], [o['x'] for o in b], dtype)
            if single:
                acc = model.accumulate(model.sufficient_statistics(data))[p]
            else:
                resps = torch.zeros(len(b), n, dtype=dtype)
                for i, o in enumerate(b):
                    resps[i, o['row'] - 1] = 1
                acc = model.accumulate(model.sufficient_statistics(data), resps)[p]
            total = acc if total is None else total + acc
        if total is not None:
            p.store_stats(total)
        p.natural_grad_update(1.)
        posts, values = h['post'][:n], h['value'][:n]
        diff = same_params(fam, p.posterior, posts, dtype, single, 10 * tol) or same_value(fam, model, p, values, single, 10 * tol)
        if diff:
            return ctx.violation('trained-' + kind, '%s after %s: %s' % (text(case), h['batches'], diff), case)
    for k, v in args.items():
        if not torch.equal(v, copies[k]):
            return ctx.violation('arguments', '%s: the %s given by the user became %s' % (text(case), k, v), case)
    return None


def noise(ctx, beer, case, dtype, tol):
    'Displacement of the initial means.'
    args, s = given(case, dtype)
    kind, size, std = case['cfg']['kind'], 3000, ctx.rng.choice([.1, .5, 2.])
    torch.manual_seed(ctx.rng.randrange(1 << 30))
    m = beer.NormalSet.create(args['mean'], args['cov'], size, s, std, cov_type=kind)
    p = m.means_precisions
    diff = same_params(case['fam'], p.prior, [case['prior']] * size, dtype, False, tol)
    if diff:
        return ctx.violation('noise-prior', '%s: prior %s' % (text(case), diff), case)
    got, prec = p.value()
    want = torch.tensor([fl(case['value'][1])] * size, dtype=torch.float64)
    if near('precision', prec, want.tolist(), tol):
        return ctx.violation('noise-precision', '%s: %s' % (text(case), near('precision', prec, want.tolist(), tol)), case)
    v = fl(case['cfg']['cov']['v'])
    d = case['d']
    var = [v[0][0]] * d if case['cfg']['cov']['form'] == 'scalar' else v[0] if case['cfg']['cov']['form'] == 'diag' else [v[i][i] for i in range(d)]
    z = (got.double() - args['mean'].double()) / (torch.tensor(var, dtype=torch.float64).sqrt() * std)
    off = max(float(z.mean(dim=0).abs().max()) * size ** .5, float((z.var(dim=0) - 1).abs().max()) * (size / 2) ** .5)
    if d == 2:
        off = max(off, abs(float((z[:, 0] * z[:, 1]).mean())) * size ** .5)
    if len(z.unique()) < .9 * size or off > 7:
        return ctx.violation('noise-spread', '%s, noise %s: displacements have mean %s, variance %s (%.1f standard errors)' % (
            text(case), std, z.mean(dim=0), z.var(dim=0), off), case)
    ctx.count('displaced')


def sticks(ctx, beer, case):
    s, size = fl(case['cfg']['s']), case['rows']
    h = ctx.rng.choice([.5, 1., 4.])
    m = beer.SBCategoricalHyperPrior.create(size, s, h)
    c = m.concentration
    for dist in (c.prior, c.posterior):
        if near('shape', dist.params.shape, [h], 1e-5) or near('rate', dist.params.rate, [h / s], 1e-5):
            ctx.violation('hyper-prior', 'strength %s, hyper-prior %s: %s' % (s, h, dist.params.state_dict()), case)
    for dist in (m.stickbreaking.prior, m.stickbreaking.posterior):
        diff = same_params('dir', dist, [case['prior']] * size, torch.float32, False, 1e-5)
        if diff:
            ctx.violation('hyper-sticks', '%s: %s' % (text(case), diff), case)


def command(ctx, beer, groups, d, k):
    '''hmm mkphones from a data set: densities of every group; then the weights of the
    loops made from it.'''
    rng = ctx.rng
    tmp = os.path.join(ctx.scratch, 'cmd%d' % k)
    os.makedirs(tmp)
    p = lambda n: os.path.join(tmp, n)
    case0 = groups[0][0]
    mean, cov = fl(case0['cfg']['mean']), fl(case0['cfg']['cov']['v'])[0]
    cov = cov * d if case0['cfg']['cov']['form'] == 'scalar' else cov
    conf, units = [], []
    for i, (case, ncomp, nstates, nunits, s) in enumerate(groups):
        arcs = [dict(start_id=0, end_id=1, trans_prob=1.)]
        for j in range(1, nstates + 1):
            arcs += [dict(start_id=j, end_id=j, trans_prob=.5), dict(start_id=j, end_id=j + 1, trans_prob=.5)]
        conf.append(dict(group_name='g%d' % i, n_normal_per_state=ncomp, prior_strength=s, noise_std=0., cov_type=case0['cfg']['kind'],
                         shared_cov=False, topology=arcs))
        units += [('u%d_%d' % (i, j), 'g%d' % i) for j in range(nunits)]
    rng.shuffle(units)
    with open(p('conf'), 'w') as f:
        yaml.safe_dump(conf, f)
    with open(p('units'), 'w') as f:
        f.write(''.join('%s %s\n' % u for u in units))
    plain = rng.random() < .3
    if plain:
        src, mean, cov = ['-D', d], [0.] * d, [1.] * d
    else:
        sd = np.sqrt(np.array(cov))
        np.savez(p('fea.npz'), a=np.array([np.array(mean) - sd, np.array(mean) + sd]), b=np.array([np.array(mean) + sd, np.array(mean) - sd]))
        with open(p('uttids'), 'w') as f:
            f.write('a\nb\n')
        cli('dataset', 'create', [tmp, p('fea.npz'), p('ds')])
        src = ['-d', p('ds')]
    cli('hmm', 'mkphones', src + [p('conf'), p('units'), p('hmms')])
    hmms, emissions = load(p('hmms'))
    if len(emissions.modelsets) != len(groups):
        return ctx.violation('mkphones', '%d sets of densities for %d groups' % (len(emissions.modelsets), len(groups)))
    ct = case0['cfg']['kind']
    for (case, ncomp, nstates, nunits, s), m in zip(groups, emissions.modelsets):
        name = 'mkphones: %d units of %d states, %d components, %s, strength %s: ' % (nunits, nstates, ncomp, ct, s)
        if len(m) != nstates * nunits or len(m.modelset) != nstates * nunits * ncomp:
            return ctx.violation('mkphones', name + '%d densities, %d components' % (len(m), len(m.modelset)))
        w = m.categoricalset.weights
        for dist in (w.prior, w.posterior):
            diff = near('weights', dist.params.concentrations, [[s / ncomp] * ncomp] * len(m), 1e-5)
            if diff:
                return ctx.violation('mkphones', name + diff)
        q = m.modelset.means_precisions
        for dist in (q.prior, q.posterior):
            v, pr = dist.expected_value()
            prec = [1 / x for x in cov]
            want = np.diag(prec) if ct == 'full' else [min(prec)] if ct == 'isotropic' else prec
            diff = near('means', v, [mean] * len(v), 2e-4) or near('precisions', pr, np.tile(np.array(want), (len(v),) + (1,) * np.ndim(want)).tolist(), 2e-3) \
                or near('strength', dist.params.scale, [s] * len(v), 1e-4)
            if diff:
                return ctx.violation('mkphones', name + diff)
    # the weights of the loop
    n = len(units)
    cli('hmm', 'mkphoneloopgraph', [p('units'), p('lg')])
    cli('hmm', 'mkdecodegraph', [p('lg'), p('hmms'), p('dg')])
    conc = rng.choice([None, .5, 3.])
    c = conc or n / 2
    for kind in ('dirichlet', 'dirichlet_process', 'gamma_dirichlet_process', 'dirichlet2'):
        cli('hmm', 'mkphoneloop', (['-c', conc] if conc else []) + ['--weights-prior', kind, p('dg'), p('hmms'), p('mdl')])
        loop = load(p('mdl'))
        if kind == 'dirichlet2':
            diff = near('weights', loop.categoricalset.weights.prior.params.concentrations, [[c / n] * n] * n, 1e-5)
        elif kind == 'dirichlet':
            diff = near('weights', loop.categorical.weights.prior.params.concentrations, [c / n] * n, 1e-5)
        else:
            diff = near('weights', loop.categorical.stickbreaking.prior.params.concentrations, [[1, c]] * n, 1e-5)
            if not diff and kind.startswith('gamma'):
                diff = near('concentration', loop.categorical.concentration.value(), [c], 1e-5)
        if diff:
            return ctx.violation('mkphoneloop', '%s, %d units, concentration %s: %s' % (kind, n, conc, diff))
    # the constructors without weights are uniform
    g, st, en = load(p('dg'))
    s = rng.choice([.5, 2., 7.])
    for cls in (beer.PhoneLoop, beer.BigramPhoneLoop):
        loop = cls.create(g.compile(), st, en, emissions, prior_strength=s)
        got = (loop.categorical if cls is beer.PhoneLoop else loop.categoricalset).weights.prior.params.concentrations
        diff = near('weights', got, [s / n] * n if cls is beer.PhoneLoop else [[s / n] * n] * n, 1e-5)
        if diff:
            return ctx.violation('loop', '%s with %d units, strength %s: %s' % (cls.__name__, n, s, diff))
    ctx.count('commands')


def refused(ctx, beer):
    from beer.models.normal import UnknownCovarianceType
    mean, cov = torch.zeros(2), torch.ones(2)
    for ct in ('Full', 'diag', '', 'spherical'):
        for what, f in (('Normal', lambda: beer.Normal.create(mean, cov, 1., ct)), ('NormalSet', lambda: beer.NormalSet.create(mean, cov, 2, 1., 0., cov_type=ct))):
            try:
                f()
            except UnknownCovarianceType:
                ctx.count('refused')
                continue
            except Exception as x:
                ctx.violation('unknown-type', '%s.create with covariance type %r raises %r' % (what, ct, x))
                continue
            ctx.violation('unknown-type', '%s.create accepts the covariance type %r' % (what, ct))


def run(ctx):
    import beer
    inv = ['AsAsked', 'WorthStrength', 'WorthCount', 'RoundTrip', 'IsTextbook', 'Proper', 'CEmit']
    t = lambda kinds, **kw: ctx.tlc('Create', dict(dict(Families=['"dir"'], Kinds=['"%s"' % k for k in kinds], MaxD=2, MaxRows=1, MaxSteps=0, MaxBatches=0,
                                                        MaxData=0, Rates=[1], PrintOut=True), **{k: v for k, v in kw.items() if k[0].isupper()}),
                                    init='CInit', next_='CNext', invariants=inv, timeout=800, **{k: v for k, v in kw.items() if not k[0].isupper()})
    every = t(NORMALS + ('categorical', 'mixture', 'sticks', 'gamma')).prints
    wide = t(('categorical', 'mixture'), MaxD=4, MaxRows=2).prints + t(('sticks',), MaxRows=4).prints
    trained = []
    for kinds in ('full', 'diagonal', 'isotropic', 'categorical', 'mixture', 'gamma'):
        trained += t((kinds,), MaxRows=2, MaxSteps=2, MaxBatches=2, MaxData=3, simulate=ctx.pick(40, 900), depth=30).prints
    few = every if not ctx.quick else ctx.rng.sample(every, 700)
    cases = few + wide + trained
    ctx.coverage['configurations'] = dict(all=len(every), wide=len(wide), trained=len(trained))
    for i, case in enumerate(cases):
        kind = case['cfg']['kind']
        ctx.sample(case) if i % 200 == 199 else None
        with ctx.guard('raises-' + kind, case):
            for dtype, tol in ((torch.float64, 1e-8), (torch.float32, 2e-4)):
                if kind == 'sticks' and dtype == torch.float64:
                    continue                                     # created in the default type
                for single in ((True,) if kind == 'gamma' else (False,) if kind == 'sticks' else (True, False)):
                    replay(ctx, beer, case, single, dtype, tol)
            if kind == 'sticks':
                sticks(ctx, beer, case)
            if kind in NORMALS and (i % 13 == 5):
                noise(ctx, beer, case, torch.float64 if i % 2 else torch.float32, 2e-4)
        ctx.validated += 1
        if ctx.enough():
            return
    pool = [c for c in every if c['cfg']['kind'] in NORMALS and c['cfg']['cov']['form'] != 'matrix']
    for k in range(ctx.pick(25, 300)):
        case = ctx.rng.choice(pool)
        groups = [(case, ctx.rng.randint(1, 3), ctx.rng.randint(1, 3), ctx.rng.randint(1, 3), ctx.rng.choice([.5, 1., 2., 5.])) for _ in range(ctx.rng.randint(1, 3))]
        with ctx.guard('command-raises', case):
            command(ctx, beer, groups, case['d'], k)
        if ctx.enough():
            return
    refused(ctx, beer)
