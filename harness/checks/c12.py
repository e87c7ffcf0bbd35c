'''C12: conjugate updates of the real parameters against the exact rational
posteriors of spec/Conjugate.tla.'''
import torch
from conj import make_dist, make_model, read, same_params, same_value, tensor_data, weigh


def ctext(case):
    return '%s prior=%s data counting %s times steps=%s' % (case['fam'], case['prior'], case.get('w', 1), [(h['rate'], h['batches']) for h in case['hist']])


def weighed(case, w):
    'The case with prior and data counted w times.'
    f = lambda rows: [weigh(case['fam'], s, w) for s in rows]
    return dict(case, prior=f(case['prior']), hist=[dict(h, post=f(h['post'])) for h in case['hist']])


def single(ctx, beer, case, row, dtype, tol, merged, w=1):
    fam, d = case['fam'], case['d']
    model, p = make_model(beer, fam, [case['prior'][row]], dtype, True)
    optim = beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True))
    before = p.prior.natural_parameters().clone()
    for h in case['hist']:
        r = h['rate'][0] / h['rate'][1]
        bs = [[o['x'] for o in b if o['row'] == row + 1] for b in h['batches']]
        bs = [b for b in bs if b]
        if merged and bs:
            allx = [x for b in bs for x in b]
            ctx.rng.shuffle(allx)
            bs = [allx]
        optim.lrate = r
        optim.init_step()
        if bs:
            n = sum(map(len, bs))
            elbo = beer.evidence_lower_bound(datasize=n * w)
            for b in bs:
                elbo = elbo + beer.evidence_lower_bound(model, tensor_data(fam, d, b, dtype), datasize=n * w)
            elbo.backward()
        optim.step()
        diff = same_params(fam, p.posterior, [h['post'][row]], dtype, True, tol) or same_value(fam, model, p, [h['value'][row]], True, tol)
        if diff:
            return ctx.violation('update-' + fam, '%s row %d (single, merged=%s, %s): %s' % (ctext(case), row, merged, dtype, diff), case)
        diff = same_params(fam, p.prior, [case['prior'][row]], dtype, True, tol)
        if diff or not torch.equal(before, p.prior.natural_parameters()):
            return ctx.violation('prior-changed-' + fam, '%s: %s' % (ctext(case), diff), case)
        trip(ctx, fam, case, p.posterior, tol)
    ctx.count('single_' + fam)


def trip(ctx, fam, case, dist, tol):
    new = type(dist)(dist.params.from_natural_parameters(dist.natural_parameters()))
    for a, b in zip(read(fam, dist), read(fam, new)):
        if a.numel() != b.numel() or not bool(((a.reshape(-1) - b.reshape(-1)).abs() <= tol * (1 + a.reshape(-1).abs())).all()):
            ctx.violation('round-trip-' + fam, '%s: %s became %s' % (ctext(case), a.tolist(), b.tolist()), case)


def as_set(ctx, beer, case, dtype, tol, merged, w=1):
    fam, d, n = case['fam'], case['d'], case['rows']
    model, p = make_model(beer, fam, case['prior'], dtype, False)
    before = p.prior.natural_parameters().clone()
    for h in case['hist']:
        p.zero_stats()
        total = None
        bs = h['batches']
        if merged:
            bs = [[o for b in bs for o in b]]
            ctx.rng.shuffle(bs[0])
        for b in bs:
            # theorem Parts: an observation presented m times with responsibility 1 / m counts once
            m = ctx.rng.choice([1, 1, 1, 4, 4096])
            data = tensor_data(fam, d, [o['x'] for o in b for _ in range(m)], dtype)
            resps = torch.zeros(len(b) * m, n, dtype=dtype)
            for i, o in enumerate(b):
                resps[i * m:(i + 1) * m, o['row'] - 1] = 1. / m
            acc = model.accumulate(model.sufficient_statistics(data), resps)
            if set(acc) != {p}:
                return ctx.violation('set-parameters', ctext(case), case)
            total = acc[p] if total is None else total + acc[p]
        p.store_stats(total * w)
        p.natural_grad_update(h['rate'][0] / h['rate'][1])
        diff = same_params(fam, p.posterior, h['post'], dtype, False, tol) or same_value(fam, model, p, h['value'], False, tol)
        if diff:
            return ctx.violation('update-set-' + fam, '%s (set, %s): %s' % (ctext(case), dtype, diff), case)
        if not torch.equal(before, p.prior.natural_parameters()):
            return ctx.violation('prior-changed-' + fam, ctext(case), case)
        trip(ctx, fam, case, p.posterior, tol)
    ctx.count('set_' + fam)


def created(ctx, beer):
    '''Models made by the constructors users call: the update is still
    prior + statistics, and the prior does not follow the posterior.'''
    g = torch.Generator().manual_seed(ctx.seed)
    for dtype in (torch.float64, torch.float32):
        mean, cov = torch.tensor([.5, -1.], dtype=dtype), torch.tensor([1., 2.], dtype=dtype)
        for ct in ('full', 'diagonal', 'isotropic'):
            for strength in (1., 3.):
                for setsize in (0, 3):
                    if setsize:
                        m = beer.NormalSet.create(mean, cov, setsize, strength, .5, cov_type=ct)
                        p = m.means_precisions
                    else:
                        m = beer.Normal.create(mean, cov, strength, ct)
                        p = m.mean_precision
                    yield_check(ctx, '%s/%s/%d' % (ct, dtype, setsize), m, p, setsize,
                                torch.randn(7, 2, generator=g, dtype=dtype), dtype, g)
        for setsize in (0, 2):
            w = torch.tensor([[.2, .5, .3]] * max(1, setsize), dtype=dtype)
            m = beer.CategoricalSet.create(w, 2.) if setsize else beer.Categorical.create(w[0], 2.)
            data = torch.eye(3, dtype=dtype)[torch.randint(3, (7,), generator=g)]
            yield_check(ctx, 'categorical/%s/%d' % (dtype, setsize), m, m.weights, setsize, data, dtype, g)
        m = beer.models.gamma.Gamma.create(torch.tensor([1., 2.], dtype=dtype), 2., 3.)
        yield_check(ctx, 'gamma/%s' % dtype, m, m.rate, 0, torch.rand(7, 2, generator=g, dtype=dtype) + .1, dtype, g)


def yield_check(ctx, name, m, p, setsize, data, dtype, g):
    with ctx.guard('created-raises', name):
        prior = p.prior.natural_parameters().clone()
        stats = m.sufficient_statistics(data)
        acc = m.accumulate(stats, torch.rand(len(data), setsize, generator=g, dtype=dtype)) if setsize else m.accumulate(stats)
        p.store_stats(acc[p])
        s = acc[p].clone()
        for r in (1., .25):
            old = p.posterior.natural_parameters().clone()
            p.natural_grad_update(r)
            new = p.posterior.natural_parameters()
            exp = (1 - r) * old + r * (prior + s)
            tol = 1e-8 if dtype == torch.float64 else 2e-3
            if not bool(((new - exp).abs() <= tol * (1 + exp.abs())).all()):
                ctx.violation('created-update', '%s rate %s: %s expected %s' % (name, r, new.tolist(), exp.tolist()), name)
            if not torch.equal(prior, p.prior.natural_parameters()):
                ctx.violation('created-prior', '%s: prior changed' % name, name)
        ctx.count('created_models')


def run(ctx):
    import beer
    seen = set()
    for k, fams in enumerate(('"dir"', '"ng"', '"ing"', '"nw"', '"gam"')):
        r = ctx.tlc('Conjugate', dict(Families='{%s}' % fams, MaxD=2, MaxRows=2, MaxSteps=3, MaxBatches=3, MaxData=4,
                                      Rates=[1, 2], PrintOut=True),
                    invariants=['RoundTrip', 'IsTextbook', 'Proper', 'AverageIsRight', 'Weighted', 'Parts', 'Emit'], simulate=ctx.pick(280, 3000), depth=60, timeout=800)
        for i, case in enumerate(r.prints):
            key = ctext(case)
            if key in seen:
                continue
            seen.add(key)
            with ctx.guard('raises-' + case['fam'], case):
                for dtype, tol in ((torch.float64, 1e-7), (torch.float32, 3e-3)):
                    if dtype == torch.float32 and i % 4:
                        continue
                    w = (1, 2 ** 20, 1, 2 ** 12)[ctx.rng.randrange(4)]
                    wcase = dict(weighed(case, w), w=w)
                    for row in range(case['rows']):
                        single(ctx, beer, wcase, row, dtype, tol, bool(i % 2), w)
                    if case['fam'] != 'gam':
                        as_set(ctx, beer, wcase, dtype, tol, bool(i % 3 == 0), w)
                    ctx.count('weighed_%d' % w)
            ctx.validated += 1
            if len(case['hist']) > 2:
                ctx.sample(case)
            if ctx.enough():
                return
    created(ctx, beer)
