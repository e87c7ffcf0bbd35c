'''C13: one mean-field group per optimisation step, in cyclic order, also across
saved and restored optimiser states and reloaded models.'''
import pickle
import torch
from checks.c11 import behaviours, replay_all
from stub import Composite


def real_model(beer, k):
    'Three groups made of real models; returns (model, data).'
    f = torch.float64
    mean, cov = torch.zeros(2, dtype=f), torch.ones(2, dtype=f)
    ct = ('diagonal', 'isotropic', 'full')[k % 3]
    mix = beer.Mixture.create(beer.NormalSet.create(mean, cov, 3, cov_type=ct), prior_strength=2.)
    ms = beer.MixtureSet(beer.CategoricalSet.create(torch.ones(2, 2, dtype=f) / 2), beer.NormalSet.create(mean, cov, 4, cov_type=ct))
    cg = beer.graph.CompiledGraph(torch.zeros(2, dtype=f), torch.zeros(2, dtype=f), torch.full((2, 2), -.69, dtype=f), [0, 1])
    hmm = beer.HMM.create(cg, ms)
    normal = beer.Normal.create(mean, cov, cov_type=ct)
    parts = [mix, hmm, normal]
    return Composite(parts[:1 + k % 3] if k % 4 else parts)


def schedule(ctx, beer, case, k):
    'The same histories on composites of real models: compare which parameters move.'
    model = real_model(beer, k)
    model = model if len(list(model.mean_field_factorization())) == max(case['groups']) else None
    if model is None:
        return False
    g = torch.Generator().manual_seed(k)
    optim = beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), 1. / case['lr0'])
    optim.init_step()
    for _ in range(max(case['groups']) * ctx.rng.choice([0, 0, 1, 5, 23, 80])):     # theorem IdleRound
        optim.step()
    saved = None

    def snap():
        return [[p.posterior.natural_parameters().clone() for p in grp] for grp in model.mean_field_factorization()], \
               [[p.prior.natural_parameters().clone() for p in grp] for grp in model.mean_field_factorization()]
    for h in case['hist']:
        op = h['op']
        if op == 'eval':
            data = torch.randn(4, 2, generator=g, dtype=torch.float64)
            elbo = beer.evidence_lower_bound(model, data, datasize=h['ds'])
            elbo.backward()
        elif op == 'init':
            optim.init_step()
            for p in model.bayesian_parameters():
                if bool((p.stats != 0).any()):
                    return ctx.violation('real-init', 'statistics left after init_step', case)
        elif op == 'rate':
            optim.lrate = h['lr'][0] / h['lr'][1]
        elif op == 'savestate':
            saved = pickle.dumps(optim.state_dict())
        elif op == 'restore':
            if h['reload']:
                model = pickle.loads(pickle.dumps(model))
            optim = beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), .3)
            optim.load_state_dict(pickle.loads(saved))
        elif op == 'step':
            lr, upd = optim.lrate, optim.update_count
            post0, prior0 = snap()
            stats = [[p.stats.clone() for p in grp] for grp in model.mean_field_factorization()]
            optim.step()
            post1, prior1 = snap()
            for gi in range(len(post0)):
                for pi in range(len(post0[gi])):
                    exp = post0[gi][pi]
                    if gi + 1 == h['turn']:
                        exp = (1 - lr) * exp + lr * (prior0[gi][pi] + stats[gi][pi])
                    if not torch.allclose(post1[gi][pi], exp, rtol=1e-6, atol=1e-6):
                        return ctx.violation('real-schedule', 'ops %s: turn of group %d, group %d parameter %d is %s, expected %s' % (
                            [x['op'] for x in case['hist']], h['turn'], gi + 1, pi, post1[gi][pi].tolist(), exp.tolist()), case)
                    if not torch.equal(prior0[gi][pi], prior1[gi][pi]):
                        return ctx.violation('real-prior', 'group %d' % gi, case)
            ctx.count('real_steps')
    return True


def run(ctx):
    import beer
    n = ctx.pick(1800, 15000)
    kw = dict(MaxFrames=1, Sizes=[6], MaxSteps=8, MaxOps=14)
    a = behaviours(ctx, n, MaxP=4, MaxG=3, **kw).prints
    replay_all(ctx, beer, a, False, 'schedule')
    replay_all(ctx, beer, behaviours(ctx, n // 2, MaxP=2, MaxG=2, WithSave=False, WithGrad=True, **kw).prints, True, 'schedule-grad')
    many = [c for c in behaviours(ctx, n // 3, **dict(kw, MaxP=7, MaxG=7, MaxSteps=12, MaxOps=18)).prints if len(c['groups']) > 4]
    ctx.coverage['many_groups'] = len(many)
    replay_all(ctx, beer, many, False, 'schedule')
    if ctx.enough():
        return
    for k, case in enumerate(a):
        if sum(h['op'] == 'step' for h in case['hist']) < 2:
            continue
        with ctx.guard('real-raises', case):
            if schedule(ctx, beer, case, k):
                ctx.validated += 1
        if ctx.enough() or ctx.coverage.get('real_steps', 0) > ctx.pick(4000, 40000):
            return
