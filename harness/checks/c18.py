'''C18: responsibilities, posteriors, objective and statistics of Mixture and
MixtureSet against the exact log joints of spec/Mixture.tla, and mixtures
nested in other sets against spec/Routing.tla.'''
import torch
from checks.c05 import judge_acc, near, tables, text
from routecases import cases, has
from stub import TableSet
from vlib import rat

F = torch.float64


def param(beer, prior):
    from beer.dists import Dirichlet
    from beer.models.parameters import ConjugateBayesianParameter
    c = torch.tensor(prior, dtype=F)
    return ConjugateBayesianParameter(Dirichlet.from_std_parameters(c), Dirichlet.from_std_parameters(c.clone()))


def ctext(case):
    return 'prior=%s history=%s' % (case['prior'], [h.get('labels') or (h['llh'], h['outer']) for h in case['hist']])


def replay(ctx, beer, case):
    m, k = case['m'], case['k']
    trains = [h for h in case['hist'] if h['op'] == 'train']
    frames = [h for h in case['hist'] if h['op'] == 'frame']
    llh = torch.tensor([f['llh'] for f in frames], dtype=F)
    outer = torch.tensor([f['outer'] for f in frames], dtype=F)
    joint = torch.tensor([[[float(rat(x)) for x in r] for r in f['joint']] for f in frames], dtype=F)
    lnorm = torch.logsumexp(joint, dim=-1)
    resps = (joint - lnorm[:, :, None]).exp()
    logw = torch.tensor([[float(rat(x)) for x in r] for r in case['logw']], dtype=F)

    def bad(clause, got, exp):
        ctx.violation(clause, '%s: got %s expected %s' % (ctext(case), got.tolist(), exp.tolist()), case)

    # ---- set of mixtures
    for variant in ('set', 'single'):
        if variant == 'single' and m > 1:
            continue
        comp = TableSet(m * k)
        if variant == 'set':
            cat = beer.CategoricalSet(param(beer, case['prior']))
            model = beer.MixtureSet(cat, comp)
        else:
            cat = beer.Categorical(param(beer, case['prior'][0]))
            model = beer.Mixture(cat, comp)
        for h in trains:
            onehot = torch.zeros(len(h['labels']), k, dtype=F)
            om = torch.zeros(len(h['labels']), m, dtype=F)
            for i, (a, b) in enumerate(h['labels']):
                onehot[i, b - 1] = 1
                om[i, a - 1] = 1
            if variant == 'set':
                acc = cat.accumulate(cat.sufficient_statistics(onehot), om)
            else:
                # supervised training of the mixture itself
                data = torch.zeros(len(onehot), k, dtype=F)
                lab = torch.LongTensor([b - 1 for _, b in h['labels']])
                stats = model.sufficient_statistics(data)
                model.expected_log_likelihood(stats, labels=lab)
                model.accumulate(stats)
                r = comp.seen
                if not near(r, onehot):
                    bad('labelled-responsibilities', r, onehot)
                acc = model.accumulate(stats)
                exp = torch.stack([onehot.sum(0), (onehot * torch.arange(1, len(onehot) + 1, dtype=F)[:, None]).sum(0)])
                if not near(acc[comp.param], exp):
                    bad('labelled-component-statistics', acc[comp.param], exp)
            cat.weights.store_stats(acc[cat.weights])
            cat.weights.natural_grad_update(1.)
            c = cat.weights.posterior.params.concentrations
            e = torch.tensor(h['post'], dtype=F)
            e = e if variant == 'set' else e[0]
            if not near(c, e):
                bad('trained-weights', c, e)
        stats = model.sufficient_statistics(llh)
        out = model.expected_log_likelihood(stats)
        exp_out = lnorm if variant == 'set' else lnorm[:, 0]
        if not near(out, exp_out):
            bad('objective', out, exp_out)
        model.accumulate(stats, *([torch.ones(len(frames), m, dtype=F)] if variant == 'set' else []))
        r = comp.seen.reshape(len(frames), m, k) if variant == 'set' else comp.seen
        exp_r = resps if variant == 'set' else resps[:, 0]
        if not near(r, exp_r):
            bad('responsibilities', r, exp_r)
        if not near(r.sum(-1), torch.ones_like(exp_r[..., 0])):
            bad('sum-to-one', r.sum(-1), torch.ones_like(exp_r[..., 0]))
        if variant == 'single':
            p = model.posteriors(llh)
            if not near(p, exp_r):
                bad('posteriors', p, exp_r)
            before = llh.clone()
            acc = model.accumulate(stats)
            if not torch.equal(before, llh):
                bad('data-modified', llh, before)
            joint_r = exp_r[:, None, :]
        else:
            acc = model.accumulate(stats, outer)
            joint_r = resps * outer[:, :, None]
        flat = joint_r.reshape(len(frames), -1)
        exp = torch.stack([flat.sum(0), (flat * torch.arange(1, len(flat) + 1, dtype=F)[:, None]).sum(0)])
        if not near(acc[comp.param], exp):
            bad('component-statistics', acc[comp.param], exp)
        w = joint_r.sum(0)
        full = torch.cat([w[:, :-1], w.sum(-1, keepdim=True)], dim=-1)
        full = full if variant == 'set' else full[0]
        if tuple(acc[cat.weights].shape) != tuple(full.shape) or not near(acc[cat.weights], full):
            bad('weight-statistics', acc[cat.weights], full)
        # after the update the concentrations are prior + expected counts: mass is conserved
        cat.weights.store_stats(acc[cat.weights])
        cat.weights.natural_grad_update(1.)
        c = cat.weights.posterior.params.concentrations
        e = torch.tensor(case['prior'], dtype=F) + w
        e = e if variant == 'set' else e[0]
        if not near(c, e):
            bad('updated-weights', c, e)
        ctx.count('mixtures_' + variant)


def run(ctx):
    import beer
    n = ctx.pick(1500, 12000)
    for mm, kk, num in ((1, 4, n), (3, 3, n)):
        r = ctx.tlc('Mixture', dict(MaxM=mm, MaxK=kk, PriorVals=[1, 2], MaxRounds=3, MaxFrames=3, LlhVals=[0, 3, 4, 5, 7, 34],
                                    PrintOut=True), invariants=['CountsConserved', 'WeightsOrdered', 'LevelShifts', 'Emit'],
                    simulate=num, depth=60, timeout=800)
        for case in r.prints:
            with ctx.guard('raises', case):
                replay(ctx, beer, case)
            ctx.validated += 1
            if len(case['hist']) > 3:
                ctx.sample(case)
            if ctx.enough():
                return
    for k, case in enumerate(cases(ctx, ('resps',), ctx.pick(900, 8000))):
        if has(case['tree'], 'mix'):
            with ctx.guard('nested-raises', case):
                tables(ctx, beer, case, k)
            ctx.validated += 1
            ctx.count('nested_mixtures')
        if ctx.enough():
            return
