'''C19: histories of spec/Sticks.tla replayed into the stick-breaking models.'''
import copy
import pickle
import torch
from vlib import rat
from special import psi, sb_mean, sb_elog

TOL = 2e-4


def ab(post, gam):
    return [(float(rat(p['a'])), float(rat(p['b']['c'])) + sum(float(rat(g)) * v for g, v in zip(p['b']['g'], gam))) for p in post]


def update(beer, model, counts, r, frames):
    'counts through the public training path: accumulate, store, optimise.'
    param = model.mean_field_factorization()[0][0]
    optim = beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), r)
    optim.init_step()
    rows = torch.tensor(counts, dtype=torch.float32)
    stats = model.sufficient_statistics(rows if frames else rows[None])
    acc = model.accumulate_from_jointresps(stats) if frames == 'set' else model.accumulate(stats)
    for p, s in acc.items():
        p.store_stats(s)
    optim.step()
    return param


def times(sticks, c, g0):
    'theorem Linear: c times the counts put c times as much on the prior (1, gamma0).'
    return [(1 + c * (a - 1), g0 + c * (b - g0)) for a, b in sticks]


def state(model):
    k = model.mean.shape[-1]
    c = [p for p in model.bayesian_parameters()][0].posterior.params.concentrations.detach().double()
    return c, model.mean.detach().double(), model.expected_log_likelihood(torch.eye(k)).detach().double()


def matches(model, sticks, order, tol=TOL):
    c, mean, ell = state(model)
    order = [o - 1 for o in order]
    for name, got, exp in (('sticks', c, [list(x) for x in sticks]), ('weights', mean, sb_mean(sticks, order)),
                           ('log weights', ell, sb_elog(sticks, order))):
        exp = torch.tensor(exp, dtype=torch.float64)
        if got.shape != exp.shape or not torch.allclose(got, exp, rtol=tol, atol=tol):
            return '%s %s, expected %s' % (name, got.tolist(), exp.tolist())
    if not (bool((mean > 0).all()) and float(mean.sum()) <= 1 + 1e-5):
        return 'weights %s' % mean.tolist()
    return None


def split(counts, rng):
    'the same counts spread over several frames'
    rows = [[0.] * len(counts) for _ in range(3)]
    for i, n in enumerate(counts):
        for _ in range(n):
            rows[rng.randrange(3)][i] += 1.
    return rows


def one(ctx, beer, case):
    k, kind, g0 = case['K'], case['kind'], float(case['gamma0'])
    hist = case['hist']
    hs = ctx.rng.choice([1., 2., .5])
    if kind == 'hp':
        model = beer.SBCategoricalHyperPrior.create(k, prior_strength=g0, hyper_prior_strength=hs)
    else:
        model = beer.SBCategorical.create(k, prior_strength=g0)
    gam = [g0] if kind == 'hp' else []
    strength = ctx.rng.choice([1., 3., 5.])
    st = beer.SBCategoricalSet.create(case['setsize'], model, strength) if kind == 'set' else None
    what = lambda: '%s K=%d gamma0=%s counts times %d steps %s' % (kind, k, g0, c, [(h['op'], h.get('n', h.get('m')), h.get('r')) for h in hist[:t + 1]])
    c = ctx.rng.choice([1, 1, 64, 1024]) if kind != 'hp' else 1
    tol = TOL if c <= 64 else .05          # natural parameters are single-precision sums
    t = 0
    if st is not None:
        sprior = st.stickbreaking.prior.params.concentrations.detach().double().clone()
        spost = st.stickbreaking.posterior.params.concentrations.detach().double().clone()
    for t, h in enumerate(hist):
        if h['op'] == 'update':
            update(beer, model, [[c * x for x in row] for row in split(h['n'], ctx.rng)], float(rat(h['r'])), True)
            msgs = []
            for alt in h['alts']:
                sticks = times(ab(alt['post'], gam), c, g0)
                msg = matches(model, sticks, alt['order'], tol)
                if msg is None:
                    break
                msgs.append(msg)
            else:
                return ctx.violation('update', '%s: %s' % (what(), msgs[0]), case)
            if kind == 'hp':
                e = sum(psi(b) - psi(a + b) for a, b in sticks)
                new = (hs + k) / (hs / g0 - e)
                got = float(model.concentration.value())
                if abs(got - new) > 1e-3 * new:
                    return ctx.violation('hyper-prior', '%s: concentration %s, expected %s' % (what(), got, new), case)
                gam.append(new)
                pb = model.stickbreaking.prior.params.concentrations[:, 1]
                if not bool(((pb - new).abs() < 1e-3 * new).all()):
                    return ctx.violation('hyper-prior', '%s: prior of the sticks %s, expected %s' % (what(), pb.tolist(), new), case)
            ctx.count('updates')
        elif h['op'] == 'updateset':
            r = float(rat(h['r']))
            rows = c * torch.tensor(h['m'], dtype=torch.float32)
            param = update(beer, st, [rows.tolist(), (rows * 0).tolist()] if ctx.rng.random() < .5 else [rows.tolist()], r, 'set')
            inc = c * torch.tensor(h['inc'], dtype=torch.float64).reshape(-1, 2)
            spost = (1 - r) * spost + r * (sprior + inc)
            order = [o - 1 for o in h['rank']]
            sticks = spost.reshape(case['setsize'], k, 2).tolist()
            ell = st.expected_log_likelihood(torch.eye(k)).t()
            for name, got, exp in (('sticks', st.stickbreaking.posterior.params.concentrations, spost.tolist()),
                                   ('weights', st.mean, [sb_mean(s, order) for s in sticks]),
                                   ('log weights', ell, [sb_elog(s, order) for s in sticks])):
                exp = torch.tensor(exp, dtype=torch.float64)
                if got.shape != exp.shape or not torch.allclose(got.detach().double(), exp, rtol=tol, atol=tol):
                    return ctx.violation('tied-set', '%s: %s %s, expected %s' % (what(), name, got.tolist(), exp.tolist()), case)
            if not bool((st.mean > 0).all()) or float(st.mean.sum(dim=-1).max()) > 1 + 1e-5:
                return ctx.violation('tied-set', '%s: weights %s' % (what(), st.mean.tolist()), case)
            ctx.count('set_updates')
        else:
            old, oldset = model, st
            both = (model, st)
            model, st = pickle.loads(pickle.dumps(both)) if h['op'] == 'pickle' else copy.deepcopy(both)
            for x, y in zip(state(old), state(model)):
                if not torch.equal(x, y):
                    return ctx.violation('persist', '%s: %s changed to %s' % (what(), x.tolist(), y.tolist()), case)
            # the original goes its own way
            before = [x.clone() for x in state(model)]
            update(beer, old, [list(range(1, k + 1))[::-1 if t % 2 else 1]], 1., True)
            for x, y in zip(before, state(model)):
                if not torch.equal(x, y):
                    return ctx.violation('persist', '%s: the copy follows its original' % what(), case)
            ctx.count('copies')


def run(ctx):
    import beer
    inv = ['Conserves', 'TieBreak', 'Linear', 'Emit']
    base = dict(Gammas=[1, 2], Rates=[4], SetSize=1)
    kinds = lambda *k: '{' + ','.join('"%s"' % x for x in k) + '}'
    runs = [ctx.tlc('Sticks', dict(K=3, Kinds=kinds('sb', 'hp'), MaxCount=ctx.pick(2, 3), MaxOps=2, **base), init='SInit',
                    invariants=inv, workers=8, timeout=800),
            ctx.tlc('Sticks', dict(K=2, Kinds=kinds('sb', 'hp', 'set'), MaxCount=2, MaxOps=ctx.pick(2, 3), Gammas=[1, 3], Rates=[4, 1], SetSize=1), init='SInit',
                    invariants=inv, workers=8, timeout=800)]
    for k, kk, mx in ((4, 'hp', 9), (4, 'sb', 9), (3, 'set', 12), (4, 'set', 15), (5, 'sb', 14), (1, 'hp', 4), (1, 'sb', 3), (5, 'hp', 20)):
        runs.append(ctx.tlc('Sticks', dict(K=k, Kinds=kinds(kk), MaxCount=mx, MaxOps=6, Gammas=[1, 2, 5], Rates=[4, 2, 1], SetSize=max(k - 1, 1)),
                            init='SInit', next_='SimNext', invariants=inv, simulate=ctx.pick(90 if k < 5 else 40, 1200 if k < 5 else 400), depth=90, timeout=800))
    n = 0
    for r in runs:
        seen = set()
        for case in r.prints:
            if str(case) in seen:
                continue
            seen.add(str(case))
            with ctx.guard('raises', case):
                one(ctx, beer, case)
            ctx.validated += 1
            n += 1
            if ctx.enough() or ctx.elapsed() > ctx.pick(200, 840):
                return
        if r.prints:
            ctx.sample(dict(kind=r.prints[-1]['kind'], hist=[(h['op'], h.get('n', h.get('m')), h.get('r')) for h in r.prints[-1]['hist']]), 5)
