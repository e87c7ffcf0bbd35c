'''C14: objective against the exact evidence of spec/Evidence.tla, monotone
training, and divergences against the textbook formulas.'''
import math
import numpy as np
import torch
from conj import fl, make_dist, make_model, make_param, tensor_data
from special import lgamma, psi
from vlib import rat


# -------------------------------------------------- evidence and divergences
def mlg(a, d):
    return d * (d - 1) / 4. * math.log(math.pi) + sum(lgamma(a - i / 2.) for i in range(d))


def logdet(m):
    return float(np.linalg.slogdet(np.array(m))[1])


def row_evidence(fam, d, p, q, data):
    'log evidence of the data that turn the prior p into the posterior q'
    g = lambda s, k: fl(s[k])
    n = len(data)
    if fam == 'gam':        # known shape 3: density r^3 x^2 exp(-r x) / 2
        return sum(lgamma(a1) - lgamma(a0) + a0 * math.log(b0) - a1 * math.log(b1) for a0, a1, b0, b1 in zip(g(p, 'a'), g(q, 'a'), g(p, 'b'), g(q, 'b'))) \
            + sum(2 * math.log(v) - math.log(2) for x in data for v in x)
    if fam == 'dir':
        a, b = g(p, 'c'), g(q, 'c')
        return lgamma(sum(a)) - lgamma(sum(b)) + sum(lgamma(y) - lgamma(x) for x, y in zip(a, b))
    k0, k1 = g(p, 'k'), g(q, 'k')
    base = .5 * d * (math.log(k0) - math.log(k1))
    if fam == 'nw':
        v0, v1 = g(p, 'nu'), g(q, 'nu')
        return base - n * d / 2. * math.log(math.pi) + mlg(v1 / 2, d) - mlg(v0 / 2, d) \
            + v0 / 2 * logdet(g(p, 'wi')) - v1 / 2 * logdet(g(q, 'wi'))
    a0, a1 = g(p, 'a'), g(q, 'a')
    b0, b1 = g(p, 'b'), g(q, 'b')
    if fam == 'ing':
        b0, b1 = [b0], [b1]
    return base - n * d / 2. * math.log(2 * math.pi) + sum(
        lgamma(a1) - lgamma(a0) + a0 * math.log(x) - a1 * math.log(y) for x, y in zip(b0, b1))


def gamma_kl(a1, b1, a2, b2):
    return (a1 - a2) * psi(a1) - lgamma(a1) + lgamma(a2) + a2 * (math.log(b1) - math.log(b2)) + a1 * (b2 - b1) / b1


def kl(fam, d, p, q):
    'KL(p || q), textbook'
    g = lambda s, k: fl(s[k])
    if fam == 'dir':
        a, b = g(p, 'c'), g(q, 'c')
        return lgamma(sum(a)) - lgamma(sum(b)) + sum(lgamma(y) - lgamma(x) + (x - y) * (psi(x) - psi(sum(a))) for x, y in zip(a, b))
    if fam == 'gam':
        return sum(gamma_kl(*z) for z in zip(g(p, 'a'), g(p, 'b'), g(q, 'a'), g(q, 'b')))
    k1, k2 = g(p, 'k'), g(q, 'k')
    m = np.array(g(p, 'm')) - np.array(g(q, 'm'))
    out = .5 * d * (k2 / k1 - 1 - math.log(k2 / k1))
    if fam == 'nw':
        v1, v2 = g(p, 'nu'), g(q, 'nu')
        w1, w2i = np.linalg.inv(np.array(g(p, 'wi'))), np.array(g(q, 'wi'))
        out += .5 * k2 * v1 * float(m @ w1 @ m)
        mpsi = sum(psi(v1 / 2 - i / 2.) for i in range(d))
        return out + v2 / 2 * (logdet(g(p, 'wi')) - logdet(g(q, 'wi'))) + v1 / 2 * (float(np.trace(w2i @ w1)) - d) \
            + mlg(v2 / 2, d) - mlg(v1 / 2, d) + (v1 - v2) / 2 * mpsi
    a1, a2, b1, b2 = g(p, 'a'), g(q, 'a'), g(p, 'b'), g(q, 'b')
    if fam == 'ing':
        return out + .5 * k2 * float(m @ m) * a1 / b1 + gamma_kl(a1, b1, a2, b2)
    return out + sum(.5 * k2 * x * x * a1 / y + gamma_kl(a1, y, a2, z) for x, y, z in zip(m, b1, b2))


def log_evidence(case, rows=None):
    terms = []
    for t in case['table']:
        parts = [[x for x, z in zip(case['data'], t['z']) if z == r + 1] for r in range(case['rows'])]
        terms.append(math.log(rat(t['w'])) + sum(row_evidence(case['fam'], case['d'], p, q, x) for p, q, x in zip(case['prior'], t['post'], parts)))
    m = max(terms)
    return m + math.log(sum(math.exp(t - m) for t in terms))


# ------------------------------------------------------------------ replays
def near(a, b, tol):
    return abs(a - b) <= tol * (1 + abs(b))


def text(case):
    return '%s prior %s data %s initial posterior %s' % (case['fam'], case['prior'], case['data'], case['init'])


def divergences(ctx, beer, case, dtype, tol):
    fam, d = case['fam'], case['d']
    pdfs = case['prior'] + case['init'] + [t['post'][0] for t in case.get('table', [])[:2]]
    for p in pdfs:
        for q in pdfs[:4]:
            got = float(beer.dists.kl_div(make_dist(fam, [p], dtype, True), make_dist(fam, [q], dtype, True)).sum())
            exp = kl(fam, d, p, q)
            scale = tol * (1 if dtype == torch.float64 else 5)
            if not near(got, exp, scale) or got < -scale or (p == q and abs(got) > scale):
                return ctx.violation('divergence', '%s: KL(%s || %s) = %s, expected %s' % (fam, p, q, got, exp), case)
    both = make_param(fam, case['prior'], dtype, False, case['init'])
    got = both.kl_div_posterior_prior()
    exp = [kl(fam, d, p, q) for p, q in zip(case['init'], case['prior'])]
    if not near(float(got.sum()), sum(exp), 5 * tol):
        return ctx.violation('divergence', '%s set: KL %s, expected %s' % (text(case), got.tolist(), exp), case)
    ctx.count('divergences', len(pdfs) * 4)


def train(ctx, beer, case, model, groups, x, logev, tol, what):
    optim = beer.VBConjugateOptimizer(groups, 1.)
    last = None
    for step in range(1 + 3 * len(groups)):
        optim.init_step()
        elbo = beer.evidence_lower_bound(model, x)
        v = float(elbo)
        if not v <= logev + tol * (1 + abs(logev)):
            return ctx.violation('bound', '%s %s: objective %s after %d steps, log evidence %s' % (what, text(case), v, step, logev), case)
        if last is not None and not v >= last - tol * (1 + abs(last)):
            return ctx.violation('monotone', '%s %s: objective %s -> %s at step %d' % (what, text(case), last, v, step), case)
        last = v
        elbo.backward()
        optim.step()
        ctx.count('training_steps')
    return last


def single(ctx, beer, case, dtype, tol):
    model, p = make_model(beer, case['fam'], case['prior'], dtype, True, case['init'])
    x = tensor_data(case['fam'], case['d'], case['data'], dtype)
    logev = log_evidence(case)
    if case['evidence'][0] and not near(logev, math.log(rat(case['evidence'])), 1e-9):
        raise AssertionError('evidence of the specification')
    v = train(ctx, beer, case, model, list(model.conjugate_bayesian_parameters(keepgroups=True)), x, logev, tol, 'single')
    if v is not None and not near(v, logev, tol):
        return ctx.violation('equality', '%s: objective %s after the update, log evidence %s' % (text(case), v, logev), case)
    ctx.count('single_' + case['fam'])


def mixture(ctx, beer, case, dtype, tol):
    k = case['rows']
    comps, p = make_model(beer, case['fam'], case['prior'], dtype, False, case['init'])
    w = make_param('dir', [dict(c=[[1, 1]] * k)], dtype, True, [dict(c=[[1 + (i * 2) % 3, 1] for i in range(k)])])
    model = beer.Mixture(beer.Categorical(w), comps)
    x = tensor_data(case['fam'], case['d'], case['data'], dtype)
    logev = log_evidence(case)
    if case['evidence'][0] and not near(logev, math.log(rat(case['evidence'])), 1e-9):
        raise AssertionError('evidence of the specification')
    groups = ctx.rng.choice([None, [[w], [p]], [[p], [w]]])
    groups = groups or list(model.conjugate_bayesian_parameters(keepgroups=True))
    train(ctx, beer, case, model, groups, x, logev, tol, 'mixture')
    ctx.count('mixture_' + case['fam'])


def run(ctx):
    import beer
    inv = ['ZSum', 'SumToOne', 'Exchangeable', 'EvEmit']
    for fam, rows, nd, num in (('dir', 3, 4, 130), ('ng', 2, 4, 130), ('ing', 2, 4, 110), ('nw', 2, 4, 110), ('ng', 3, 3, 50), ('ing', 3, 3, 30), ('nw', 3, 3, 30), ('gam', 2, 3, 40)):
        c = dict(Families='{"%s"}' % fam, MaxD=2, MaxRows=rows, MaxSteps=1, MaxBatches=1, MaxData=nd, Rates=[1], PrintOut=False)
        if fam == 'gam':
            r = ctx.tlc('Conjugate', dict(c, PrintOut=True), invariants=['Emit'], simulate=ctx.pick(num, num * 10), depth=20, timeout=800)
            for case in r.prints:
                case['init'] = case['hist'][-1]['post']
                with ctx.guard('raises', case):
                    divergences(ctx, beer, case, torch.float64, 1e-7)
                ctx.validated += 1
            r = ctx.tlc('Evidence', dict(c, MaxRows=1, MaxData=4), invariants=inv, simulate=ctx.pick(60, 600), depth=20, timeout=800)
            for i, case in enumerate(r.prints):
                with ctx.guard('raises', case):
                    single(ctx, beer, case, *((torch.float32, 2e-4) if i % 4 == 0 else (torch.float64, 1e-7)))
                ctx.validated += 1
            continue
        r = ctx.tlc('Evidence', c, invariants=inv, simulate=ctx.pick(num, num * 10), depth=20, timeout=800)
        for i, case in enumerate(r.prints):
            for dtype, tol in ((torch.float64, 1e-7), (torch.float32, 2e-4)):
                if dtype == torch.float32 and i % 5:
                    continue
                with ctx.guard('raises', case):
                    divergences(ctx, beer, case, dtype, tol)
                    if case['rows'] == 1:
                        single(ctx, beer, case, dtype, tol)
                    mixture(ctx, beer, case, dtype, tol)
            ctx.validated += 1
            if case['rows'] > 1 and i % 20 == 0:
                ctx.sample({k: case[k] for k in ('fam', 'prior', 'data', 'evidence')})
            if ctx.enough():
                return
