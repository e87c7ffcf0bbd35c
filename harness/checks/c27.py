'''C27: the variational auto-encoder against spec/Vae.tla.'''
import contextlib, copy, math
import torch
from vlib import rat

LOG2, LOG2PI = math.log(2), math.log(2 * math.pi)
INV = ('DecGradient', 'EncGradient', 'Expectation', 'Emit')
F64 = torch.float64


def t64(v):
    return torch.tensor(v, dtype=F64)


class Net(torch.nn.Module):
    'A user network: its input, then the log variances of the specification (1e-5 is the floor of the library).'
    def __init__(self, dim_in, dim_out, exps):
        super().__init__()
        self.dim_in, self.dim_out, self.exps, self.seen = dim_in, dim_out, exps, []

    def forward(self, x):
        self.seen.append(x.detach().clone())
        return torch.cat([x, torch.log(4. ** self.exps(x.detach()) - 1e-5)], dim=-1)


class Noise:
    'Stands for the random generator: every sample gets the noise of the behaviour.'
    def __init__(self, noise):
        self.noise, self.drawn = t64(noise), 0

    def give(self, *shape):
        shape = tuple(shape[0]) if len(shape) == 1 and not isinstance(shape[0], int) else tuple(shape)
        T, S, D = self.noise.shape
        self.drawn += 1
        if shape == (S, T, D) and S != T:
            return self.noise.permute(1, 0, 2).clone()
        if math.prod(shape) == T * S * D:
            return self.noise.clone().reshape(shape)
        raise AssertionError('noise of shape %s for %s frames, %s samples, %s dimensions' % (shape, T, S, D))


@contextlib.contextmanager
def prescribed(noise):
    old = torch.randn, torch.randn_like, torch.normal
    torch.randn = lambda *s, **k: noise.give(*(s or (k['size'],)))
    torch.randn_like = lambda x, **k: noise.give(*x.shape)
    def normal(mean, std, size=None, **k):
        return mean + std * (noise.give(*size) if size is not None else noise.give(*torch.broadcast_tensors(torch.as_tensor(mean), torch.as_tensor(std))[0].shape))
    torch.normal = normal
    try:
        yield
    finally:
        torch.randn, torch.randn_like, torch.normal = old


def priors(ctx, beer, d):
    rng = ctx.rng
    cov = rng.choice(['full', 'diagonal', 'isotropic'])
    mean, var = t64([rng.uniform(-1, 1) for _ in range(d)]), t64([rng.uniform(.5, 2) for _ in range(d)])
    kind = rng.choice(['normal', 'mixture', 'hmm', 'hmm-mixtures'])
    if kind == 'normal':
        return kind, beer.Normal.create(mean, var, prior_strength=rng.choice([1., 3.]), cov_type=cov).double()
    n = rng.randint(2, 3)
    k = 2 if kind == 'hmm-mixtures' else 1
    ns = beer.NormalSet.create(mean, var, size=n * k, prior_strength=2., noise_std=1., cov_type=cov)
    if k > 1:
        ns = beer.MixtureSet.create(n, ns, prior_strength=2.)
    if kind == 'mixture':
        return kind, beer.Mixture.create(ns).double()
    g = beer.graph.Graph()
    s, e = g.add_state(), g.add_state()
    g.start_state, g.end_state = s, e
    st = [g.add_state(pdf_id=i) for i in range(n)]
    for i in st:
        g.add_arc(s, i); g.add_arc(i, e)
        for j in st:
            g.add_arc(i, j, weight=rng.choice([.5, 1., 2.]))
    g.normalize()
    return kind, beer.HMM.create(g.compile(), ns).double()


def build(beer, case, prior):
    dx, dz, net = case['dx'], case['dz'], case['net']
    B, b = t64(net['B']), t64(net['b'])
    enc = Net(dx, dx + dz, lambda x: (x @ B.t() + b).clamp(-case['maxe'], case['maxe']))
    c = t64(net['c'])
    dec = Net(dz, dz + dx, lambda z: c + net['e'] * (z[:, :1] > 1. / 64).to(F64))
    vae = beer.VAE(prior, enc, dec).double()
    with torch.no_grad():
        for layer, w, bias in ((vae.enc_mean_layer, torch.cat([t64(net['A']), torch.zeros(dz, dz, dtype=F64)], 1), t64(net['a'])),
                               (vae.enc_var_layer, torch.cat([torch.zeros(dz, dx, dtype=F64), torch.eye(dz, dtype=F64)], 1), torch.zeros(dz, dtype=F64)),
                               (vae.dec_mean_layer, torch.cat([t64(net['W']), torch.zeros(dx, dx, dtype=F64)], 1), t64(net['w'])),
                               (vae.dec_var_layer, torch.cat([torch.zeros(dx, dz, dtype=F64), torch.eye(dx, dtype=F64)], 1), torch.zeros(dx, dtype=F64))):
            layer.weight.copy_(w); layer.bias.copy_(bias)
    return vae


def near(a, b, tol=1e-6):
    a, b = torch.as_tensor(a).detach().double().reshape(-1), torch.as_tensor(b).detach().double().reshape(-1)
    return a.shape == b.shape and bool(((a - b).abs() <= tol * (1 + b.abs())).all())


def reference(case, model, ts, lw, kw):
    'Objective of the frames ts, statistics of the prior and gradient of the encoder bias through the prior.'
    fr = [case['frames'][t] for t in ts]
    z = t64([[[float(rat(v)) for v in s] for s in f['z']] for f in fr])
    def value(shift):
        stats = model.sufficient_statistics((z + shift).reshape(-1, case['dz']))
        stats = stats.reshape(len(ts), case['s'], -1).mean(dim=1)
        return model.expected_log_likelihood(stats).reshape(-1).detach(), stats
    def evidence(shift):
        'What the gradient follows: HMM priors report an expectation under fixed state posteriors, whose gradient is that of the evidence.'
        out, stats = value(shift)
        if hasattr(model, 'graph'):
            return float(model.graph.posteriors(model.modelset.original_modelset.expected_log_likelihood(stats)[:, list(model.graph.pdf_id_mapping)].detach())[1])
        return float(out.sum())
    # the prior term as a function of the encoded means: central differences
    h, grad = 1e-4, []
    for i in range(case['dz']):
        e = torch.zeros(case['dz'], dtype=F64)
        e[i] = h
        grad.append((evidence(e) - evidence(-e)) / (2 * h))
    grad = t64(grad)
    prior, stats = value(torch.zeros(case['dz'], dtype=F64))
    acc = {id(p): v.detach().clone() for p, v in model.accumulate(stats).items()}
    model.clear_cache()
    llh = t64([-.5 * (float(rat(f['dist'])) + 2 * LOG2 * float(rat(f['dexp'])) + case['dx'] * LOG2PI) for f in fr])
    ent = t64([.5 * (float(rat(f['nsq'])) + 2 * LOG2 * f['nexp'] + case['dz'] * LOG2PI) for f in fr])
    obj = lw * llh + kw * (prior + ent)
    ga = lw * sum(t64([float(rat(v)) for v in f['ga']]) for f in fr) + kw * grad
    gw = lw * sum(t64([float(rat(v)) for v in f['gw']]) for f in fr)
    return obj, acc, ga, gw, z


def one(ctx, beer, case):
    rng = ctx.rng
    kind, prior = priors(ctx, beer, case['dz'])
    params = list(prior.bayesian_parameters())
    copy_ = copy.deepcopy(prior)
    twin = list(copy_.bayesian_parameters())
    vae = build(beer, case, prior)
    T, S = len(case['xs']), case['s']
    X = t64(case['xs'])
    lw, kw = rng.choice([(1., 1.), (1., 1.), (1., 0.), (.5, 2.), (0., 1.)])
    kwargs = dict(nsamples=S)
    if (lw, kw) != (1., 1.) or rng.random() < .3:
        kwargs.update(llh_weight=lw, kl_weight=kw)
    if S == 1 and rng.random() < .5:
        kwargs.pop('nsamples')
    text = 'prior %s, %d frames, %d samples, weights %s %s, net %s, frames %s, noise %s' % (kind, T, S, lw, kw, case['net'], case['xs'], case['noise'])
    bounds = sorted(set([0] + case['cuts'] + [T]))
    batches = [list(range(a, b)) for a, b in zip(bounds, bounds[1:])]
    size = rng.choice([T, 3 * T])
    kl = float(copy_.kl_div_posterior_prior().sum())
    total, want, sums, ga, gw = beer.evidence_lower_bound(datasize=size), 0., {}, 0., 0.
    for ts in batches:
        obj, acc, dga, dgw, z = reference(case, copy_, ts, lw, kw)
        noise = Noise([case['noise'][t] for t in ts])
        with prescribed(noise):
            stats = vae.sufficient_statistics(X[ts])
            vae.decoder.seen.clear()
            frames = vae.expected_log_likelihood(stats, **kwargs)
        if noise.drawn:
            got = torch.cat(vae.decoder.seen)
            key = lambda m: sorted(tuple(round(float(v), 6) for v in r) for r in m.reshape(-1, case['dz']))
            if key(got) != key(z):
                return ctx.violation('samples', '%s: decoded %s, expected %s' % (text, key(got), key(z)), case)
            if not near(frames, obj):
                return ctx.violation('frame-objective', '%s: %s, expected %s' % (text, frames.tolist(), obj.tolist()), case)
        else:
            ctx.count('noise_not_prescribed')
            return
        vae.clear_cache()
        with prescribed(noise):
            elbo = beer.evidence_lower_bound(vae, X[ts], datasize=size, **kwargs)
        scale = size / len(ts)
        want += scale * float(obj.sum()) - kl
        ga, gw = ga + scale * dga, gw + scale * dgw
        for p, v in acc.items():
            sums[p] = sums.get(p, 0) + v
        total = total + elbo
    if not near(total.value, [want]):
        return ctx.violation('objective', '%s, batches %s, data size %d: %s, expected %s' % (text, batches, size, float(total.value.detach()), want), case)
    lr = 1. / 16
    cj = beer.VBConjugateOptimizer(vae.mean_field_factorization(), 1.)
    sgd = torch.optim.SGD([p for p in vae.parameters() if p.requires_grad], lr=lr)
    both = beer.VBOptimizer(cj, sgd)
    both.init_step()
    total.backward()
    for layer, g, name in ((vae.enc_mean_layer, ga, 'encoder'), (vae.dec_mean_layer, gw, 'decoder')):
        if not near(layer.bias.grad, -g, 1e-5):
            return ctx.violation('gradient', '%s: gradient of the bias of the %s %s, expected %s' % (text, name, layer.bias.grad.tolist(), (-g).tolist()), case)
    # the prior is trained on the encoded frames
    before = [layer.bias.detach().clone() for layer in (vae.enc_mean_layer, vae.dec_mean_layer)]
    group = vae.mean_field_factorization()[0]
    first = {id(p) for p in group}
    both.step()
    for p, q in zip(params, twin):
        if id(p) in first and id(q) in sums:
            q.store_stats(sums[id(q)] * size / T)
            q.natural_grad_update(1.)
        if not near(p.posterior.natural_parameters(), q.posterior.natural_parameters(), 1e-6):
            return ctx.violation('prior-update', '%s: posterior %s, expected %s' % (text, p.posterior.natural_parameters().tolist(), q.posterior.natural_parameters().tolist()), case)
    for layer, b0, g in zip((vae.enc_mean_layer, vae.dec_mean_layer), before, (ga, gw)):
        if not near(layer.bias, b0 + lr * g, 1e-5):
            return ctx.violation('network-update', text, case)
    ctx.count('prior_' + kind)


def spread(ctx, beer, case):
    'Without prescribed noise: moments of the decoded samples.'
    kind, prior = priors(ctx, beer, case['dz'])
    vae = build(beer, case, prior)
    n, x = 4000, t64(case['xs'][:1])
    vae.decoder.seen.clear()
    with torch.no_grad():
        vae.expected_log_likelihood(x, nsamples=n)
    z = torch.cat(vae.decoder.seen)
    net = case['net']
    m = x @ t64(net['A']).t() + t64(net['a'])
    s = 2. ** (x @ t64(net['B']).t() + t64(net['b'])).clamp(-case['maxe'], case['maxe'])
    u = (z - m) / s
    if tuple(z.shape) != (n, case['dz']) or bool((u.mean(dim=0).abs() > 8 / math.sqrt(n)).any()) or bool((u.t() @ u / n - torch.eye(case['dz'], dtype=F64)).abs().max() > 12 / math.sqrt(n)):
        return ctx.violation('samples', '%s: whitened samples have mean %s, second moments %s' % (net, u.mean(dim=0).tolist(), (u.t() @ u / n).tolist()), case)
    ctx.count('spread')


def run(ctx):
    import beer
    base = dict(MaxDX=2, MaxDZ=2, MaxS=4, MaxT=5, Coef=2, MaxE=2)
    runs = [ctx.tlc('Vae', base, invariants=INV, simulate=ctx.pick(500, 4000), depth=16)]
    runs.append(ctx.tlc('Vae', dict(base, MaxDX=3, MaxT=8, MaxS=3, Coef=1, MaxE=1), invariants=INV, simulate=ctx.pick(120, 1000), depth=18))
    for r in runs:
        for n, case in enumerate(r.prints):
            with ctx.guard('raises', case):
                one(ctx, beer, case)
            if n % 20 == 0:
                with ctx.guard('raises', case):
                    spread(ctx, beer, case)
            ctx.validated += 1
            if case['s'] > 1 and case['cuts']:
                ctx.sample(case)
            if ctx.enough():
                return
