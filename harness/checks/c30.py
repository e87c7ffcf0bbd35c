'''C30: flow layers and binary output layers of beer.nnet against spec/Flow.tla.'''
import copy, math
import torch
from vlib import rat

F64 = torch.float64
LOG2, LOG2PI = math.log(2), math.log(2 * math.pi)


def nums(v):
    'sequence (of sequences) of rationals'
    if isinstance(v, list) and len(v) == 2 and all(isinstance(x, int) for x in v):
        return float(rat(v))
    return [nums(x) for x in v]


def near(a, b, tol=1e-6):
    a, b = torch.as_tensor(a).detach().double(), torch.as_tensor(b).detach().double()
    return a.shape == b.shape and bool(((a - b).abs() <= tol * (1 + b.abs())).all())


class Step(torch.nn.Module):
    'A step of the specification as a user network.'
    def __init__(self, case, st, dtype):
        super().__init__()
        t = lambda v: torch.tensor(v, dtype=dtype)
        order = case['order']
        mask = t([[float(order[j] < order[i]) for j in range(case['d'])] for i in range(case['d'])])
        self.first = order.index(1)
        self.l, self.g, self.b, self.c, self.e = t(st['l']) * mask, t(st['g']), t(st['b']), t(st['c']), t(st['e'])
        self.e[self.first] = 0

    def forward(self, z, f):
        on = (z[:, self.first:self.first + 1].detach() > 1. / 64).to(z.dtype)
        return z @ self.l.t() + f @ self.g.t() + self.b, 4. ** (self.c + on * self.e)


class FourTo(torch.nn.Module):
    def forward(self, x):
        return 4. ** x


def linear(layer, rows, bias=None):
    with torch.no_grad():
        layer.weight.copy_(torch.tensor(rows, dtype=layer.weight.dtype))
        layer.bias.copy_(torch.zeros_like(layer.bias) if bias is None else bias)


def pick(n, start, count):
    return [[1. if j == start + i else 0. for j in range(n)] for i in range(count)]


def build(beer, case, dtype):
    d, nf = case['d'], case['nf']
    nin = 2 * d + nf
    base = beer.nnet.problayers.NormalDiagonalCovarianceLayer(nin, d, variance_nonlinearity=FourTo())
    layer = beer.nnet.problayers.InverseAutoRegressiveFlow(nin, nf, base, [Step(case, s, dtype) for s in case['steps']]).to(dtype)
    linear(base.mean, pick(nin, 0, d))
    linear(base.logvar, pick(nin, d, d))
    linear(layer.flow_params, pick(nin, 2 * d, nf))
    return layer


class Random:
    'Stands for the generator of noise.'
    def __init__(self, noise):
        self.noise, self.drawn = noise, 0

    def __call__(self, *size, **kw):
        shape = tuple(size[0]) if len(size) == 1 and not isinstance(size[0], int) else tuple(size or kw['size'])
        self.drawn += 1
        if math.prod(shape) != self.noise.numel():
            raise AssertionError('noise of shape %s for %s rows' % (shape, tuple(self.noise.shape)))
        return self.noise.clone().reshape(shape)


def sample(layer, params, noise, **kw):
    old = torch.randn, torch.randn_like
    r = Random(noise)
    torch.randn, torch.randn_like = r, lambda x, **k: r(*x.shape)
    try:
        z, llh = layer.samples_and_llh(params, **kw)
    finally:
        torch.randn, torch.randn_like = old
    return z, llh, r.drawn


def text(case):
    return 'dimension %d, order %s, steps %s, rows %s' % (case['d'], case['order'], case['steps'], [[r[k] for k in ('m', 's', 'f', 'n')] for r in case['rows']])


def flow(ctx, beer, case, dtype, tol):
    d, rows = case['d'], list(case['rows'])
    ctx.rng.shuffle(rows)
    layer = build(beer, case, dtype)
    if ctx.rng.random() < .2:
        layer = copy.deepcopy(layer)
    t = lambda v: torch.tensor(v, dtype=dtype)
    X = t([r['m'] + r['s'] + r['f'] for r in rows]).requires_grad_()
    noise = t([r['n'] for r in rows])
    want = t([nums(r['z']) for r in rows])
    dens = t([-.5 * (sum(n * n for n in r['n']) + d * LOG2PI) - LOG2 * r['used'] for r in rows])
    z, llh, drawn = sample(layer, layer(X), noise)
    if not drawn:
        ctx.count('noise_not_prescribed')
        return None
    if not near(z, want, tol):
        return ctx.violation('flow-sample', '%s: %s, expected %s' % (text(case), z.tolist(), want.tolist()), case)
    if not near(llh, dens, tol):
        return ctx.violation('flow-density', '%s: log-densities %s, expected %s' % (text(case), llh.tolist(), dens.tolist()), case)
    # derivatives of the samples: mean, log2 deviation, conditioning values
    for i in range(d):
        g, = torch.autograd.grad(z[:, i].sum(), X, retain_graph=True)
        for k, r in enumerate(rows):
            if not r['smooth']:
                continue
            dn, df = nums(r['dn']), nums(r['df'])
            w = [dn[j][i] / 2. ** r['s'][j] for j in range(d)] + [dn[j][i] * r['n'][j] * LOG2 for j in range(d)] + [df[q][i] for q in range(case['nf'])]
            if not near(g[k], t(w), max(tol, 1e-5)):
                return ctx.violation('flow-gradient', '%s: derivative of coordinate %d in row %d %s, expected %s' % (text(case), i, k, g[k].tolist(), w), case)
    g, = torch.autograd.grad(llh.sum(), X)
    w = t([[0.] * d + [-LOG2] * d + [0.] * case['nf'] for r in rows])
    if not near(g, w, max(tol, 1e-5)):
        return ctx.violation('flow-density-gradient', '%s: %s' % (text(case), g.tolist()), case)
    # the middle of the base density
    z, llh, drawn = sample(layer, layer(X), noise, use_mean=True)
    want = t([nums(r['middle']) for r in rows])
    dens = t([-.5 * d * LOG2PI - LOG2 * r['middleused'] for r in rows])
    if not near(z, want, tol):
        return ctx.violation('flow-mean', '%s: %s, expected %s' % (text(case), z.tolist(), want.tolist()), case)
    if not near(llh, dens, tol):
        return ctx.violation('flow-mean-density', '%s: log-densities %s, expected %s' % (text(case), llh.tolist(), dens.tolist()), case)
    ctx.count('flows')
    return None


def as_probable(llh, prob, tol):
    'log-likelihoods are the logarithms of the probabilities; of impossible data: very small, but a number'
    if tuple(llh.shape) != (len(prob),):
        return False
    return all(math.isfinite(g) and (abs(g - math.log(p)) <= tol * (1 + abs(math.log(p))) if p > 0 else g < -10) for g, p in zip(llh.tolist(), prob))


def binary(ctx, beer, case, dtype, tol):
    d, rows = case['d'], case['rows']
    layer = beer.nnet.problayers.BernoulliLayer(d, d).to(dtype)
    linear(layer.mean, [[math.log(3) if i == j else 0. for j in range(d)] for i in range(d)])
    params = layer(torch.tensor([r['odds'] for r in rows], dtype=dtype))
    for k, word in enumerate(case['words']):
        llh = layer.log_likelihood(torch.tensor([word] * len(rows), dtype=dtype), params)
        if not as_probable(llh, [float(rat(r['prob'][k])) for r in rows], tol):
            want = [r['prob'][k] for r in rows]
            return ctx.violation('binary-density', 'odds 3^%s, data %s: %s, expected the logarithms of %s' % ([r['odds'] for r in rows], word, llh.tolist(), want), case)
    # every row with its own data
    pick_ = [ctx.rng.randrange(len(case['words'])) for _ in rows]
    llh = layer.log_likelihood(torch.tensor([case['words'][k] for k in pick_], dtype=dtype), params)
    if not as_probable(llh, [float(rat(r['prob'][k])) for r, k in zip(rows, pick_)], tol):
        want = [r['prob'][k] for r, k in zip(rows, pick_)]
        return ctx.violation('binary-density', 'odds 3^%s, data %s: %s, expected the logarithms of %s' % ([r['odds'] for r in rows], pick_, llh.tolist(), want), case)
    ctx.count('binary')
    return None


def run(ctx):
    import beer
    inv = ('ChangeOfVariables', 'Triangular', 'Invertible', 'Normalised', 'Emit')
    runs = [ctx.tlc('Flow', dict(MaxD=3, MaxF=2, MaxK=3, MaxT=4), invariants=inv, simulate=ctx.pick(500, 6000), depth=10, timeout=800),
            ctx.tlc('Flow', dict(MaxD=2, MaxF=1, MaxK=1, MaxT=2), invariants=inv, simulate=ctx.pick(200, 2000), depth=6, timeout=800)]
    for r in runs:
        for n, case in enumerate(r.prints):
            for dtype, tol in ((F64, 1e-7), (torch.float32, 2e-4)):
                with ctx.guard('raises', case):
                    flow(ctx, beer, case, dtype, tol)
                with ctx.guard('binary-raises', case):
                    binary(ctx, beer, case, dtype, 1e-4)
            ctx.validated += 1
            if case['d'] > 1 and len(case['steps']) > 1:
                ctx.sample(case)
            if ctx.enough():
                return
