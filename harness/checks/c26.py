'''C26: Normal densities and probabilistic layers against spec/Gaussian.tla.'''
import copy, math, pickle
import torch
from vlib import rat

LOG2PI = math.log(2 * math.pi)
INV = ('InverseRight', 'NaturalRight', 'MomentsRight', 'KlRight', 'KlZero', 'Units', 'Copies', 'Conserved', 'Emit')


def same(got, want, tol):
    want = torch.as_tensor(want, dtype=torch.float64)
    got = torch.as_tensor(got).detach().double()
    return tuple(got.shape) == tuple(want.shape) and bool(((got - want).abs() <= tol * (1 + want.abs())).all())


def num(v):
    'nested lists of rationals -> nested lists of floats'
    if isinstance(v[0], int):
        return float(rat(v))
    return [num(e) for e in v]


def std_params(g, full, r=1):
    mean = [float(v) for v in g['m']] * r
    cov = blocks(num(g['cov']), r)
    return mean, cov if full else [cov[i][i] for i in range(len(mean))]


def vectors(g, full, r=1):
    'natural parameters and expected statistics'
    mean = [float(v) for v in g['m']] * r
    np1, np2, cov, d = num(g['np1']) * r, blocks(num(g['np2']), r), blocks(num(g['cov']), r), len(mean)
    sec = [[cov[i][j] + mean[i] * mean[j] for j in range(d)] for i in range(d)]
    if r == 1:
        sec = num(g['second'])
    if full:
        return np1 + sum(np2, []), mean + [-.5 * v for r in sec for v in r]
    return np1 + [np2[i][i] for i in range(d)], mean + [-.5 * sec[i][i] for i in range(d)]


def blocks(a, r):
    'r copies of a square matrix on the diagonal'
    n = len(a)
    return [[a[i % n][j % n] if i // n == j // n else 0. * a[0][0] for j in range(n * r)] for i in range(n * r)]


class Table:
    'The densities of a behaviour and everything the specification says about them, in r independent copies and other units.'
    def __init__(self, case, copies=1, units=None):
        self.case, self.r = case, copies
        self.d, self.x = case['d'] * copies, [list(v) * copies for v in case['x']]
        self.u = torch.tensor(units or [1.] * self.d, dtype=torch.float64)
        self.logu = float(self.u.log().sum())
        self.index = {}
        for i, g in enumerate(case['all']):
            self.index.setdefault((tuple(g['m']), tuple(map(tuple, g['l']))), i)
        self.at = lambda e: self.index[(tuple(e['m']), tuple(map(tuple, e['l'])))]
        k = case['k']
        ids = [self.at(g) for g in case['all']]
        self.p, self.q = ids[:k], ids[k:]

    def llh(self, i):
        g = self.case['all'][i]
        return [-.5 * (self.r * (float(rat(s)) + math.log(float(rat(g['det'])))) + self.d * LOG2PI) - self.logu for s in g['sq']]

    def kl(self, i, j):
        a = self.case['all']
        return .5 * self.r * (float(rat(self.case['kl'][i][j])) + math.log(float(rat(a[j]['det']))) - math.log(float(rat(a[i]['det']))))

    def entropy(self, i):
        return .5 * (self.d * (1 + LOG2PI) + self.r * math.log(float(rat(self.case['all'][i]['det'])))) + self.logu

    def lnorm(self, i):
        g = self.case['all'][i]
        m, n = [float(v) for v in g['m']], num(g['np1'])
        return .5 * (self.r * (sum(a * b for a, b in zip(m, n)) + math.log(float(rat(g['det'])))) + self.d * LOG2PI) + self.logu

    def flat(self, full, power=1):
        'Units of a mean followed by a covariance.'
        u = self.u ** power
        return torch.cat([u, (u[:, None] * u[None, :]).reshape(-1) if full else u ** 2])


def make(beer, table, ids, full, dtype, single):
    ps = [std_params(table.case['all'][i], full, table.r) for i in ids]
    cls = beer.dists.NormalFullCovariance if full else beer.dists.NormalDiagonalCovariance
    u = table.flat(full)
    um, uc = u[:table.d], u[table.d:].reshape(-1, table.d) if full else u[table.d:]
    t = lambda v, w: (torch.tensor(v, dtype=torch.float64) * w).to(dtype)
    return cls.from_std_parameters(t(ps[0][0], um), t(ps[0][1], uc)) if single else cls.from_std_parameters(t([m for m, _ in ps], um), t([c for _, c in ps], uc))


def verify(ctx, beer, table, dist, ids, full, single, dtype, what):
    'Every observable of the distributions; False at the first difference.'
    tol = 1e-9 if dtype == torch.float64 else 2e-4
    case, d = table.case, table.d
    pick = (lambda v: v[0]) if single else (lambda v: v)
    def bad(clause, detail):
        ctx.violation(clause, '%s covariance, %s, %d copies in units %s, densities %s: %s' % ('full' if full else 'diagonal', what, table.r, table.u.tolist()[:4],
            [(case['all'][i]['m'], case['all'][i]['l']) for i in ids], detail), case)
        return False
    ps = [std_params(case['all'][i], full, table.r) for i in ids]
    vs = [vectors(case['all'][i], full, table.r) for i in ids]
    u = table.flat(full)
    um, uc, un = u[:d], u[d:].reshape(-1, d) if full else u[d:], table.flat(full, -1)
    if len(dist) != (1 if single else len(ids)) or dist.dim != d:
        return bad('size', 'len %d, dim %s' % (len(dist), dist.dim))
    for name, got, want, unit in (('mean', dist.params.mean, [p[0] for p in ps], um), ('cov', dist.params.cov if full else dist.params.diag_cov, [p[1] for p in ps], uc),
                                  ('value', dist.expected_value(), [p[0] for p in ps], um),
                                  ('natural', dist.natural_parameters(), [v[0] for v in vs], un),
                                  ('statistics', dist.expected_sufficient_statistics(), [v[1] for v in vs], u)):
        if got.shape[-1] == unit.shape[-1]:
            got = got.detach().double() / unit
        if not same(got, pick(want), tol):
            return bad(name, '%s, expected %s' % (got.tolist(), pick(want)))
    if not same(torch.as_tensor(dist.log_norm()).reshape(-1), [table.lnorm(i) for i in ids], tol):
        return bad('log-norm', '%s, expected %s' % (dist.log_norm(), [table.lnorm(i) for i in ids]))
    if not same(beer.dists.entropy(dist).reshape(-1), [table.entropy(i) for i in ids], tol):
        return bad('entropy', '%s, expected %s' % (beer.dists.entropy(dist), [table.entropy(i) for i in ids]))
    x = (torch.tensor(table.x, dtype=torch.float64) * table.u).to(dtype)
    keep = x.clone()
    llh = dist(dist.sufficient_statistics(x))
    want = [table.llh(i) for i in ids]
    if not same(llh.reshape(len(ids), -1) if single else llh, want, tol):
        return bad('log-density', 'of %s: %s, expected %s' % (table.x, llh.tolist(), want))
    # one datum per density
    n = len(ids)
    idx = [ctx.rng.randrange(len(table.x)) for _ in ids]
    llh = dist(dist.sufficient_statistics(x[idx]), pdfwise=True)
    if not same(llh.reshape(-1), [want[a][idx[a]] for a in range(n)], tol):
        return bad('log-density-pdfwise', '%s' % llh.tolist())
    if not torch.equal(x, keep):
        return bad('data-changed', '')
    return True


def sampling(ctx, dist, table, ids, single, dtype):
    'Moments of many samples, at eight standard errors.'
    n = 4000
    s = dist.sample(n).double()
    if tuple(s.shape) != ((n, table.d) if single else (len(ids), n, table.d)):
        return ctx.violation('sample-shape', '%s' % (tuple(s.shape),), table.case)
    s = (s[None] if single else s) / table.u
    for a, i in enumerate(ids):
        g = table.case['all'][i]
        L = torch.tensor(blocks(g['l'], table.r), dtype=torch.float64)
        z = torch.linalg.solve_triangular(L, (s[a] - torch.tensor(list(g['m']) * table.r, dtype=torch.float64)).t(), upper=False)
        if not (bool((z.mean(dim=1).abs() < 8 / math.sqrt(n)).all()) and bool((z @ z.t() / n - torch.eye(table.d).double()).abs().max() < 12 / math.sqrt(n))):
            return ctx.violation('samples', 'density %s %s: whitened mean %s, second moment %s' % (g['m'], g['l'], z.mean(dim=1).tolist(), (z @ z.t() / n).tolist()), table.case)
        others = [b for b in range(len(ids)) if b != a]
        for b in others:                     # independent of the samples of the other densities
            if bool((s[a] == s[b]).all()) or abs(float((z[0] * (s[b][:, 0] - s[b][:, 0].mean())).mean())) > 12 * float(s[b][:, 0].std()) / math.sqrt(n):
                return ctx.violation('samples-dependent', 'densities %d and %d' % (a, b), table.case)


def densities(ctx, beer, case):
    rng = ctx.rng
    full = not case['diag'] or ctx.rng.random() < .5
    single = case['k'] == 1 and ctx.rng.random() < .5
    dtype = ctx.rng.choice([torch.float64, torch.float64, torch.float32])
    copies = rng.choice([1, 1, 1, 1, 2, 5, 14])
    most = 160 if dtype == torch.float64 else 20
    units = [1.] * (case['d'] * copies)
    if rng.random() < .5:
        e = rng.choice([-1, 1]) * rng.randint(most // 2, most)
        units = [2. ** (e + rng.choice([-1, 0, 0, 1])) for _ in units]
    table = Table(case, copies, units)
    tol = 1e-9 if dtype == torch.float64 else 2e-4
    dist = make(beer, table, table.p, full, dtype, single)
    other = make(beer, table, table.q, full, dtype, single)
    pi, qi = list(table.p), list(table.q)
    steps = [('created', None)] + [(o['op'], [table.at(e) for e in o['p']]) for o in case['ops']]
    for what, ids in steps:
        if what == 'assign':
            src = other
            dist.update_from_natural_parameters(src.natural_parameters())
            pi = list(qi)
        elif what == 'swap':
            a, b = dist.natural_parameters().clone(), other.natural_parameters().clone()
            dist.update_from_natural_parameters(b)
            other.update_from_natural_parameters(a)
            pi, qi = qi, pi
        elif what == 'keep':
            dist.update_from_natural_parameters(dist.natural_parameters())
            if ctx.rng.random() < .5:
                dist = pickle.loads(pickle.dumps(dist)) if ctx.rng.random() < .5 else copy.deepcopy(dist)
        elif what == 'roll':
            n = dist.natural_parameters()
            dist.update_from_natural_parameters(n if single else torch.cat([n[1:], n[:1]]))
            pi = pi[1:] + pi[:1]
        if ids is not None and pi != ids:
            raise AssertionError('harness out of step')
        if not verify(ctx, beer, table, dist, pi, full, single, dtype, what) or not verify(ctx, beer, table, other, qi, full, single, dtype, what):
            return
        got = beer.dists.kl_div(dist, other).reshape(-1)
        want = [table.kl(a, b) for a, b in zip(pi, qi)]
        if not same(got, want, tol):
            return ctx.violation('divergence', '%s of %s from %s: %s, expected %s' % ('full' if full else 'diagonal', pi, qi, got.tolist(), want), case)
        if not single:
            for a, i in enumerate(pi):       # the view of one density
                if not verify(ctx, beer, table, dist[a], [i], full, True, dtype, 'element %d after %s' % (a, what)):
                    return
            a, b = ctx.rng.randrange(len(pi)), ctx.rng.randrange(len(qi))
            if not same(beer.dists.kl_div(dist[a], other[b]).reshape(-1), [table.kl(pi[a], qi[b])], tol):
                return ctx.violation('divergence', 'elements %d, %d: %s' % (a, b, beer.dists.kl_div(dist[a], other[b])), case)
    if ctx.rng.random() < .1:
        sampling(ctx, dist, table, pi, single, dtype)
    ctx.count('densities_full' if full else 'densities_diagonal')


class Same(torch.nn.Module):
    def forward(self, x):
        return x


def layers(ctx, beer, case):
    'Density i is what the layer gives for the i-th input.'
    if not case['diag']:
        return
    table, rng, d = Table(case), ctx.rng, case['d']
    ids = table.p + table.q
    n = len(ids)
    dtype, tol = (torch.float64, 1e-8)
    gs = [case['all'][i] for i in ids]
    means = torch.tensor([[float(v) for v in g['m']] for g in gs], dtype=dtype)
    var = torch.tensor([[float(g['l'][h][h] ** 2) for h in range(d)] for g in gs], dtype=dtype)
    iso = bool((var == var[:, :1]).all())
    unit = bool((var == 1).all())
    kinds = ['diag'] + (['iso'] if iso else []) + (['id'] if unit else [])
    for kind in kinds:
        given = rng.random() < .5
        cls = dict(diag=beer.nnet.NormalDiagonalCovarianceLayer, iso=beer.nnet.NormalIsotropicCovarianceLayer, id=beer.nnet.NormalIdentityCovarianceLayer)[kind]
        if kind == 'id':
            layer = cls(n, d)
        else:
            layer = cls(n, d, variance_nonlinearity=Same()) if given else cls(n, d)
        layer = layer.double()
        with torch.no_grad():
            bias = torch.tensor([float(rng.randint(-2, 2)) for _ in range(d)], dtype=dtype)
            layer.mean.weight.copy_(means.t() - bias[:, None])
            layer.mean.bias.copy_(bias)
            if kind != 'id':
                v = var if given else torch.log(torch.expm1(var))
                v = v[:, :1] if kind == 'iso' else v
                layer.logvar.weight.copy_(v.t() - .5)
                layer.logvar.bias.fill_(.5)
        order = [rng.randrange(n) for _ in range(rng.randint(1, 2 * n))]
        params = layer(torch.eye(n, dtype=dtype)[order])
        xs = [rng.randrange(len(table.x)) for _ in order]
        got = layer.log_likelihood(torch.tensor(table.x, dtype=dtype)[xs], params)
        want = [table.llh(ids[o])[x] for o, x in zip(order, xs)]
        if not same(got, want, tol):
            return ctx.violation('layer-density', '%s layer, inputs %s, data %s: %s, expected %s' % (kind, order, [table.x[x] for x in xs], got.tolist(), want), case)
        # samples come with their own log density; the mean is the mean
        s, llh = layer.samples_and_llh(params, use_mean=True)
        if not same(s, means[order], tol) or not same(llh, layer.log_likelihood(means[order], params).detach(), tol):
            return ctx.violation('layer-mean', '%s layer: %s' % (kind, s.tolist()), case)
        s, llh = layer.samples_and_llh(params)
        if tuple(s.shape) != (len(order), d) or not same(llh, [float(-.5 * (((s[a] - means[o]) ** 2 / var[o]).sum() + var[o].log().sum() + d * LOG2PI)) for a, o in enumerate(order)], tol):
            return ctx.violation('layer-samples', '%s layer: log density of the samples %s' % (kind, llh.tolist()), case)
        if rng.random() < .1:
            big = 2000
            p = layer(torch.eye(n, dtype=dtype)[[order[0]] * big])
            z = ((layer.samples_and_llh(p)[0] - means[order[0]]) / var[order[0]].sqrt()).detach()
            if bool((z.mean(dim=0).abs() > 8 / math.sqrt(big)).any()) or bool(((z ** 2).mean(dim=0) - 1).abs().max() > 12 / math.sqrt(big)):
                return ctx.violation('layer-samples', '%s layer: whitened samples have mean %s' % (kind, z.mean(dim=0).tolist()), case)
        # gradients reach the layer through the samples
        if not s.requires_grad:
            return ctx.violation('layer-gradient', 'samples are cut from the parameters', case)
        ctx.count('layers_' + kind)


def run(ctx):
    import beer
    small = dict(MaxD=1, MaxK=1, MaxN=1, MaxOps=1, MeanR=1, Diag={1, 2}, OffR=1)
    mid = dict(MaxD=2, MaxK=3, MaxN=3, MaxOps=3, MeanR=2, Diag={1, 2}, OffR=1)
    big = dict(MaxD=3, MaxK=2, MaxN=2, MaxOps=3, MeanR=1, Diag={1, 2}, OffR=1)
    runs = [ctx.tlc('Gaussian', small, invariants=INV),
            ctx.tlc('Gaussian', mid, invariants=INV, simulate=ctx.pick(300, 2500), depth=20),
            ctx.tlc('Gaussian', big, invariants=INV, simulate=ctx.pick(50, 400), depth=20)]
    if not ctx.quick:
        runs.append(ctx.tlc('Gaussian', dict(MaxD=1, MaxK=2, MaxN=1, MaxOps=1, MeanR=1, Diag={1, 2}, OffR=1), invariants=INV))
        runs.append(ctx.tlc('Gaussian', dict(mid, MaxK=5, MaxN=5), invariants=INV, simulate=800, depth=24))
    for r in runs:
        cases = r.prints
        if len(cases) > ctx.pick(1200, 12000):
            cases = ctx.rng.sample(cases, ctx.pick(1200, 12000))
        for case in cases:
            with ctx.guard('raises', case):
                densities(ctx, beer, case)
            with ctx.guard('layer-raises', case):
                layers(ctx, beer, case)
            ctx.validated += 1
            if case['k'] > 1:
                ctx.sample(dict(d=case['d'], x=case['x'], p=[(g['m'], g['l']) for g in case['all']], ops=[o['op'] for o in case['ops']]))
            if ctx.enough():
                return
