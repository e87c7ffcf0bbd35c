'''Building real models/parameters from the rational standard parameters of
spec/Conjugate.tla and reading them back.'''
import torch
from vlib import rat

NAMES = dict(dir=['concentrations'], ng=['mean', 'scale', 'shape', 'rates'], ing=['mean', 'scale', 'shape', 'rate'],
             nw=['mean', 'scale', 'scale_matrix', 'dof'], gam=['shape', 'rate'])


def fl(x):
    'Nested JSON rationals -> nested floats.'
    if isinstance(x, list) and len(x) == 2 and not isinstance(x[0], list):
        return float(rat(x))
    return [fl(y) for y in x]


def std(fam, s, dtype):
    'Standard parameters as a list of tensors (one density).'
    t = lambda v: torch.tensor(v, dtype=dtype)
    if fam == 'dir':
        return [t(fl(s['c']))]
    if fam == 'gam':
        return [t(fl(s['a'])), t(fl(s['b']))]
    m, k = t(fl(s['m'])), t([fl(s['k'])])
    if fam == 'ng':
        return [m, k, t([fl(s['a'])]), t(fl(s['b']))]
    if fam == 'ing':
        return [m, k, t([fl(s['a'])]), t([fl(s['b'])])]
    wi = torch.tensor(fl(s['wi']), dtype=torch.float64)
    return [m, k, wi.inverse().to(dtype), t([fl(s['nu'])])]


def dist_cls(fam):
    from beer import dists
    return dict(dir=dists.Dirichlet, ng=dists.NormalGamma, ing=dists.IsotropicNormalGamma, nw=dists.NormalWishart,
                gam=dists.Gamma)[fam]


def make_dist(fam, rows, dtype, single):
    ps = [std(fam, s, dtype) for s in rows]
    args = ps[0] if single else [torch.stack(x) for x in zip(*ps)]
    return dist_cls(fam).from_std_parameters(*[a.clone() for a in args])


def make_param(fam, prior, dtype, single, post=None):
    from beer.models.parameters import ConjugateBayesianParameter
    return ConjugateBayesianParameter(make_dist(fam, prior, dtype, single),
                                      make_dist(fam, post if post is not None else prior, dtype, single))


def make_model(beer, fam, prior, dtype, single, post=None):
    p = make_param(fam, prior, dtype, single, post)
    if fam == 'dir':
        return (beer.Categorical if single else beer.CategoricalSet)(p), p
    if fam == 'gam':
        d = len(prior[0]['a'])
        return beer.models.gamma.Gamma(torch.full((d,), 3., dtype=dtype), p), p
    return (beer.Normal if single else beer.NormalSet)(p), p


def read(fam, dist):
    return [getattr(dist.params, n) for n in NAMES[fam]]


def weigh(fam, s, w):
    'Standard parameters when prior and data count w times (theorem Weighted of the specification).'
    up = lambda x: [up(y) for y in x] if isinstance(x[0], list) else [x[0] * w, x[1]]
    return {k: v if k == 'm' else up(v) for k, v in s.items()}


def same_params(fam, dist, rows, dtype, single, tol):
    'None or a description of the first difference.'
    exp = [std(fam, s, torch.float64) for s in rows]
    exp = exp[0] if single else [torch.stack(x) for x in zip(*exp)]
    for name, g, e in zip(NAMES[fam], read(fam, dist), exp):
        g = g.detach().double()
        if g.numel() != e.numel() or not bool(((g.reshape(e.shape) - e).abs() <= tol * (min(1., float(e.abs().max())) if name == 'scale_matrix' else 1) + tol * e.abs()).all()):
            return '%s is %s, expected %s' % (name, g.tolist(), e.tolist())
    return None


def tensor_data(fam, d, xs, dtype):
    if fam == 'dir':
        out = torch.zeros(len(xs), d, dtype=dtype)
        for i, x in enumerate(xs):
            out[i, x[0] - 1] = 1
        return out
    return torch.tensor(xs, dtype=dtype).reshape(len(xs), d)


def near(what, got, exp, tol):
    exp = torch.tensor(exp, dtype=torch.float64)
    got = got.detach().double()
    if got.numel() != exp.numel() or not bool(((got.reshape(-1) - exp.reshape(-1)).abs() <= tol * (1 + exp.reshape(-1).abs())).all()):
        return '%s is %s, expected %s' % (what, got.tolist(), exp.tolist())
    return None


def same_value(fam, model, p, rows, single, tol):
    'Expected values under the posterior; rows: those of the specification.'
    vals = [[fl(v) for v in r] for r in rows]
    vals = vals[0] if single else [list(x) for x in zip(*vals)]
    got = p.value()
    got = list(got) if isinstance(got, tuple) else [got]
    if len(got) != len(vals):
        return 'value() has %d parts' % len(got)
    for k, (g, v) in enumerate(zip(got, vals)):
        msg = near('expected value (part %d)' % k, g, v, tol)
        if msg:
            return msg
    if fam == 'dir':
        return near('mean', model.mean, vals[0], tol)
    if fam == 'gam':
        return near('mean', model.mean, [3 / x for x in vals[0]], tol)
    if single:
        d = len(vals[0])
        pr = torch.tensor(vals[1], dtype=torch.float64).reshape(-1)
        prec = pr.reshape(d, d) if fam == 'nw' else pr.diag() if fam == 'ng' else pr * torch.eye(d, dtype=torch.float64)
        return near('mean', model.mean, vals[0], tol) or near('cov', model.cov, prec.inverse().tolist(), 10 * tol)
    return None
