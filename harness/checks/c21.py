'''C21: subspace models.  Behaviours of spec/Subspace.tla are replayed on real
GSM / GSMSet objects: the units' parameters must be those generated from their
own embeddings.'''
import contextlib
import io
import itertools
import math
import os
import pickle
import random
import shutil
import sys
import torch
from conj import make_param
from special import psi
from checks.c20 import rnd

F = torch.float64
SC = 1. / 16
LOG2PI = math.log(2 * math.pi)


# ------------------------------------------------------------------ oracles
def normal_std(fam, r, d):
    'mean and precision matrix of a generated vector.'
    r = [x * SC for x in r]
    mean = torch.tensor(r[:d], dtype=F)
    if fam == 'ng':
        return mean, torch.diag(torch.tensor(r[d:2 * d], dtype=F).exp())
    if fam == 'ing':
        return mean, torch.eye(d, dtype=F) * math.exp(r[d])
    lo = torch.diag((.5 * torch.tensor(r[d:2 * d], dtype=F)).exp())
    k = 2 * d
    for i in range(d):
        for j in range(i):
            lo[i, j] = r[k]
            k += 1
    return mean, lo @ lo.t()


def log_normal(fam, r, d, x):
    m, p = normal_std(fam, r, d)
    y = x - m
    return .5 * torch.logdet(p) - .5 * ((y @ p) * y).sum(dim=-1) - .5 * d * LOG2PI


def log_weights(r, k):
    v = torch.tensor([x * SC for x in r] + [0.], dtype=F)
    return v - torch.logsumexp(v, dim=0)


def expect_row(cfg, kind, sl, x, resp=None):
    '''Expected log-likelihood of the frames x (normals) or expected log weights
    for one row; sl: class -> sample -> vector; resp: weight of each class.'''
    tot = 0.
    for c, samples in enumerate(sl):
        vals = [log_normal(cfg['fam'], r, cfg['D'], x) if kind == 'n' else log_weights(r, cfg['K']) for r in samples]
        w = 1. if resp is None else resp[c]
        tot = tot + w * torch.stack(vals).mean(dim=0)
    return tot


def kl_diag(m1, c1, m2, c2):
    return float((.5 * (c1 / c2 + (m1 - m2) ** 2 / c2 - 1 + (c2 / c1).log())).sum())


def std_of(dist):
    'mean and covariance of a (set of) latent normals from their parameters.'
    p = dist.params
    m = p.mean.detach()
    if hasattr(p, 'log_diag_cov'):
        return m, torch.diag_embed(1e-4 + p.log_diag_cov.detach().exp())
    d = m.shape[-1]
    lo = torch.diag_embed(1e-3 + p.log_diag_L.detach().exp())
    off = p.L_offdiag.detach().reshape(len(m), -1)
    idx = [(i, j) for i in range(d) for j in range(i)]
    for k, (i, j) in enumerate(idx):
        lo[:, i, j] = off[:, k]
    return m, lo @ lo.transpose(1, 2)


def nw_elog(model, s):
    'E[log N(s)] under the Normal-Wishart posterior of a latent prior.'
    p = model.means_precisions.posterior.params if hasattr(model, 'means_precisions') else model.mean_precision.posterior.params
    m, k, w, nu = p.mean.detach().reshape(-1), float(p.scale), p.scale_matrix.detach().reshape(len(p.mean.reshape(-1)), -1), float(p.dof)
    d = len(m)
    y = s - m
    el = sum(psi((nu + 1 - i) / 2.) for i in range(1, d + 1)) + d * math.log(2) + float(torch.logdet(w))
    return .5 * el - .5 * (d / k + nu * float(y @ w @ y)) - .5 * d * LOG2PI


# ----------------------------------------------------------------- builders
class World:
    def __init__(self, ctx, beer, case):
        self.ctx, self.beer, self.case, self.cfg = ctx, beer, case, case['cfg']
        self.rng = random.Random(ctx.rng.random())
        c = self.cfg
        self.S, self.K, self.U = c['S'], c['K'], c['U']
        self.maps = {m['id']: m for m in case['maps']}
        self.embs = {e['id']: e['x'] for e in case['embs']}
        n = self.U if c['mode'] == 'views' else 1
        self.nparam = make_param(c['fam'], rnd(self.rng, c['fam'], c['D'], n * self.S * self.K), F, False,
                                 rnd(self.rng, c['fam'], c['D'], n * self.S * self.K))
        self.wparam = make_param('dir', rnd(self.rng, 'dir', self.K - 1, n * self.S), F, False, rnd(self.rng, 'dir', self.K - 1, n * self.S))
        self.big = beer.MixtureSet(beer.CategoricalSet(self.wparam), beer.NormalSet(self.nparam))
        lp = lambda d: beer.Normal.create(torch.zeros(d, dtype=F), torch.ones(d, dtype=F), cov_type='full')
        self.prior = lp(c['L'])
        self.dprior = lp(c['M']) if c['M'] else None
        with torch.no_grad():
            for q in [self.prior] + ([self.dprior] if c['M'] else []):
                p = q.mean_field_factorization()[0][0].posterior.params
                p.mean = p.mean + .25
        new = {p: beer.models.gsm.SubspaceBayesianParameter.from_parameter(p, self.prior)
               for k, p in (('n', self.nparam), ('w', self.wparam)) if k in c['cover']}
        self.big.replace_parameters(new)
        import copy
        if c['mode'] == 'views':
            self.units = [self.big[i * self.S:(i + 1) * self.S] for i in range(self.U)]
            tpl = copy.deepcopy(self.units[0])
        else:
            tpl = self.big
        strength = self.rng.choice([1., 3.])
        if c['M'] == 0:
            self.gsm = beer.GSM.create(tpl, c['L'], self.prior, prior_strength=strength).double()
        else:
            self.gsm = beer.GSMSet.create(tpl, c['C'], c['L'], c['M'], self.prior, self.dprior, prior_strength=strength).double()
        self.strength = strength
        full = self.rng.random() < .4
        if c['mode'] == 'views':
            self.posts = self.gsm.new_latent_posteriors(self.U, cov_type='full' if full else 'diagonal')
        else:
            self.units, self.posts = self.gsm.new_models(self.U, cov_type='full' if full else 'diagonal')
        self.posts = self.posts.double()
        with torch.no_grad():
            for p in list(self.posts.parameters()) + list(self.gsm.parameters()):
                p += torch.tensor([self.rng.uniform(-1, 1) for _ in range(p.numel())], dtype=F).reshape(p.shape)
        self.stat_ids = [[None] * 2 for _ in range(self.U)]

    def uparams(self, u):
        m = self.units[u]
        return {'n': m.modelset.means_precisions, 'w': m.categoricalset.weights}

    def inject(self, h):
        'The samples of the step: embeddings, classes and maps.'
        c, t = self.cfg, self.gsm.transform
        mp = self.maps[h['map']]
        q = self.case['Q']
        emb = torch.tensor([[e[:c['L']] for e in self.embs[i]] for i in h['emb']], dtype=F)
        self.s_h = emb
        want = dict(a=c['A'], b=c['B'])

        def patched(name, value, n):
            def sample(k, *a, **kw):
                if k != n:
                    raise AssertionError('%d samples of the %s drawn instead of %d' % (k, name, n))
                return value.clone()
            return sample
        w = torch.tensor(mp['w'], dtype=F).reshape(c['B'], -1) * SC
        b = torch.tensor(mp['b'], dtype=F).reshape(c['B'], q) * SC
        self.posts.sample = patched('embeddings', emb, c['A'])
        t.weights.posterior.sample = patched('maps', w, c['B'])
        t.bias.posterior.sample = patched('biases', b, c['B'])
        if c['M']:
            cl = torch.tensor([[e[:c['M']] for e in self.embs[i]] for i in h['cls']], dtype=F)
            self.s_c = cl
            self.gsm.means.posterior.sample = patched('classes', cl, c['A'])
            self.gsm.disc_transform.weights.posterior.sample = patched('class maps', torch.tensor(mp['v'], dtype=F).reshape(c['B'], -1) * SC, c['B'])

    def stat_data(self, u, kind, i):
        'Data behind the statistics number i of a parameter of a unit.'
        r = random.Random(i * 31 + u * 7 + (3 if kind == 'w' else 0))
        c = self.cfg
        if kind == 'n':
            x = torch.tensor([[r.choice([-1.5, -.5, 0., .75, 2.]) for _ in range(c['D'])] for _ in range(3)], dtype=F)
            w = torch.tensor([[r.choice([0., .25, .5, 1., 2.]) for _ in range(self.S * self.K)] for _ in range(3)], dtype=F)
            return x, w
        return torch.tensor([[r.choice([0., .5, 1., 3.]) for _ in range(self.K)] for _ in range(self.S)], dtype=F), None

    def set_stats(self, h):
        c = self.cfg
        for u in range(self.U):
            for kind in c['cover']:
                i = h['stats'][u][kind]
                if self.stat_ids[u][kind == 'w'] == i:
                    continue
                self.stat_ids[u][kind == 'w'] = i
                p = self.uparams(u)[kind]
                x, w = self.stat_data(u, kind, i)
                st = w.t() @ p.likelihood_fn.sufficient_statistics(x) if kind == 'n' else p.likelihood_fn.sufficient_statistics(x)
                big = getattr(p, 'param', None)
                if big is not None and self.rng.random() < .5:
                    rows = len(st)
                    big.stats[u * rows:(u + 1) * rows] = st
                elif hasattr(p, 'param') or self.rng.random() < .5:
                    p.stats = st.clone()
                else:
                    p.store_stats(st.clone())


def close(a, b, tol=1e-7):
    a, b = torch.as_tensor(a).detach().double(), torch.as_tensor(b).detach().double()
    return a.numel() == b.numel() and bool(((a.reshape(b.shape) - b).abs() <= tol * (1 + b.abs())).all())


def unit_llh(w, h, u, x, resp):
    'Expected log-likelihood of every state of unit u, from the memory of the specification.'
    c = w.cfg
    ids = {p['p']: i for i, p in enumerate(w.case['params'])}
    base = u if c['mode'] == 'views' else 0
    if 'n' in ids:
        ll = torch.stack([expect_row(c, 'n', h['mem'][u][ids['n']][r], x, resp) for r in range(w.S * w.K)], dim=-1)
    else:
        ll = w.plain_n[:, base * w.S * w.K:(base + 1) * w.S * w.K]
    if 'w' in ids:
        lw = torch.stack([expect_row(c, 'w', h['mem'][u][ids['w']][r], x, resp) for r in range(w.S)])
    else:
        lw = w.plain_w[base * w.S:(base + 1) * w.S]
    return torch.logsumexp(ll.reshape(len(x), w.S, w.K) + lw[None], dim=-1)


def check_units(w, h, resps, what):
    ctx, c, case = w.ctx, w.cfg, w.case
    x = torch.tensor([[w.rng.choice([-1., -.25, 0., .5, 1.25]) for _ in range(c['D'])] for _ in range(4)], dtype=F)
    w.plain_n = w.beer.NormalSet(w.nparam).expected_log_likelihood(w.beer.NormalSet(w.nparam).sufficient_statistics(x))
    cs = w.beer.CategoricalSet(w.wparam)
    w.plain_w = cs.expected_log_likelihood(cs.sufficient_statistics(torch.eye(w.K, dtype=F))).t()
    want = [unit_llh(w, h, u, x, None if resps is None else resps[u]) for u in range(w.U)]
    for u, m in enumerate(w.units):
        got = m.expected_log_likelihood(m.sufficient_statistics(x))
        if not close(got, want[u]):
            return ctx.violation('unit-parameters', '%s: unit %d has the likelihoods %s, expected %s (%s)' % (
                what, u, got.tolist(), want[u].tolist(), c), case)
        k = w.rng.randrange(w.S)
        one = m[k]
        got = one.expected_log_likelihood(one.sufficient_statistics(x))
        if not close(got, want[u][:, k]):
            return ctx.violation('state-of-unit', '%s: state %d of unit %d has %s, expected %s' % (what, k, u, got.tolist(), want[u][:, k].tolist()), case)
    if c['mode'] == 'views':
        got = w.big.expected_log_likelihood(w.big.sufficient_statistics(x))
        if not close(got, torch.cat(want, dim=-1)):
            return ctx.violation('set-parameters', '%s: the set of units has %s, expected %s' % (what, got.tolist(), torch.cat(want, dim=-1).tolist()), case)
    if c['A'] * c['B'] * c['C'] == 1:
        ids = {p['p']: i for i, p in enumerate(case['params'])}
        for u in range(w.U):
            for kind in c['cover']:
                v = w.uparams(u)[kind].value()
                rows = [r[0][0] for r in h['mem'][u][ids[kind]]]
                if kind == 'w':
                    ok = close(v, torch.stack([log_weights(r, w.K).exp() for r in rows]))
                else:
                    st = [normal_std(c['fam'], r, c['D']) for r in rows]
                    ok = close(v[0], torch.stack([s[0] for s in st]))
                    p = torch.stack([s[1] for s in st])
                    if c['fam'] == 'ng':
                        p = torch.diagonal(p, dim1=1, dim2=2)
                    elif c['fam'] == 'ing':
                        p = p[:, :1, 0]
                    ok = ok and close(v[1], p)
                if not ok:
                    return ctx.violation('value', '%s: value of parameter %s of unit %d is %s, generated vectors %s / 16' % (what, kind, u, v, rows), case)
    return None


def expected_objective(w, h, c_idx):
    'Per unit: expected log-likelihood of the statistics without the base measure, minus the local divergence.'
    c = w.cfg
    out = []
    ids = {p['p']: i for i, p in enumerate(w.case['params'])}
    m, cov = std_of(w.posts)
    for u in range(w.U):
        tot = 0.
        for kind in c['cover']:
            x, r = w.stat_data(u, kind, h['stats'][u][kind])
            rows = h['mem'][u][ids[kind]]
            for k, row in enumerate(rows):
                if kind == 'n':
                    tot += float((r[:, k] * (expect_row(c, 'n', [row[c_idx]], x) + .5 * c['D'] * LOG2PI)).sum())
                else:
                    tot += float((x[k] * expect_row(c, 'w', [row[c_idx]], None)).sum())
        out.append(tot - local_kl(w.s_h[u], m[u], cov[u], w.prior))
    return out


def local_kl(samples, m, cov, prior):
    kl = 0.
    for s in samples:
        y = s - m
        logq = -.5 * float(torch.logdet(cov)) - .5 * float(y @ cov.inverse() @ y) - .5 * len(m) * LOG2PI
        kl += (logq - nw_elog(prior, s)) / len(samples)
    return kl


def replay(ctx, beer, case):
    w = World(ctx, beer, case)
    c = w.cfg
    # the parameters of the units are distinct objects for the optimiser
    if c['mode'] == 'copies':
        ps = [p for m in w.units for p in m.bayesian_parameters()]
        if len(set(ps)) != len(ps) or set(ps) & set(w.gsm.model.bayesian_parameters()):
            return ctx.violation('identity', '%d parameters of %d models, %d distinct' % (len(ps), w.U, len(set(ps))), case)
    # latent normals start at zero, one per unit
    if len(w.posts) != w.U:
        return ctx.violation('embeddings', '%d embeddings for %d units' % (len(w.posts), w.U), case)
    resps = None
    for n, h in enumerate(case['hist']):
        what = 'step %d (%s)' % (n, h['op'])
        w.set_stats(h)
        w.inject(h)
        ns = dict(latent_nsamples=c['A'], params_nsamples=c['B'])
        if h['op'] == 'update':
            pdf = w.gsm.expected_pdfvecs(w.posts, **ns)
            w.gsm.update_models(w.units, pdf)
        else:
            stats = w.gsm.sufficient_statistics(w.units)
            order = [p['p'] for p in case['params']]
            want = torch.stack([torch.cat([w.uparams(u)[k].stats.reshape(-1) for k in order]) for u in range(w.U)])
            if not close(stats, want):
                return ctx.violation('statistics-order', '%s: %s expected %s' % (what, stats.tolist(), want.tolist()), case)
            upd = h['op'] == 'objective'
            got = w.gsm.expected_log_likelihood(stats, w.posts, update_models=upd, **ns)
            if c['M'] == 0:
                # an evaluation without update reports the current embeddings, not the memory
                hh = h if upd else dict(h, mem=generated(w, h))
                want = expected_objective(w, hh, 0)
                if not close(got, torch.tensor(want, dtype=F), 1e-6):
                    return ctx.violation('objective', '%s: %s expected %s' % (what, got.tolist(), want), case)
            else:
                want = torch.tensor([expected_objective(w, h, k) for k in range(c['C'])], dtype=F).t()
                if tuple(got.shape) != tuple(want.shape) or not close(got, want, 1e-6):
                    return ctx.violation('objective', '%s: %s expected %s (unit x class)' % (what, got.tolist(), want.tolist()), case)
                resps = [w.rng.choice([[1., 0.], [0., 1.], [.25, .75], [.5, .5]])[:c['C']] for _ in range(w.U)]
                m, cov = std_of(w.gsm.means.posterior)
                dkl = sum(local_kl(w.s_c[k], m[k], cov[k], w.dprior) for k in range(c['C']))
                if not close(w.gsm.means.kl_div_posterior_prior(), torch.tensor(dkl, dtype=F), 1e-6):
                    return ctx.violation('class-divergence', '%s: %s expected %s' % (what, float(w.gsm.means.kl_div_posterior_prior()), dkl), case)
            acc = w.gsm.accumulate(stats) if c['M'] == 0 else w.gsm.accumulate(stats, torch.tensor(resps, dtype=F))
            lat = [(w.prior, w.s_h)] + ([(w.dprior, w.s_c)] if c['M'] else [])
            for model, s in lat:
                p = model.mean_field_factorization()[0][0]
                want = model.sufficient_statistics(s.reshape(-1, s.shape[-1])).sum(dim=0) / s.shape[1]
                if p not in acc or not close(acc[p], want):
                    return ctx.violation('latent-statistics', '%s: %s expected %s' % (what, acc.get(p), want.tolist()), case)
        if check_units(w, h, resps, what):
            return
        # the covered parameters alone are generated
        for kind, p in (('n', w.nparam), ('w', w.wparam)):
            if kind not in c['cover'] and not torch.equal(p.posterior.natural_parameters(), w.__dict__.setdefault('keep' + kind, p.posterior.natural_parameters().clone())):
                return ctx.violation('uncovered', '%s: parameter %s changed' % (what, kind), case)
    # global divergence of the map
    t = w.gsm.transform
    kl = 0.
    for q in [t.weights, t.bias] + ([w.gsm.disc_transform.weights] if c['M'] else []):
        pp, qq = q.prior.params, q.posterior.params
        kl += kl_diag(qq.mean.detach(), 1e-4 + qq.log_diag_cov.detach().exp(), pp.mean, 1e-4 + pp.log_diag_cov.exp())
        if not close(pp.log_diag_cov, torch.full(pp.mean.shape, -math.log(w.strength), dtype=F), 1e-5) or bool((pp.mean != 0).any()):
            return ctx.violation('map-prior', 'prior of the map %s %s' % (pp.mean.tolist(), pp.log_diag_cov.tolist()), case)
    priors = w.gsm.latent_prior.kl_div_posterior_prior() + (w.dprior.kl_div_posterior_prior() + w.gsm.means.kl_div if c['M'] else 0.)
    got = float(w.gsm.kl_div_posterior_prior())
    if not close(got, kl + float(priors), 1e-6):
        return ctx.violation('global-divergence', '%s expected %s' % (got, kl + float(priors)), case)
    ctx.count('steps', len(case['hist']))


def generated(w, h):
    'Vectors generated from the current embeddings (values of the specification).'
    c, mp = w.cfg, w.maps[h['map']]
    out = []
    for u in range(w.U):
        cell, k = [], 0
        e = w.embs[h['emb'][u]]
        for p in w.case['params']:
            rows = []
            for _ in range(p['rows']):
                q = range(k, k + p['dim'])
                k += p['dim']
                rows.append([[[sum(mp['w'][b][l][i] * e[a][l] for l in range(c['L'])) + mp['b'][b][i] for i in q]
                              for a in range(c['A']) for b in range(c['B'])]])
            cell.append(rows)
        out.append(cell)
    return out


def norm_first(beer):
    'Order in which a mixture set lists its parameters.'
    n, w = make_param('ng', rnd(random.Random(1), 'ng', 1, 2), F, False), make_param('dir', rnd(random.Random(1), 'dir', 1, 1), F, False)
    ps = list(beer.MixtureSet(beer.CategoricalSet(w), beer.NormalSet(n)).bayesian_parameters())
    if len(ps) != 2 or {id(p) for p in ps} != {id(n), id(w)}:
        return None
    return ps[0] is n


# ------------------------------------------------------------------ the maps
def transform_case(ctx, beer, case):
    from beer.models import gsm as G
    c = case['c']
    t = lambda x: torch.tensor(x, dtype=F)
    x, y = t(case['x']), t(case['y'])

    def fix(value, n):
        def sample(k, *a, **kw):
            if k != n:
                raise AssertionError('%d samples instead of %d' % (k, n))
            return value.clone()
        return sample
    w = t(case['w']).reshape(c['s'], -1)
    if c['kind'] == 'linear':
        m = G.LinearTransform.create(c['nin'], c['nout'])
    elif c['kind'] == 'affine':
        m = G.AffineTransform.create(c['nin'], c['nout'])
    else:
        root = G.AffineTransform.create(c['root'], (c['nin'] + 1) * c['nout'])
        prior = beer.Normal.create(torch.zeros(c['root'], dtype=F), torch.ones(c['root'], dtype=F), cov_type='full')
        m = G.HierarchicalAffineTransform.create(prior, c['nin'], c['nout'], root, cov_type=ctx.rng.choice(['diagonal', 'full']))
        m.latent_posterior.sample = fix(t(case['z'])[None], c['a'])
    base = root if c['kind'] == 'hier' else m
    base.weights.posterior.sample = fix(w, c['s'])
    if c['kind'] != 'linear':
        base.bias.posterior.sample = fix(t(case['b']), c['s'])
    if (m.in_dim, m.out_dim) != (c['nin'], c['nout']):
        return ctx.violation('map-dimensions', '%s: %s -> %s' % (c, m.in_dim, m.out_dim), case)
    got = m(x, nsamples=c['a'], params_nsamples=c['s']) if c['kind'] == 'hier' else m(x, c['s'])
    if tuple(got.shape) != tuple(y.shape) or not close(got, y):
        return ctx.violation('map', '%s: %s expected %s' % (c, got.tolist(), y.tolist()), case)


# ------------------------------------------------------------- shmm commands
@contextlib.contextmanager
def means_only():
    'Samples of the latent variables and of the map are their means.'
    old, like = torch.randn, torch.randn_like
    torch.randn = lambda *a, **kw: old(*a, **kw) * 0.
    torch.randn_like = lambda *a, **kw: like(*a, **kw) * 0.
    try:
        yield
    finally:
        torch.randn, torch.randn_like = old, like


def emissions_of(loop, x):
    'Log-likelihoods of the frames for every state, group by group.'
    sets = loop.modelset.original_modelset.modelsets
    return [s.expected_log_likelihood(s.sufficient_statistics(x)).detach().double() for s in sets]


def vectors(gsm, posts):
    t = gsm.transform
    b = t.bias.posterior.params.mean.detach().double()
    w = t.weights.posterior.params.mean.detach().double().reshape(-1, len(b))
    return posts.params.mean.detach().double() @ w + b


def generated_llh(fam, d, nunits, nstates, k, nfirst, vec, x):
    'Likelihoods of the states of all the units from their generated vectors.'
    c = dict(fam=fam, D=d, K=k)
    n, w = {'ng': 2 * d, 'ing': d + 1, 'nw': 2 * d + d * (d - 1) // 2}[fam], k - 1
    out = []
    for u in range(nunits):
        v = (vec[u] / SC).tolist()
        if len(v) != nstates * k * n + nstates * w:
            return None
        nv, wv = (v[:nstates * k * n], v[nstates * k * n:]) if nfirst else (v[nstates * w:], v[:nstates * w])
        for s in range(nstates):
            ll = torch.stack([log_normal(fam, nv[(s * k + j) * n:(s * k + j + 1) * n], d, x) for j in range(k)], dim=-1)
            out.append(torch.logsumexp(ll + log_weights(wv[s * w:(s + 1) * w], k), dim=-1))
    return torch.stack(out, dim=-1)


TOPO = {1: [(0, 1, 1.), (1, 1, .5), (1, 2, .5)],
        2: [(0, 1, 1.), (1, 1, .5), (1, 2, .5), (2, 2, .75), (2, 3, .25)],
        3: [(0, 1, 1.), (1, 2, .5), (1, 3, .5), (2, 2, .5), (2, 3, .5), (3, 3, .25), (3, 4, .75)]}


def flow(ctx, beer, case, d, nf):
    import numpy as np
    import yaml
    import loopcases as lc
    from vlib import cli
    rng = ctx.rng
    dim, fam = rng.choice([1, 2, 3]), rng.choice(['ng', 'ing', 'nw'])
    cov = {'ng': 'diagonal', 'ing': 'isotropic', 'nw': 'full'}[fam]
    gi = case['target'] - 1
    conf, unit_lines, names = [], [], rng.sample(lc.NAMES, 6)
    for i in range(case['groups']):
        ns = rng.choice([1, 2, 3])
        k = rng.choice([1, 2, 3])
        conf.append(dict(group_name=lc.GROUPS[i], n_normal_per_state=k, prior_strength=1., noise_std=.5, cov_type=cov, shared_cov=False,
                         topology=[dict(start_id=a, end_id=b, trans_prob=t) for a, b, t in TOPO[ns]], ns=ns, k=k))
        unit_lines += ['%s %s' % (names.pop(), lc.GROUPS[i]) for _ in range(rng.choice([2, 3]) if i == gi else 1)]
    rng.shuffle(unit_lines)
    ns, k = conf[gi]['ns'], conf[gi]['k']
    nunits = sum(1 for u in unit_lines if u.split()[1] == lc.GROUPS[gi])
    f = lambda n: os.path.join(d, n)
    with open(f('conf.yml'), 'w') as h:
        yaml.safe_dump([{a: b for a, b in c.items() if a not in ('ns', 'k')} for c in conf], h)
    with open(f('units'), 'w') as h:
        h.write('\n'.join(unit_lines) + '\n')
    feats = {u: np.array([[rng.uniform(-2, 2) for _ in range(dim)] for _ in range(rng.choice([6, 9, 14]))], dtype=np.float32) for u in ('a', 'b', 'c')}
    ds = lc.make_dataset(d, feats)
    cli('hmm', 'mkphones', (['-d', ds] if rng.random() < .5 else ['-D', dim]) + [f('conf.yml'), f('units'), f('hmms')])
    cli('hmm', 'mkphoneloopgraph', [f('units'), f('graph')])
    cli('hmm', 'mkdecodegraph', [f('graph'), f('hmms'), f('dgraph')])
    cli('hmm', 'mkphoneloop', ['--weights-prior', 'dirichlet', f('dgraph'), f('hmms'), f('loop')])
    x = torch.tensor([[rng.uniform(-2, 2) for _ in range(dim)] for _ in range(4)])
    before = emissions_of(lc.load(f('loop')), x)
    tag = '%s, %d units of %d states, %d components, dimension %d, group %d of %d' % (cov, nunits, ns, k, dim, gi + 1, case['groups'])

    def check(loop_file, gsm_file, posts_file, what, others=before):
        loop, gsm, data = lc.load(f(loop_file)), lc.load(f(gsm_file)), lc.load(f(posts_file))
        if data[1:] != (nunits, ns, gi) or len(data[0]) != nunits:
            return ctx.violation('cli-posteriors', '%s: %s: the posteriors file says %s' % (tag, what, data[1:]), case)
        got = emissions_of(loop, x)
        want = generated_llh(fam, dim, nunits, ns, k, nf, vectors(gsm, data[0]), x.double())
        if want is None or not close(got[gi], want, 2e-3):
            return ctx.violation('cli-units', '%s: %s: the units of the loop have %s, the files generate %s' % (tag, what, got[gi].tolist(), want if want is None else want.tolist()), case)
        for i, (a, b) in enumerate(zip(got, others)):
            if i != gi and not close(a, b, 1e-5):
                return ctx.violation('cli-other-groups', '%s: %s: the units of group %d changed' % (tag, what, i + 1), case)
        return None

    def randomise(n):
        gsm, data = lc.load(f('gsm' + n)), lc.load(f('posts' + n))
        with torch.no_grad():
            for p in list(gsm.parameters()) + [data[0].params.mean]:
                p += torch.tensor([rng.uniform(-.6, .6) for _ in range(p.numel())]).reshape(p.shape)
        lc.dump(gsm, f('gsm' + n))
        lc.dump(data, f('posts' + n))

    with means_only():
        extra = []
        cli('shmm', 'mksphoneloop', ['-g', lc.GROUPS[gi], '-l', case['latent'], f('conf.yml'), f('loop'), f('gsm0'), f('posts0'), f('sp')])
        if check('sp', 'gsm0', 'posts0', 'mksphoneloop'):
            return
        if rng.random() < .4:
            # start from the posteriors of another training: they are kept
            randomise('0')
            init = lc.load(f('posts0'))[0].params.mean.detach().clone()
            lc.dump(lc.load(f('posts0')), f('given'))
            raw = open(f('given'), 'rb').read()
            cli('shmm', 'mksphoneloop', ['-g', lc.GROUPS[gi], '-l', case['latent'], '-p', f('given'), f('conf.yml'), f('loop'), f('gsm0'), f('posts0'), f('sp')])
            if open(f('given'), 'rb').read() != raw:
                return ctx.violation('cli-given-posteriors', '%s: mksphoneloop -p changed its input' % tag, case)
            if not torch.equal(lc.load(f('posts0'))[0].params.mean.detach(), init):
                return ctx.violation('cli-given-posteriors', '%s: mksphoneloop -p: embeddings are not those of the given posteriors' % tag, case)
            if check('sp', 'gsm0', 'posts0', 'mksphoneloop -p'):
                return
            ctx.count('given posteriors')
        randomise('0')
        cli('shmm', 'init', [f('gsm0'), f('posts0'), f('sp'), f('sp0')])
        if check('sp0', 'gsm0', 'posts0', 'init'):
            return
        # file names of every version: versions advance epoch by epoch
        files, cur, loop, n, nver = {(0, 0): '0'}, (0, 0), 'sp0', 0, 0
        others = before
        steps = {}
        for i, h in enumerate(case['hist']):
            n += 1
            out, what = 'sp_%d' % n, 'command %d of %s' % (i, [(y['op'], y['e']) for y in case['hist']])
            ver, src = tuple(h['ver']), tuple(h['src'])
            if h['op'] == 'init':
                cli('shmm', 'init', [f('gsm' + files[cur]), f('posts' + files[cur]), f(loop), f(out)])
            elif h['op'] == 'update':
                cli('hmm', 'accumulate', [f(loop), ds, f('elbo.pkl')], stdin='\n'.join(feats) + '\n')
                cli('hmm', 'update', [f(loop), f(out)], stdin=f('elbo.pkl') + '\n')
                acc = lc.load(f('elbo.pkl'))
                others = emissions_of(lc.load(f(out)), x)
            else:
                only = h['op'] == 'posts'
                opt = ['-p'] if only else []
                lr = ['-s', '.05', '-c', '.5']
                # reference: epoch by epoch, saving everything
                a, l = files[cur], loop
                steps = {cur: a}
                v = cur
                shutil.rmtree(f('ref'), ignore_errors=True)
                if os.path.exists(f('opt' + h['op'])):
                    shutil.copy(f('opt' + h['op']), f('optref'))
                elif os.path.exists(f('optref')):
                    os.unlink(f('optref'))
                for e in range(h['e']):
                    nver += 1
                    cli('shmm', 'train', opt + lr + ['-e', 1, '-o', f('optref'), f('gsm' + a), f('posts' + a), f(l), f('gsm%d' % nver), f('posts%d' % nver), f('ref%d' % e)])
                    if check('ref%d' % e, 'gsm' + a, 'posts' + a, what + ' epoch %d' % (e + 1), others):
                        return
                    a, l = str(nver), 'ref%d' % e
                    v = (v[0] + (not only), v[1] + 1)
                    steps[v] = a
                if rng.random() < .5:
                    opt = opt + ['-r', '1']
                cli('shmm', 'train', opt + lr + ['-e', h['e'], '-o', f('opt' + h['op']), f('gsm' + files[cur]), f('posts' + files[cur]), f(loop),
                                                 f('gsmx'), f('postsx'), f(out)])
                for name in ('gsm', 'posts'):
                    p, q = lc.load(f(name + 'x')), lc.load(f(name + a))
                    p, q = (p, q) if name == 'gsm' else (p[0], q[0])
                    if not all(close(r, s, 1e-4) for r, s in zip(p.state_dict().values(), q.state_dict().values())):
                        return ctx.violation('cli-resume', '%s: %s: %d epochs at once and one by one end with different %s' % (tag, what, h['e'], name), case)
                old, new = lc.load(f('gsm' + files[cur])), lc.load(f('gsmx'))
                same = all(torch.equal(r, new.state_dict()[q]) for q, r in old.state_dict().items() if not q.endswith('stats'))
                if only and not same:
                    return ctx.violation('cli-posteriors-only', '%s: %s: train -p changed the map' % (tag, what), case)
                if not only and same:
                    return ctx.violation('cli-train', '%s: %s: the map did not move' % (tag, what), case)
                if torch.equal(lc.load(f('posts' + files[cur]))[0].params.mean, lc.load(f('postsx'))[0].params.mean):
                    return ctx.violation('cli-train', '%s: %s: the embeddings did not move' % (tag, what), case)
                files = dict(steps)
                cur = ver
            loop = out
            if src in files:
                if check(loop, 'gsm' + files[src], 'posts' + files[src], what, others):
                    return
        ctx.count('commands', n)


def run(ctx):
    import beer
    nf = norm_first(beer)
    if nf is None:
        ctx.violation('parameters', 'a mixture set does not list its two parameters')
        return
    big = dict(MaxU=3, MaxS=2, MaxK=3, MaxD=3, MaxL=2, MaxA=2, MaxB=2, MaxC=2, MaxOps=3, NormFirst=nf)
    r = ctx.tlc('Subspace', big, invariants=['Tile', 'WalkRight', 'ReshapeRight', 'Own', 'Emit'], simulate=ctx.pick(220, 2500), depth=16, timeout=800)
    for i, case in enumerate(r.prints):
        with ctx.guard('raises', case):
            replay(ctx, beer, case)
        ctx.validated += 1
        if i % 50 == 7:
            ctx.sample(case)
        if ctx.enough():
            return
    r = ctx.tlc('SubspaceFlow', dict(MaxOps=4, MaxEpochs=3, MaxTotal=5, MaxGroups=2), invariants=['Fresh', 'MapFrozen'], workers=8)
    r = ctx.tlc('SubspaceFlow', dict(MaxOps=5, MaxEpochs=3, MaxTotal=6, MaxGroups=3), invariants=['Fresh', 'MapFrozen', 'Emit'],
                simulate=ctx.pick(14, 120), depth=12)
    for i, case in enumerate(r.prints):
        d = os.path.join(ctx.scratch, 'w')
        os.makedirs(d)
        with ctx.guard('commands-raise', case):
            flow(ctx, beer, case, d, nf)
        ctx.validated += 1
        shutil.rmtree(d, ignore_errors=True)
        if ctx.enough():
            return
    r = ctx.tlc('Transforms', dict(MaxIn=3, MaxOut=3, MaxN=2, MaxRoot=2, MaxS=2, Seeds=ctx.pick(1, 4)), invariants=['Partition', 'Affine', 'Emit'])
    for case in r.prints:
        with ctx.guard('map-raises', case):
            transform_case(ctx, beer, case)
        ctx.validated += 1
        if ctx.enough():
            return
