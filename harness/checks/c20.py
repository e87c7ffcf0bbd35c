'''C20: trees of model sets of spec/ModelSets.tla built from real sets; every
index and slice of the behaviour is compared with the columns it denotes.'''
import itertools
import torch
from conj import make_param


def rnd(rng, fam, d, n):
    q = lambda *a: [rng.choice(a), 4]
    out = []
    for _ in range(n):
        m = [q(-8, -3, 0, 1, 5, 9) for _ in range(d)]
        if fam == 'dir':
            s = dict(c=[q(1, 2, 5, 9, 14) for _ in range(d + 1)])
        elif fam == 'nw':
            o = rng.choice([-2, 0, 1, 3])
            s = dict(m=m, k=q(2, 4, 7), nu=[4 * d + rng.choice([1, 3, 9]), 4],
                     wi=[[[rng.choice([8, 11, 15]), 4] if i == j else [o, 4] for j in range(d)] for i in range(d)])
        else:
            s = dict(m=m, k=q(2, 4, 7), a=q(3, 6, 11), b=[q(2, 5, 9) for _ in range(d)] if fam == 'ng' else q(2, 5, 9))
        out.append(s)
    return out


class Built:
    'A real tree of sets with the parameters of every leaf and mixture row.'
    def __init__(self, ctx, beer, root, dtype):
        self.ctx, self.beer, self.dtype = ctx, beer, dtype
        self.rng = ctx.rng
        self.fam = self.rng.choice(['ng', 'ing', 'nw', 'dir'])
        self.d = self.rng.choice([1, 2, 3]) if self.fam != 'nw' else self.rng.choice([1, 2])
        self.params, self.where = [], {}
        self.root = self.build(root)

    def param(self, fam, d, ids, kind):
        p = make_param(fam, rnd(self.rng, fam, d, len(ids)), self.dtype, False, rnd(self.rng, fam, d, len(ids)))
        p.stats = torch.randn(p.stats.shape, dtype=self.dtype, generator=torch.Generator().manual_seed(self.rng.randrange(10 ** 6)))
        for r, i in enumerate(ids):
            self.where[kind, i] = (p, r)
        self.params.append(p)
        return p

    def build(self, n):
        b = self.beer
        if n['t'] == 'leaf':
            p = self.param(self.fam, self.d, n['ids'], 'c')
            return b.CategoricalSet(p) if self.fam == 'dir' else b.NormalSet(p)
        if n['t'] == 'joint':
            return b.JointModelSet([self.build(s) for s in n['subs']])
        sub = self.build(n['sub'])
        if n['t'] == 'rep':
            return b.RepeatedModelSet(sub, n['n'])
        if n['t'] == 'dyn':
            return b.DynamicallyOrderedModelSet(sub)
        if n['k'] > 1 and self.rng.random() < .3:
            s = b.MixtureSet.create(len(n['ws']), sub, self.rng.choice([1., 2.5]))
            p = s.categoricalset.weights
            for r, i in enumerate(n['ws']):
                self.where['w', i] = (p, r)
            self.params.append(p)
            return s
        return b.MixtureSet(b.CategoricalSet(self.param('dir', n['k'] - 1, n['ws'], 'w')), sub)

    def data(self, n):
        g = torch.Generator().manual_seed(self.rng.randrange(10 ** 6))
        if self.fam == 'dir':
            return torch.eye(self.d + 1, dtype=self.dtype)[torch.randint(self.d + 1, (n,), generator=g)]
        return 2 * torch.randn(n, self.d, dtype=self.dtype, generator=g)

    def snapshot(self):
        out = []
        for p in self.params:
            out += [p.stats, p.prior.natural_parameters(), p.posterior.natural_parameters(), p.prior.expected_sufficient_statistics()]
        return [x.clone() for x in out]


def same(a, b, tol):
    return a.shape == b.shape and bool(torch.isfinite(a).all()) and torch.allclose(a, b, rtol=tol, atol=tol)


def rows_of(acc):
    'Non zero rows of accumulated statistics, in order.'
    return [r for v in acc.values() for r in (v if v.dim() > 1 else v[None]) if r.abs().max() > 0]


def same_rows(a, b, tol):
    key = lambda r: [len(r)] + [round(float(x), 3) for x in r]
    a, b = sorted(a, key=key), sorted(b, key=key)
    return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))


def param_rows(b, comp, col):
    'Pairs (parameter of the component, row index in it, parameter of the set, its row).'
    def density(m):
        return [m.mean_precision if hasattr(m, 'mean_precision') else m.weights]
    def leaves(s):
        if hasattr(s, 'modelsets'):
            return [y for x in s.modelsets for y in leaves(x)]
        if hasattr(s, 'original_modelset'):
            return leaves(s.original_modelset)
        p = s.means_precisions if hasattr(s, 'means_precisions') else s.weights
        return [(p, i) for i in range(len(p))]
    if col['w'] == 0:
        return [(density(comp)[0], None) + b.where['c', col['cs'][0]]]
    out = [(comp.categorical.weights, None) + b.where['w', col['w']]]
    for (p, i), c in zip(leaves(comp.modelset), col['cs']):
        out.append((p, i) + b.where['c', c])
    return out


def row(t, i, single):
    return t.reshape(1, -1)[0] if i is None or t.dim() == 1 else t[i]


def check_view(ctx, b, view, cols, col0, stats, ref, tol, case, tag):
    'A view against the columns [col0, col0 + len(cols)) of the root.'
    n = len(cols)
    if len(view) != n:
        return ctx.violation('length', '%s has %d components, expected %d' % (tag, len(view), n), case)
    llh = view.expected_log_likelihood(stats)
    if not same(llh, ref[:, col0:col0 + n], tol):
        return ctx.violation('likelihood', '%s %s: expected likelihoods\n%s\nexpected\n%s' % (b.fam, tag, llh, ref[:, col0:col0 + n]), case)
    total = len(case['cols'])
    for c in range(n):
        r = torch.rand(len(stats), generator=torch.Generator().manual_seed(c), dtype=stats.dtype) + .1
        v, w = torch.zeros(len(stats), n, dtype=stats.dtype), torch.zeros(len(stats), total, dtype=stats.dtype)
        v[:, c], w[:, col0 + c] = r, r
        if not same_rows(rows_of(view.accumulate(stats, v)), rows_of(b.root.accumulate(stats, w)), tol):
            return ctx.violation('statistics', '%s %s: statistics of component %d' % (b.fam, tag, c), case)
    return False


def check_component(ctx, b, comp, col, c, stats, ref, tol, case, tag):
    llh = comp.expected_log_likelihood(stats).reshape(-1)
    if not same(llh, ref[:, c], tol):
        return ctx.violation('likelihood', '%s %s[%d]: expected likelihood %s, expected %s' % (b.fam, tag, c, llh, ref[:, c]), case)
    w = torch.zeros(len(stats), len(case['cols']), dtype=stats.dtype)
    w[:, c] = 1
    b.root.expected_log_likelihood(stats)
    if not same_rows(rows_of(comp.accumulate(stats)), rows_of(b.root.accumulate(stats, w)), tol):
        return ctx.violation('statistics', '%s %s[%d]: accumulated statistics' % (b.fam, tag, c), case)
    for p, i, q, r in param_rows(b, comp, col):
        for f in (lambda x: x.posterior.natural_parameters(), lambda x: x.prior.natural_parameters(), lambda x: x.natural_form(),
                  lambda x: x.stats):
            if not same(row(f(p), i, p), row(f(q), r, q), tol):
                return ctx.violation('parameters', '%s %s[%d]: parameters %s, expected %s' % (b.fam, tag, c, row(f(p), i, p), row(f(q), r, q)), case)
        if i is not None:
            continue
        vp, vq = p.value(), q.value()
        if not isinstance(vp, tuple):
            vp, vq = (vp,), (vq,)
        for x, y in zip(vp, vq):
            if not same(x.reshape(-1), y[r].reshape(-1), tol):
                return ctx.violation('parameters', '%s %s[%d]: expected value %s, expected %s' % (b.fam, tag, c, x, y[r]), case)
        kl, kq = p.kl_div_posterior_prior(), q.kl_div_posterior_prior()
        if not same(kl.reshape(-1), kq.reshape(-1)[r:r + 1], tol):
            return ctx.violation('parameters', '%s %s[%d]: divergence %s, expected %s' % (b.fam, tag, c, kl, kq[r]), case)
    if col['w'] == 0 and b.fam != 'dir':
        mean, prec = b.where['c', col['cs'][0]][0].value()
        i = b.where['c', col['cs'][0]][1]
        p = prec[i]
        cov = p.inverse() if b.fam == 'nw' else torch.diag(1 / p) if b.fam == 'ng' else torch.eye(b.d, dtype=p.dtype) / p
        if not same(comp.mean.reshape(-1), mean[i], tol) or not same(comp.cov, cov, tol):
            return ctx.violation('parameters', '%s %s[%d]: mean %s covariance %s, expected %s %s' % (b.fam, tag, c, comp.mean, comp.cov, mean[i], cov), case)
    return False


def train(ctx, b, comp, col, c, x, tol, case, tag):
    'One update of the component against the same update of the set.'
    import copy
    stats = b.root.sufficient_statistics(x)
    w = torch.zeros(len(x), len(case['cols']), dtype=x.dtype)
    w[:, c] = 1
    b.root.expected_log_likelihood(stats)
    acc = b.root.accumulate(stats, w)
    comp.expected_log_likelihood(stats)
    mine = comp.accumulate(stats)
    before = b.snapshot()
    pairs = param_rows(b, comp, col)
    expected = []
    for p, i, q, r in pairs:
        prior, post = row(q.prior.natural_parameters(), r, q), row(q.posterior.natural_parameters(), r, q)
        expected.append(post + .5 * (prior + row(acc[q], r, q) - post))
    done = {}
    for p, i, q, r in pairs:
        if p not in done:
            p.zero_stats()
            p.store_stats(mine[p])
            p.natural_grad_update(.5)
            done[p] = 1
    for (p, i, q, r), e in zip(pairs, expected):
        got = row(p.posterior.natural_parameters(), i, p)
        if not same(got, e, 20 * tol):
            return ctx.violation('update', '%s %s[%d]: updated parameters %s, expected %s' % (b.fam, tag, c, got, e), case)
    if not all(torch.equal(u, v) for u, v in zip(before, b.snapshot())):
        return ctx.violation('unchanged', '%s: updating the extracted component %s[%d] changed the set' % (b.fam, tag, c), case)
    return False


def retrain(b, x):
    'One update of the set: every parameter changes.'
    stats = b.root.sufficient_statistics(x)
    b.root.expected_log_likelihood(stats)
    w = torch.rand(len(x), len(b.root), dtype=x.dtype, generator=torch.Generator().manual_seed(b.rng.randrange(10 ** 6))) + .2
    acc = b.root.accumulate(stats, w)
    for p in b.params:
        p.zero_stats()
        p.store_stats(acc[p])
        p.natural_grad_update(.5)


def replay(ctx, beer, case, dtype, tol):
    b = Built(ctx, beer, case['root'], dtype)
    total = len(case['cols'])
    if len(b.root) != total:
        return ctx.violation('length', 'the set has %d components, expected %d' % (len(b.root), total), case)
    x = b.data(3)
    parts = [[]]
    for o in case['ops']:
        if o['op'] == 'update':
            parts.append([])
        else:
            parts[-1].append(o)
    for n, ops in enumerate(parts):
        if n:
            retrain(b, x)
            ctx.count('retrained')
        if extract(ctx, b, case, ops, x, tol, 'set' + ' (updated)' * bool(n), n == len(parts) - 1):
            return


def extract(ctx, b, case, ops, x, tol, name, last):
    total = len(case['cols'])
    stats = b.root.sufficient_statistics(x)
    before = b.snapshot()
    ref = b.root.expected_log_likelihood(stats).clone()
    # likelihoods of the columns from the plain sets alone
    comps = []
    for c, ok in enumerate(case['index']):
        comps.append(b.root[c] if ok else None)
    views, view, col0 = [], b.root, 0
    for o in ops:
        kind = ctx.rng.random()
        n = len(view)
        s = slice(o['a'] or (None if kind < .5 else 0), None if o['b'] == n and kind < .3 else o['b'] + 3 if o['b'] == n and kind < .5 else o['b'])
        view = view[s]
        col0 += o['a']
        views.append((view, o['cols'], col0, name + ''.join('[%d:%d]' % (u['a'], u['b']) for u in ops[:len(views) + 1])))
    for c, (comp, col) in enumerate(zip(comps, case['cols'])):
        if comp is not None and check_component(ctx, b, comp, col, c, stats, ref, tol, case, name):
            return True
    b.root.expected_log_likelihood(stats)
    for v, cols, c0, tag in views:
        if check_view(ctx, b, v, cols, c0, stats, ref, tol, case, tag):
            return True
        for i, col in enumerate(cols):
            if case['index'][c0 + i]:
                if check_component(ctx, b, v[i], col, c0 + i, stats, ref, tol, case, tag + ' component %d, column ' % i):
                    return True
    if all(case['index']):
        n = sum(1 for _ in itertools.islice(iter(b.root), total + 2))
        if n != total:
            return ctx.violation('length', 'iterating over a set of %d components yields %s' % (total, n), case)
    ctx.count('components', total)
    ctx.count('views', len(views))
    after = b.snapshot()
    if not all(torch.equal(u, v) for u, v in zip(before, after)) or not torch.equal(ref, b.root.expected_log_likelihood(stats)):
        return ctx.violation('unchanged', '%s: indexing changed the set' % b.fam, case)
    ok = [c for c in range(total) if comps[c] is not None]
    if not last:
        return False
    if ok:
        c = ctx.rng.choice(ok)
        if train(ctx, b, comps[c], case['cols'][c], c, x, tol, case, name):
            return True
        ctx.count('updates')
    v = views[-1] if views else None
    if v and case['index'][v[2]]:
        return train(ctx, b, v[0][0], v[1][0], v[2], x, tol, case, v[3])


def run(ctx):
    import beer
    inv = ['IndexRight', 'SliceRight', 'ViewRight', 'IndexOfSlice', 'Emit']
    r = ctx.tlc('ModelSets', dict(MaxLeaves=2, MaxLeafLen=2, MaxRep=2, MaxComps=2, MaxOps=1, MaxUpdates=1, MaxNodes=ctx.pick(4, 5)), invariants=inv)
    cases = r.prints
    if len(cases) > ctx.pick(500, 6000):
        cases = ctx.rng.sample(cases, ctx.pick(500, 6000))
    r = ctx.tlc('ModelSets', dict(MaxLeaves=3, MaxLeafLen=3, MaxRep=3, MaxComps=3, MaxOps=ctx.pick(4, 5), MaxUpdates=2, MaxNodes=7), invariants=inv,
                simulate=ctx.pick(600, 8000), depth=20)
    for i, case in enumerate(cases + r.prints):
        if len(case['cols']) > 60:
            continue
        dtype, tol = ((torch.float64, 1e-8), (torch.float32, 2e-3))[i % 6 == 5]
        with ctx.guard('raises', case):
            replay(ctx, beer, case, dtype, tol)
        ctx.validated += 1
        if i % 100 == 7:
            ctx.sample(case)
        if ctx.enough():
            return
