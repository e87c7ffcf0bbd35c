'''C31: histories of spec/ModelLife.tla (copies, pickles, casts, sharing,
replacements, training, evaluation) on real models.  The value a parameter must
have is computed by training a fresh model once per "fit" of the specification.'''
import copy, io, os, pickle
import torch

F64 = torch.float64
DIM, NPOS = 2, 4
SETS = ('full', 'diagonal', 'isotropic', 'mixtures', 'joint', 'repeated')
ROOTS = ('mixture', 'hmm', 'loop', 'bigram')


def make_set(beer, kind, gen):
    rnd = lambda: torch.rand(DIM, generator=gen, dtype=F64)
    normals = lambda n, ct: beer.NormalSet.create(rnd(), rnd() + .5, n, prior_strength=2., noise_std=1., cov_type=ct)
    if kind in ('full', 'diagonal', 'isotropic'):
        return normals(NPOS, kind)
    if kind == 'mixtures':
        return beer.MixtureSet.create(NPOS, normals(2 * NPOS, 'diagonal'), prior_strength=2.)
    if kind == 'joint':
        return beer.JointModelSet([normals(1, 'diagonal'), normals(NPOS - 1, 'diagonal')])
    return beer.RepeatedModelSet(normals(NPOS // 2, 'diagonal'), 2)


def graph(beer):
    'two units of two states, looping'
    g = beer.graph.Graph()
    s, e = g.add_state(), g.add_state()
    g.start_state, g.end_state = s, e
    st = [g.add_state(pdf_id=i) for i in range(NPOS)]
    for u in (0, 2):
        g.add_arc(s, st[u], weight=.5)
        g.add_arc(st[u], st[u], weight=.5)
        g.add_arc(st[u], st[u + 1], weight=.5)
        g.add_arc(st[u + 1], st[u + 1], weight=.25)
        g.add_arc(st[u + 1], e, weight=.25)
        for v in (0, 2):
            g.add_arc(st[u + 1], st[v], weight=.25)
    return g.compile()


def make_root(beer, kind, ms, dtype=F64):
    'over the densities ms'
    if kind == 'mixture':
        return beer.Mixture.create(ms, prior_strength=2.)
    g = graph(beer).to(dtype)
    if kind == 'hmm':
        return beer.HMM.create(g, ms)
    start, end = {'a': 0, 'b': 2}, {'a': 1, 'b': 3}
    cls = beer.PhoneLoop if kind == 'loop' else beer.BigramPhoneLoop
    return cls.create(g, start, end, ms, prior_strength=2.)


def the_set(root):
    ms = root.modelset
    return ms.original_modelset if hasattr(ms, 'original_modelset') else ms


def set_params(ms, kind):
    if kind == 'mixtures':
        return [ms.modelset.means_precisions, ms.categoricalset.weights]
    if kind == 'joint':
        return [m.means_precisions for m in ms.modelsets]
    if kind == 'repeated':
        return [ms.modelset.means_precisions]
    return [ms.means_precisions]


def own_params(root, kind):
    return {'mixture': lambda: [root.categorical.weights], 'hmm': list, 'loop': lambda: [root.categorical.weights],
            'bigram': lambda: [root.categoricalset.weights]}[kind]()


class Root:
    def __init__(self, obj, kind, skind):
        self.obj, self.kind, self.skind, self.optim = obj, kind, skind, None

    def params(self):
        return set_params(the_set(self.obj), self.skind) + own_params(self.obj, self.kind)


def read(p):
    return tuple(x.natural_parameters().detach().double().clone() for x in (p.prior, p.posterior))


def dtype_of(root):
    return root.params()[0].posterior.natural_parameters().dtype


def fit(beer, root, data, fast=False):
    if root.optim is None:
        root.optim = beer.VBConjugateOptimizer(root.obj.mean_field_factorization(), lrate=1.)
    root.optim.init_step()
    elbo = beer.evidence_lower_bound(root.obj, data.to(dtype_of(root)), datasize=2 * len(data))
    elbo.backward()
    root.optim.step()
    return float(elbo)


def evaluate(beer, root, data):
    x = data.to(dtype_of(root))
    stats = root.obj.sufficient_statistics(x)
    frames = root.obj.expected_log_likelihood(stats).detach().double().clone()
    posts = root.obj.posteriors(x).detach().double().clone() if hasattr(root.obj, 'posteriors') else None
    return frames, posts, torch.tensor(float(beer.evidence_lower_bound(root.obj, x)))


class Reference:
    'Values of the specification, each computed with a fresh model.'
    def __init__(self, beer, case, batches):
        self.beer, self.vals, self.batches, self.known = beer, case['vals'], batches, {}

    def fresh(self, kind, skind, ids):
        ms = make_set(self.beer, skind, torch.Generator().manual_seed(99))
        root = Root(make_root(self.beer, kind, ms), kind, skind)
        for p, i in zip(root.params(), ids):
            prior, post = self.value(i)
            p.prior.update_from_natural_parameters(prior.clone())
            p.posterior.update_from_natural_parameters(post.clone())
            p.dispatch()
        return root

    def value(self, i):
        if i not in self.known:
            v = self.vals[i - 1]
            root = self.fresh(v['kind'], v['set'], v['ins'])
            fit(self.beer, root, self.batches[v['b'] - 1])
            for j, w in enumerate(self.vals):
                if w['op'] == 'fit' and (w['kind'], w['set'], w['b'], w['ins']) == (v['kind'], v['set'], v['b'], v['ins']):
                    self.known[j + 1] = read(root.params()[w['slot'] - 1])
        return self.known[i]


def near(a, b, tol):
    return a.shape == b.shape and bool(((a - b).abs() <= tol * (1 + b.abs())).all())


def clone(ctx, objs, how):
    if how == 'deepcopy':
        return copy.deepcopy(objs)
    if how == 'pickle':
        return pickle.loads(pickle.dumps(objs))
    path = os.path.join(ctx.scratch, 'models')
    torch.save(objs, path)
    try:
        return torch.load(path, weights_only=False)
    except TypeError:
        return torch.load(path)


def text(case, n):
    return 'models %s; %s' % (case['roots'], [(h['op'], h['r'] or h['rs'], h['how'] or h['b']) for h in case['hist'][:n + 1]])


def replay(ctx, beer, case):
    rng = ctx.rng
    gen = torch.Generator().manual_seed(rng.randrange(1 << 30))
    batches = [torch.randn(n, DIM, generator=gen, dtype=F64) * 1.5 for n in (5, 8, 3)]
    ref = Reference(beer, case, batches)
    roots, single = [], False
    torch.manual_seed(rng.randrange(1 << 30))
    tol = 1e-7

    def register(k, ids):
        for p, i in zip(roots[k].params(), ids):
            if case['vals'][i - 1]['op'] == 'new':
                ref.known.setdefault(i, read(p))

    def compare(k, data, what):
        h = case['hist'][n]['snap'][k]
        a, b = evaluate(beer, roots[k], data), evaluate(beer, ref.fresh(roots[k].kind, roots[k].skind, h), data)
        for name, x, y in zip(('frame objectives', 'posteriors', 'objective'), a, b):
            if x is not None and not near(x.double(), y.double(), 10 * tol):
                ctx.violation('behaviour', '%s: %s of model %d (%s over %s) are %s, a fresh model with its parameters has %s' % (
                    text(case, n), name, k + 1, roots[k].kind, roots[k].skind, x.tolist(), y.tolist()), case)
                return True
        return False

    for n, h in enumerate(case['hist']):
        spec = case['roots']
        if h['op'] == 'create':
            r = spec[len(roots)]
            roots.append(Root(make_root(beer, r['kind'], make_set(beer, r['set'], gen)), r['kind'], r['set']))
            register(len(roots) - 1, h['snap'][len(roots) - 1])
        elif h['op'] == 'share':
            r, ms = spec[len(roots)], the_set(roots[h['r'] - 1].obj)
            obj = make_root(beer, r['kind'], ms, dtype_of(roots[h['r'] - 1]))
            roots.append(Root(obj, r['kind'], r['set']))
            register(len(roots) - 1, h['snap'][len(roots) - 1])
        elif h['op'] == 'copy':
            for obj, r in zip(clone(ctx, [roots[r - 1].obj for r in h['rs']], h['how']), h['rs']):
                roots.append(Root(obj, roots[r - 1].kind, roots[r - 1].skind))
        elif h['op'] == 'train':
            fit(beer, roots[h['r'] - 1], batches[h['b'] - 1])
        elif h['op'] == 'eval':
            if compare(h['r'] - 1, batches[h['b'] - 1], 'evaluation'):
                return
        elif h['op'] == 'replace':
            r, s = roots[h['r'] - 1], roots[h['rs'][0] - 1]
            olds, news = set_params(the_set(r.obj), r.skind), set_params(the_set(s.obj), s.skind)
            if dtype_of(r) != dtype_of(s):
                both = [x for x in roots]
                for x in both:
                    x.obj.double()
            r.obj.replace_parameters({a: b for a, b in zip(olds, news) if a is not b})
            for x in roots:
                x.optim = None
        elif h['op'] == 'cast':
            for r in h['rs']:
                x = roots[r - 1].obj
                x.float() if h['how'] == 'float' else x.double()
            if h['how'] == 'float':
                tol = 2e-3
        for k, ids in enumerate(h['snap']):
            for j, (p, i) in enumerate(zip(roots[k].params(), ids)):
                for what, x, y in zip(('prior', 'posterior'), read(p), ref.value(i)):
                    if not near(x, y, tol):
                        ctx.violation('values', '%s: %s of parameter %d of model %d (%s over %s) is %s, expected %s' % (
                            text(case, n), what, j + 1, k + 1, roots[k].kind, roots[k].skind, x.tolist(), y.tolist()), case)
                        return
    for k in range(len(roots)):
        if compare(k, batches[rng.randrange(3)], 'end'):
            return
    ctx.count('operations', len(case['hist']))


def run(ctx):
    import beer
    q = lambda s: ['"%s"' % x for x in s]
    inv = ['Interned', 'WellFormed']
    props = ['Isolation', 'Quiet', 'Faithful']
    ctx.tlc('ModelLife', dict(MaxRoots=3, MaxOps=4, NBatch=1, SetKinds=q(['diagonal']), RootKinds=q(['loop', 'hmm']), Methods=q(['deepcopy'])),
            spec='Spec', invariants=inv, properties=props, workers=8, timeout=800)
    seen = set()
    for kinds, ops, num in ((SETS, 7, 260), (('diagonal', 'mixtures'), 10, 120)):
        r = ctx.tlc('ModelLife', dict(MaxRoots=4, MaxOps=ops, NBatch=3, SetKinds=q(kinds), RootKinds=q(ROOTS), Methods=q(['deepcopy', 'pickle', 'file'])),
                    spec='Spec', invariants=inv + ['Emit'], properties=props, simulate=ctx.pick(num, num * 12), depth=ops + 3, timeout=800)
        for k, case in enumerate(r.prints):
            key = text(case, len(case['hist']))
            if key in seen:
                continue
            seen.add(key)
            with ctx.guard('raises', dict(hist=[{a: b for a, b in h.items() if a != 'snap'} for h in case['hist']], roots=case['roots'])):
                replay(ctx, beer, case)
            ctx.validated += 1
            if k % 40 == 7:
                ctx.sample(case)
            if ctx.enough():
                return
