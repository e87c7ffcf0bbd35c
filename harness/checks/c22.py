'''C22: masked networks of spec/ArNet.tla built from the real layers (dependency
of every output on every input measured by derivatives), the inverse
autoregressive flow on top of them, and configurations of spec/NnetConf.tla.'''
import copy
import io
import math
import pickle
import random
import torch

F = torch.float64


def positive(net, rng):
    'Positive weights: open paths cannot cancel.'
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.tensor([rng.uniform(.2, 1.) / max(1, p.shape[-1]) for _ in range(p.numel())]).reshape(p.shape))


def jac(fn, x):
    return torch.autograd.functional.jacobian(fn, x)


def dependency(net, dim, flow, rng):
    '''Which inputs the mean / variance of every coordinate depend on: derivative
    at some points and effect of large changes.'''
    dt = next(net.parameters()).dtype
    dep = torch.zeros(dim, dim + flow, dtype=torch.bool)
    for _ in range(2):
        x = torch.tensor([rng.uniform(-1, 1) for _ in range(dim + flow)], dtype=dt)

        def run(v):
            out = net(v[None, :dim], v[None, dim:]) if flow else net(v[None, :dim])
            if len(out) != 2 or any(tuple(o.shape) != (1, dim) for o in out):
                raise ValueError('output of shape %s' % [tuple(o.shape) for o in out])
            return out[0][0], out[1][0]
        for j in jac(run, x):
            dep |= j != 0
        base = run(x)
        for k in range(dim + flow):
            y = x.clone()
            y[k] += rng.choice([-5., 5.])
            for a, b in zip(base, run(y)):
                dep[:, k] |= a != b
    return dep


def train_step(net, dim, flow, rng, lr=.05):
    opt = torch.optim.SGD(net.parameters(), lr=lr)
    dt = next(net.parameters()).dtype
    x = torch.tensor([[rng.uniform(-1, 1) for _ in range(dim + flow)] for _ in range(4)], dtype=dt)
    m, v = net(x[:, :dim], x[:, dim:]) if flow else net(x[:, :dim])
    opt.zero_grad()
    ((x[:, :dim].roll(1, 1) - m) ** 2 / v + v.log()).sum().backward()
    opt.step()


def live(net, op, dim, flow, rng):
    if op == 'train':
        train_step(net, dim, flow, rng)
    elif op == 'save':
        f = io.BytesIO()
        torch.save(net, f)
        f.seek(0)
        other = pickle.loads(pickle.dumps(net))
        net = torch.load(f, weights_only=False) if rng.random() < .5 else other
    elif op == 'cast':
        net = net.double() if rng.random() < .6 else net.float()
    else:
        new = copy.deepcopy(net)
        new.load_state_dict(net.state_dict())
        net = new
    return net


def masked(ctx, beer, case):
    ar = beer.nnet.arnet
    rng = ctx.rng
    dim, flow = case['dim'], case['flow']
    prev = case['order']
    mods, last = [], dim
    for k, c in enumerate(case['layers']):
        m = ar.create_mask(prev, c)
        if m.tolist() != [[float(v) for v in row] for row in case['masks'][k]]:
            return ctx.violation('mask', 'create_mask(%s, %s) = %s, expected %s' % (prev, c, m.tolist(), case['masks'][k]), case)
        lin = ar.MaskedLinear(m, torch.nn.Linear(last, len(c)))
        mods.append(beer.nnet.neuralnetwork.MergeTransform(lin, torch.nn.Linear(flow, len(c))) if k == 0 and flow else lin)
        mods.append(torch.nn.Tanh())
        prev, last = c, len(c)
    m = ar.create_final_mask(case['order'], prev)
    if m.tolist() != [[float(v) for v in row] for row in case['final']]:
        return ctx.violation('mask', 'create_final_mask(%s, %s) = %s, expected %s' % (case['order'], prev, m.tolist(), case['final']), case)
    mods.append(ar.ARNetNormalDiagonalCovarianceLayer(m, last, dim))
    net = ar.SequentialMultipleInput(*mods).double()
    positive(net, rng)
    want = torch.tensor([row + [case['depflow'][d]] * flow for d, row in enumerate(case['dep'])], dtype=torch.bool)
    for n, op in enumerate([None] + case['hist']):
        if op:
            net = live(net, op, dim, flow, rng)
            trained = 'train' in case['hist'][:n]
        got = dependency(net, dim, flow, rng)
        # after training weights have any sign: closed paths stay closed
        bad = got & ~want if op and trained else got != want
        if bad.any():
            d, j = [int(v) for v in bad.nonzero()[0]]
            return ctx.violation('dependency', 'ordering %s, layers %s, after %s: output of coordinate %d %s input %d' % (
                case['order'], case['layers'], case['hist'][:n], d, 'depends on' if got[d, j] else 'ignores', j), case)
        x = torch.zeros(1, dim, dtype=next(net.parameters()).dtype)
        v = net(x, torch.zeros(1, flow, dtype=x.dtype))[1] if flow else net(x)[1]
        if not bool((v > 0).all()):
            return ctx.violation('variance', 'variance %s' % v.tolist(), case)
    return None


def library(ctx, beer, case):
    'Networks as the library draws them: never a forbidden path, wide ones use all the allowed ones.'
    rng = ctx.rng
    dim, flow, depth = case['dim'], case['flow'], len(case['layers'])
    wide = rng.random() < .5
    wide = wide or dim > 5
    width = (60 if dim <= 5 else 25 * dim) if wide else len(case['layers'][0])
    random.seed(rng.randrange(1 << 30))
    torch.manual_seed(rng.randrange(1 << 30))
    net = beer.nnet.arnet.AutoRegressiveNetwork(dim, flow, depth, width, rng.choice([torch.nn.Tanh(), torch.nn.Softplus(), torch.nn.Sigmoid()])).double()
    tag = 'AutoRegressiveNetwork(%d, %d, %d, %d)' % (dim, flow, depth, width)
    for n, op in enumerate([None] + case['hist']):
        if op is None and wide:
            positive(net, rng)
        elif op:
            net = live(net, op, dim, flow, rng)
        got = dependency(net, dim, flow, rng)
        for d in range(dim):
            for j in range(dim):
                if got[d, j] and j >= d:
                    return ctx.violation('causality', '%s after %s: coordinate %d depends on coordinate %d' % (tag, case['hist'][:n], d, j), case)
                if wide and op is None and j < d and not got[d, j]:
                    return ctx.violation('expressiveness', '%s: coordinate %d cannot use coordinate %d' % (tag, d, j), case)
        if flow and wide and op is None and not got[1:, dim:].all():
            return ctx.violation('conditioning', '%s: outputs ignore the conditioning variables: %s' % (tag, got[:, dim:].tolist()), case)
    ctx.count('library networks')
    return iaf(ctx, beer, case, net if not flow else None)


def iaf(ctx, beer, case, _):
    'Density of the samples of the flow: change of variables.'
    rng = ctx.rng
    dim, nin = case['dim'], 2
    fdim = max(1, case['flow'])
    steps = [beer.nnet.arnet.AutoRegressiveNetwork(dim, fdim, len(case['layers']), 3 + rng.randrange(3), torch.nn.Tanh()) for _ in range(rng.choice([1, 2, 3]))]
    base = beer.nnet.problayers.NormalDiagonalCovarianceLayer(nin, dim)
    layer = beer.nnet.problayers.InverseAutoRegressiveFlow(nin, fdim, base, steps).double()
    for s in steps:
        s.double()
    x = torch.tensor([[rng.uniform(-1, 1) for _ in range(nin)] for _ in range(3)], dtype=F)
    noise = torch.tensor([[rng.uniform(-2, 2) for _ in range(dim)] for _ in range(3)], dtype=F)
    old, like = torch.randn, torch.randn_like
    torch.randn = torch.randn_like = lambda *a, **k: noise.clone()
    try:
        params = layer(x)
        z, llh = layer.samples_and_llh(params)
    finally:
        torch.randn, torch.randn_like = old, like
    (mean, var), fp = params

    def push(e, i):
        flow = mean[i] + var[i].sqrt() * e
        for s in steps:
            m, v = s(flow[None], fp[i][None])
            flow = m[0] + v[0].sqrt() * flow
        return flow
    for i in range(3):
        want_z = push(noise[i], i)
        j = jac(lambda e: push(e, i), noise[i])
        want = -.5 * float((noise[i] ** 2).sum()) - .5 * dim * math.log(2 * math.pi) - float(torch.linalg.slogdet(j)[1])
        if not torch.allclose(z[i], want_z, atol=1e-9):
            return ctx.violation('flow-sample', 'sample %s expected %s' % (z[i].tolist(), want_z.tolist()), case)
        if abs(float(llh[i]) - want) > 1e-7 * (1 + abs(want)):
            return ctx.violation('flow-density', 'dimension %d, %d steps: log density %s, change of variables gives %s' % (dim, len(steps), float(llh[i]), want), case)
    ctx.count('flows')


# ------------------------------------------------------------ configurations
def element(e, rng):
    if e['kind'] != 'Linear':
        return e['kind'] + rng.choice(['', ' '])
    sp = rng.choice(['', ' '])
    args = ['in_features=%d' % e['i'], 'out_features=%d' % e['o']]
    if not e['bias']:
        args.append('bias=False')
    rng.shuffle(args)
    return 'Linear:' + sp + (';' + sp).join(args)


ACTS = {'Tanh': torch.tanh, 'ReLU': torch.relu, 'Sigmoid': torch.sigmoid, 'IdentityLayer': lambda x: x}


def config(ctx, beer, case):
    rng = ctx.rng
    conf = {'nnet_structure': []}
    for b in case['blocks']:
        blk = {'block_structure': [element(e, rng) for e in b['elems']]}
        if b['res'] != 'none':
            blk['residual'] = b['res'] if b['res'] == 'IdentityLayer' else 'Linear:in_features=%d;out_features=%d' % (b['i'], b['o'])
        elif rng.random() < .5:
            blk['residual'] = None
        conf['nnet_structure'].append(blk)
    keep = copy.deepcopy(conf)
    net = beer.nnet.neuralnetwork.create(conf)
    if conf != keep:
        return ctx.violation('config-changed', 'the configuration was modified', case)
    net = net.double()
    if sum(p.numel() for p in net.parameters()) != case['count']:
        return ctx.violation('config-size', '%d parameters, %d declared: %s' % (sum(p.numel() for p in net.parameters()), case['count'], conf), case)
    if len(net) != len(case['blocks']):
        return ctx.violation('config-blocks', '%d blocks for %d declared' % (len(net), len(case['blocks'])), case)
    x = torch.tensor([[rng.uniform(-1, 1) for _ in range(case['din'])] for _ in range(3)], dtype=F)
    ps = list(net.parameters())
    pos = 0
    h = x

    def lin(v, e, p):
        w = p.pop(0)
        if tuple(w.shape) != (e['o'], e['i']):
            raise ValueError('weights of shape %s for a %d -> %d layer' % (tuple(w.shape), e['i'], e['o']))
        v = v @ w.t()
        return v + p.pop(0) if e.get('bias', True) else v
    for b in case['blocks']:
        v = h
        for e in b['elems']:
            v = lin(v, e, ps) if e['kind'] == 'Linear' else ACTS[e['kind']](v)
        if b['res'] == 'IdentityLayer':
            v = v + h
        elif b['res'] == 'Linear':
            v = v + lin(h, dict(i=b['i'], o=b['o']), ps)
        h = v
    y = net(x)
    if tuple(y.shape) != tuple(h.shape) or not torch.allclose(y, h, atol=1e-9):
        return ctx.violation('config-output', '%s: %s expected %s' % (conf, y.tolist(), h.tolist()), case)
    ctx.count('configurations')


def residual(ctx, beer, dim, nb, width):
    net = beer.nnet.ResidualFeedForwardNet(dim, nb, width).double()
    ps = list(net.parameters())
    x = torch.tensor([[ctx.rng.uniform(-1, 1) for _ in range(dim)] for _ in range(3)], dtype=F)
    h = x
    for b in range(nb):
        w1, b1, w2, b2 = ps[4 * b:4 * b + 4]
        if w1.shape != (width, dim) or w2.shape != (dim, width):
            return ctx.violation('residual', 'block %d has layers of shape %s, %s' % (b, tuple(w1.shape), tuple(w2.shape)))
        h = torch.tanh(torch.tanh(h @ w1.t() + b1) @ w2.t() + b2) + h
    if len(ps) != 4 * nb or (net.dim_in, net.dim_out) != (dim, dim) or not torch.allclose(net(x), h, atol=1e-9):
        return ctx.violation('residual', 'residual network %d %d %d' % (dim, nb, width))


def run(ctx):
    import beer
    inv = ['Causal', 'FirstIsFree', 'Budget', 'Complete']
    ctx.tlc('ArNet', dict(MaxDim=3, MaxDepth=2, MaxWidth=2, MaxFlow=1, MaxOps=0), invariants=inv, workers=8)
    runs = [ctx.tlc('ArNet', dict(MaxDim=3, MaxDepth=1, MaxWidth=3, MaxFlow=1, MaxOps=0), invariants=inv + ['Emit'], workers=8)]
    for kw, num in ((dict(MaxDim=4, MaxDepth=3, MaxWidth=3, MaxFlow=2, MaxOps=2), ctx.pick(60, 600)),
                    (dict(MaxDim=5, MaxDepth=2, MaxWidth=4, MaxFlow=1, MaxOps=3), ctx.pick(25, 200))):
        runs.append(ctx.tlc('ArNet', kw, invariants=inv + ['Emit'], simulate=num, depth=14, timeout=800))
    for r in runs:
        for i, case in enumerate(r.prints):
            with ctx.guard('raises', case):
                masked(ctx, beer, case)
                if case['hist'] or i % 9 == 0:
                    library(ctx, beer, case)
            ctx.validated += 1
            if i % 60 == 11:
                ctx.sample(case)
            if ctx.enough():
                return
    r = ctx.tlc('NnetConf', dict(MaxBlocks=3, MaxElems=3, Dims=[1, 2, 3], Acts=['Tanh', 'ReLU', 'Sigmoid', 'IdentityLayer']),
                invariants=['Chain', 'Emit'], simulate=ctx.pick(150, 1500), depth=20)
    for case in r.prints:
        with ctx.guard('config-raises', case):
            config(ctx, beer, case)
        ctx.validated += 1
        if ctx.enough():
            return
    # many coordinates: theorem Complete (every budget is drawn in a wide layer)
    for dim in ctx.pick([9, 17], [9, 13, 17, 24, 33]):
        for flow in (0, 1):
            case = dict(dim=dim, flow=flow, layers=[[0]] * ctx.rng.choice((1, 2)), hist=['save'])
            with ctx.guard('many-coordinates', case):
                library(ctx, beer, case)
            ctx.validated += 1
    # a single coordinate depends on nothing
    for depth in (1, 2):
        for flow in (0, 1):
            case = dict(dim=1, flow=flow, layers=[[0, 0]] * depth, hist=['train', 'save', 'train'])
            with ctx.guard('single-coordinate', case):
                library(ctx, beer, case)
    for dim in (1, 2, 4):
        for nb in (1, 2, 3):
            with ctx.guard('residual-raises', None):
                residual(ctx, beer, dim, nb, 1 + (dim + nb) % 3)
