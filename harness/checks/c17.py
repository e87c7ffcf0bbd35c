'''C17: archives and programs of spec/Dataset.tla through the real archive and
create commands and the Dataset API; the recorded calls are validated by TLC.'''
import json
import os
import pickle
import shutil
import numpy as np
import torch
from conj import fl
from loopcases import load
from vlib import cli

IDS = ['b', 'A', '10', '9', 'utt_1', 'utt-1', 'utt.2', 'z9', 'z10', 'B', 'é', 'npy', 'a b']


def store(ctx, utts):
    'a storage type that holds the values exactly'
    v = np.array([x for u in utts for f in u for x in f], dtype='i8')
    return np.dtype(ctx.rng.choice([t for t in ('f4', 'f8', 'f2', 'i2', 'i4', 'i8', 'u1', 'u2', 'i1')
                                    if (t[0] == 'f' or (np.iinfo(t).min <= v.min() and v.max() <= np.iinfo(t).max)) and (v.astype(t).astype('i8') == v).all()]))


def same_features(x, exp):
    return isinstance(x, torch.Tensor) and x.dtype == torch.float32 and tuple(x.shape) == exp.shape and bool((x.numpy() == exp).all())


def one(ctx, case, d):
    os.makedirs(d)
    names = sorted(ctx.rng.sample(IDS, len(case['utts'])))
    dim = len(case['mean'])
    # theorem OffsetMovesMean: a constant added to a feature moves its mean only
    off = [ctx.rng.choice(case['offsets']) if ctx.rng.random() < .4 else 0 for _ in range(dim)]
    utts = [[[x + o for x, o in zip(f, off)] for f in u] for u in case['utts']]
    dt = store(ctx, utts)
    feats = [np.array(u, dtype=dt).reshape(-1, dim) for u in utts]
    ext = ctx.rng.choice(['npy', 'npy', 'fea'])
    fd = os.path.join(d, 'fea')
    os.makedirs(fd)
    for n, x in ctx.rng.sample(list(zip(names, feats)), len(names)):
        with open(os.path.join(fd, '%s.%s' % (n, ext)), 'wb') as f:
            np.save(f, np.asfortranarray(x) if ctx.rng.random() < .3 else x)
    with open(os.path.join(fd, 'README.txt'), 'w') as f:
        f.write('not a feature file')
    npz, dsp = os.path.join(d, 'x.npz'), os.path.join(d, 'dataset')
    cli('features', 'archive', (['-e', ext] if ext != 'npy' or ctx.rng.random() < .3 else []) + [fd, npz])
    back = os.getcwd()
    if ctx.rng.random() < .5:
        os.chdir(d)
    try:
        cli('dataset', 'create', [d, os.path.relpath(npz), dsp])
    finally:
        os.chdir(back)
    ds = load(dsp)
    what = 'identifiers %s stored as %s frames %s' % (names, dt, utts)
    mean = [m + o for m, o in zip(fl(case['mean']), off)]
    for k, v, exp in (('mean', ds.mean, mean), ('var', ds.var, fl(case['var']))):
        # exact up to the rounding to single precision, and up to the rounding of
        # the moments in double precision
        slack = [2e-6 * (1 + abs(e)) + 1e-13 * m * m for e, m in zip(exp, mean)]
        if list(v.shape) != [dim] or any(not abs(g - e) <= t for g, e, t in zip(v.tolist(), exp, slack)):
            return ctx.violation('statistics', '%s: %s is %s, expected %s' % (what, k, v.tolist(), exp), case)
    calls, its = [], []
    for h in case['hist']:
        c = {k: h[k] for k in h if k != 'res'}
        if h['op'] == 'iter':
            its.append(ds.utterances(random_order=False) if h['mode'] == 'sorted' else
                       (ds.utterances() if ctx.rng.random() < .5 else ds.utterances(random_order=True)))
            its[-1] = iter(its[-1])
        elif h['op'] == 'next':
            u = next(its[h['it'] - 1], None)
            c['res'] = 0
            if u is not None:
                k = names.index(u.id) if u.id in names else -1
                c['res'] = k + 1 if k >= 0 and same_features(u.features, feats[k].astype('f4')) else 99
        elif h['op'] == 'get':
            try:
                u = ds[names[h['key'] - 1] if h['key'] else ctx.rng.choice(['nobody', names[0] + 'x', '', names[0] + '.' + ext])]
                k = names.index(u.id) if u.id in names else -1
                c['res'] = k + 1 if k >= 0 and same_features(u.features, feats[k].astype('f4')) else 99
            except KeyError:
                c['res'] = 0
        elif h['op'] == 'len':
            c['res'] = len(ds)
        elif h['op'] == 'size':
            c['res'] = ds.size if ds.size == int(ds.size) else 99
        elif h['op'] == 'reload':
            new = pickle.loads(pickle.dumps(ds)) if ctx.rng.random() < .7 else load(dsp)
            if h['mode'] == 'switch':
                ds = new
            elif not torch.equal(new.mean, ds.mean) or not torch.equal(new.var, ds.var) or new.size != ds.size:
                return ctx.violation('reload', '%s: description changed by saving' % what, case)
        calls.append(c)
    # afterwards the description is unchanged
    again = load(dsp)
    if not (torch.equal(ds.mean, again.mean) and torch.equal(ds.var, again.var) and ds.size == again.size):
        return ctx.violation('reload', '%s: description changed by use' % what, case)
    return dict(utts=case['utts'], calls=calls, what=what)


def copies(ctx, case, d):
    'theorem Copies: every utterance stored many times.'
    os.makedirs(d)
    k = ctx.rng.choice([40, 150, 300])
    dim, N = len(case['mean']), len(case['utts'])
    arch = {'u%d-%d' % (i, j): np.array(u, dtype='f4').reshape(-1, dim) for i, u in enumerate(case['utts']) for j in range(k)}
    npz, dsp = os.path.join(d, 'x.npz'), os.path.join(d, 'dataset')
    order = list(arch)
    ctx.rng.shuffle(order)
    # the utterances one after the other, or mixed
    np.savez(npz, **{n: arch[n] for n in (sorted(arch) if ctx.rng.random() < .5 else order)})
    cli('dataset', 'create', [d, npz, dsp])
    ds = load(dsp)
    what = '%d copies of %s' % (k, case['utts'])
    if len(ds) != k * N or ds.size != k * case['size']:
        return ctx.violation('size', '%s: %d utterances, %s frames' % (what, len(ds), ds.size), case)
    for n, v, exp in (('mean', ds.mean, fl(case['mean'])), ('var', ds.var, fl(case['var']))):
        if any(not abs(g - e) <= 2e-6 * (1 + abs(e)) for g, e in zip(v.tolist(), exp)):
            return ctx.violation('statistics', '%s: %s is %s, expected %s' % (what, n, v.tolist(), exp), case)
    for r in (False, True):
        seen = [(u.id, same_features(u.features, arch[u.id]) if u.id in arch else None) for u in ds.utterances(random_order=r)]
        ids = [s[0] for s in seen]
        if sorted(ids) != sorted(arch) or not all(s[1] for s in seen) or (not r and ids != sorted(arch)):
            return ctx.violation('calls', '%s: iteration gives %d utterances' % (what, len(ids)), case)
    ctx.count('archives_of_copies')


def randomness(ctx, d):
    'random order is a different order'
    from beer.cli.dataset import Dataset
    fd = os.path.join(d, 'f')
    os.makedirs(fd)
    names = ['u%d' % i for i in range(8)]
    np.savez(os.path.join(d, 'r.npz'), **{n: np.ones((1, 1)) for n in names})
    ds = Dataset(os.path.join(d, 'r.npz'), torch.zeros(1), torch.ones(1), 8)
    orders = {tuple(u.id for u in ds.utterances()) for _ in range(20)}
    if any(sorted(o) != names for o in orders) or len(orders) < 2:
        ctx.violation('random-order', 'iterations %s' % sorted(orders))
    ctx.count('random_orders_seen', len(orders))


def run(ctx):
    inv = ['NoRepeat', 'VarNonNegative', 'OffsetMovesMean', 'Copies', 'Emit']
    runs = [ctx.tlc('Dataset', dict(MaxUtts=2, MaxFrames=1, Dim=1, MaxOps=3, MaxIters=2), invariants=inv, workers=8),
            ctx.tlc('Dataset', dict(MaxUtts=5, MaxFrames=4, Dim=2, MaxOps=18, MaxIters=3), invariants=inv, next_='SimNext',
                    simulate=ctx.pick(900, 9000), depth=90, timeout=800),
            ctx.tlc('Dataset', dict(MaxUtts=7, MaxFrames=2, Dim=1, MaxOps=40, MaxIters=4), invariants=inv, next_='SimNext',
                    simulate=ctx.pick(200, 2000), depth=120, timeout=800)]
    small = [c for c in runs[0].prints]
    ctx.rng.shuffle(small)
    cases = small[:ctx.pick(300, 6000)] + runs[1].prints + runs[2].prints
    ctx.rng.shuffle(cases)
    ctx.sample(dict(utts=cases[-1]['utts'], hist=cases[-1]['hist']))
    traces = []
    for i, case in enumerate(cases):
        if i % 60 == 7:
            with ctx.guard('copies-raise', case):
                copies(ctx, case, os.path.join(ctx.scratch, 'c'))
            shutil.rmtree(os.path.join(ctx.scratch, 'c'), ignore_errors=True)
        d = os.path.join(ctx.scratch, 'w')
        with ctx.guard('raises', case):
            t = one(ctx, case, d)
            if t:
                traces.append((t, case))
        shutil.rmtree(d, ignore_errors=True)
        if ctx.enough() or ctx.elapsed() > ctx.pick(120, 600):
            break
    d = os.path.join(ctx.scratch, 'r')
    os.makedirs(d)
    with ctx.guard('random-order'):
        randomness(ctx, d)
    if traces:
        r = ctx.tlc('TraceDataset', dict(MaxUtts=9, MaxFrames=9, Dim=1, MaxOps=99, MaxIters=9), init='TInit', next_='TNext', invariants=['Accepted'],
                    extra_modules={'traces.json': json.dumps([{k: t[k] for k in ('utts', 'calls')} for t, _ in traces])}, timeout=800)
        acc = {x['t'] - 1 for x in r.prints}
        for i, (t, case) in enumerate(traces):
            if i not in acc:
                ctx.violation('calls', '%s: calls %s' % (t['what'], t['calls']), case)
            ctx.validated += 1
