'''C08: state and unit posteriors of the cases of spec/UnitPost.tla through the
real posteriors command.  The emission model of the replays is not linear in
its statistics (llh = log of the feature), as that of mixtures.'''
import os
import shutil
import numpy as np
import torch
from vlib import cli
from hmmcases import compiled
from loopcases import make_dataset, dump
from stub import LogTable


def exps(case):
    z = case['post']['z']
    return np.array(case['post']['gamma']) / z, np.array(case['units']) / z


def batch(ctx, beer, case, others, d):
    os.makedirs(d, exist_ok=True)
    n = len(case['init'])
    order = ['u%d' % k for k in ctx.rng.sample(range(20), len(case['part']))]
    start = {o: a - 1 for o, (a, b) in zip(order, case['part'])}
    end = {o: b - 1 for o, (a, b) in zip(order, case['part'])}
    cg = compiled(beer, case, torch.float32)
    hmm = beer.HMM.create(cg, LogTable(n, torch.float32))
    hmm.start_pdf, hmm.end_pdf = start, end
    mdl = dump(hmm, os.path.join(d, 'm'))
    k = case['scale']
    scale, power = ctx.rng.choice([(k, 1), (1, k), (.5 * k, 2), (.25 * k, 4)])
    utts = {'utt%d' % i: c for i, c in enumerate([case] + others)}
    ds = make_dataset(d, {u: np.array(c['raw'], dtype=np.float32) ** power for u, c in utts.items()})
    out = os.path.join(d, 'out')
    os.makedirs(out)
    state, log = ctx.rng.random() < .35, ctx.rng.random() < .35
    argv, stdin = ['-s', scale] + (['-S'] if state else []) + (['-l'] if log else []), ''
    req = list(utts)
    if ctx.rng.random() < .6:
        req = [ctx.rng.choice(list(utts) + ['missing']) for _ in range(3)]
        argv += ['-u', '-']
        stdin = '\n'.join(req) + '\n'
    _, logger = cli('hmm', 'posteriors', argv + [mdl, ds, out], stdin=stdin)
    want = {u + '.npy' for u in req if u in utts}
    what = 'inventory %s scale %s%s%s init %s final %s trans %s' % (
        case['part'], scale, ' states' if state else '', ' log' if log else '', case['init'], case['final'], case['trans'])
    if set(os.listdir(out)) != want:
        return ctx.violation('files', '%s: requested %s, written %s' % (what, req, sorted(os.listdir(out))), case)
    for f in want:
        c = utts[f[:-4]]
        got = np.load(os.path.join(out, f)).astype(float)
        g, u = exps(c)
        ref = g if state else u
        if log:
            if not np.isfinite(got).all():
                return ctx.violation('log-floor', '%s frames %s: %s' % (what, c['raw'], got.tolist()), case)
            got = np.exp(got)
        if got.shape != ref.shape:
            return ctx.violation('shape', '%s: %s for %s' % (what, got.shape, ref.shape), case)
        if not np.allclose(got, ref, rtol=1e-4, atol=3e-5):
            return ctx.violation('posteriors', '%s frames %s: %s, expected %s' % (what, c['raw'], got.round(4).tolist(), ref.round(4).tolist()), case)
        ctx.validated += 1
    warned = ' '.join(logger.level('warning') + logger.level('error'))
    if 'missing' in req and 'missing' not in warned:
        return ctx.violation('missing', '%s: no warning for a missing utterance' % what, case)


def direct(ctx, beer, case):
    'HMM.posteriors against the responsibilities used in training, same scale.'
    n = len(case['init'])
    hmm = beer.HMM.create(compiled(beer, case, torch.float64), LogTable(n, torch.float64))
    k = case['scale']
    x = torch.tensor(case['raw'], dtype=torch.float64)
    g, _ = exps(case)
    got = hmm.posteriors(x, scale=k).detach().numpy()
    if got.shape != g.shape or not np.allclose(got, g, atol=1e-6):
        return ctx.violation('scale', 'scale %s frames %s: %s expected %s' % (k, case['raw'], got.tolist(), g.tolist()), case)
    # another inference graph: the same states listed in another order
    perm = ctx.rng.sample(range(n), n)
    c2 = dict(init=[case['init'][p] for p in perm], final=[case['final'][p] for p in perm],
              trans=[[case['trans'][p][q] for q in perm] for p in perm])
    got = hmm.posteriors(x, inference_graph=compiled(beer, c2, torch.float64, mapping=perm), scale=k).detach().numpy()
    if got.shape != g.shape or not np.allclose(got, g[:, perm], atol=1e-6):
        return ctx.violation('graph', 'order %s scale %s frames %s: %s expected %s' % (perm, k, case['raw'], got.tolist(), g[:, perm].tolist()), case)
    ctx.validated += 1


def run(ctx):
    import beer
    inv = ['Distribution', 'RowsSumToOne', 'UEmit']
    runs = [ctx.tlc('UnitPost', dict(S=2, T=2, InitVals=[0, 1], FinalVals=[1], TransVals=[0, 1], EmisVals=[1, 2], PrintOut=False, Scales=[1, 2]),
                    init='UInit', next_='UNext', invariants=inv, workers=8, timeout=600)]
    for s, t, num in ((3, 3, 250), (4, 3, 120), (5, 2, 60)):
        runs.append(ctx.tlc('UnitPost', dict(S=s, T=t, InitVals=[0, 1, 2], FinalVals=[0, 1], TransVals=[0, 1, 2] if s < 5 else [0, 1], EmisVals=[0, 1, 3] if s < 5 else [1, 2],
                                             PrintOut=False, Scales=[1, 2]),
                            init='UInit', next_='UNext', invariants=inv, simulate=ctx.pick(num, num * 10), depth=s + t + 4, timeout=800))
    cases = [c for r in runs for c in r.prints]
    seen, uniq = set(), []
    for c in cases:
        k = str(c)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    ctx.rng.shuffle(uniq)
    for case in uniq:
        with ctx.guard('posteriors-raises', case):
            direct(ctx, beer, case)
        if ctx.enough() or ctx.elapsed() > ctx.pick(150, 400):
            break
    same = {}
    for c in uniq:
        same.setdefault(str((c['init'], c['final'], c['trans'], c['part'], c['scale'])), []).append(c)
    groups = sorted(same.values(), key=lambda g: (-len(g[0]['init']), str(g[0]['part'])))
    ctx.rng.shuffle(groups)
    ctx.sample({k: groups[0][0][k] for k in ('part', 'scale', 'raw', 'units')})
    for i, g in enumerate(groups):
        d = os.path.join(ctx.scratch, 'w')
        with ctx.guard('command-raises', g[0]):
            batch(ctx, beer, g[0], g[1:3], d)
        shutil.rmtree(d, ignore_errors=True)
        if ctx.enough() or ctx.elapsed() > ctx.pick(220, 840):
            return
