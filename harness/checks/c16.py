'''C16: the real train command: behaviours of spec/BatchTrain.tla with a
prescribed visiting order, and recorded runs validated against it.'''
import json
import os
import shutil
import numpy as np
import torch
from checks.c15 import LOOP, features, names_for, natural, posts, same
from conj import fl
from loopcases import build, dump, load, make_dataset
from stub import CountStub, VISITS, VisitStub, ordered
from vlib import cli


def brief(case):
    return 'groups %s utterances %s batch %s epochs %s rate %s' % (
        case['groups'], [(u['nf'], u['ones']) for u in case['utts']], case['bsize'], case['epochs'], case['rate'] / 4)


def options(ctx, case):
    b = case['bsize'] or ctx.rng.choice([None, -1, 0])
    argv = [] if b is None else ['-b', b]
    if case['epochs'] != 1 or ctx.rng.random() < .5:
        argv += ['-e', case['epochs']]
    if case['rate'] != 4 or ctx.rng.random() < .5:
        argv += ['-l', case['rate'] / 4]
    return argv


def given_order(ctx, case, d):
    os.makedirs(d)
    names = names_for(ctx.rng, len(case['utts']))
    ds = load(make_dataset(d, {n: features(u) for n, u in zip(names, case['utts'])}))
    orders = [[names[u - 1] for h in case['hist'] if h['epoch'] == e + 1 for u in h['batch']] for e in range(case['epochs'])]
    dsp = dump(ordered(ds, orders), os.path.join(d, 'ordered'))
    model = dump(CountStub(fl(case['prior']), case['groups'], False), os.path.join(d, 'in.mdl'))
    before = open(model, 'rb').read()
    out = os.path.join(d, 'out.mdl')
    cli('hmm', 'train', options(ctx, case) + [model, dsp, out])
    got = posts(load(out))
    if not same(got, fl(case['post'])):
        return ctx.violation('posterior', '%s: batches %s: posterior %s, expected %s' % (
            brief(case), [h['batch'] for h in case['hist']], got, fl(case['post'])), case)
    if open(model, 'rb').read() != before:
        return ctx.violation('input-model', '%s: the input model file changed' % brief(case), case)
    ctx.count('given_order_runs')


def recorded(ctx, case, d):
    'run with the real data set; returns the recorded trace and the final posterior'
    os.makedirs(d)
    names = names_for(ctx.rng, len(case['utts']))
    feats = {n: np.concatenate([features(u), np.full((u['nf'], 1), k + 1, dtype=np.float32)], axis=1)
             for k, (n, u) in enumerate(zip(names, case['utts']))}
    ds = make_dataset(d, feats)
    model = dump(VisitStub(fl(case['prior']), case['groups'], False), os.path.join(d, 'in.mdl'))
    del VISITS[:]
    out = os.path.join(d, 'out.mdl')
    cli('hmm', 'train', options(ctx, case) + [model, ds, out])
    tr = {k: case[k] for k in ('groups', 'utts', 'bsize', 'rate', 'epochs')}
    tr['visits'] = list(VISITS)
    return tr, posts(load(out)), case


def whole_batch_loop(ctx, beer, case, d, k):
    'a real phone loop: one batch per epoch = accumulate and update'
    names = names_for(ctx.rng, len(case['utts']))
    p = build(LOOP, d, ctx.rng, ncomp=2, prior=['gamma_dirichlet_process', 'dirichlet', 'dirichlet2'][k % 3])
    rs = np.random.RandomState(ctx.seed + k)
    ds = make_dataset(d, {n: (rs.randn(u['nf'] + 5, 2) + rs.randn(1, 2)).astype(np.float32) for n, u in zip(names, case['utts'])})
    epochs, rate = max(case['epochs'], 1), case['rate'] / 4
    out = os.path.join(d, 'trained.mdl')
    cli('hmm', 'train', ['-b', ctx.rng.choice([-1, len(names), len(names) + 2]), '-e', epochs, '-l', rate, p['model.mdl'], ds, out])
    cur, state, acc = p['model.mdl'], os.path.join(d, 'state'), os.path.join(d, 'acc.pkl')
    for e in range(epochs):
        cli('hmm', 'accumulate', [cur, ds, acc], stdin='\n'.join(names) + '\n')
        new = os.path.join(d, 'm%d' % e)
        cli('hmm', 'update', ['-l', rate, '-o', state, cur, new], stdin=acc + '\n')
        cur = new
    for a, b in zip(natural(load(out)), natural(load(cur))):
        if a.shape != b.shape or not torch.allclose(a, b, rtol=3e-3, atol=3e-3):
            return ctx.violation('same-as-distributed', '%s: %s, expected %s' % (brief(case), a.tolist(), b.tolist()), case)
    ctx.count('phone_loop_runs')


def run(ctx):
    import beer
    inv = ['EachOnce', 'Updates', 'WholeBatch', 'Emit']
    runs = [ctx.tlc('BatchTrain', dict(MaxUtts=3, MaxNf=1, MaxP=1, MaxG=1, MaxEpochs=2, Rates=[4]), invariants=inv, workers=8),
            ctx.tlc('BatchTrain', dict(MaxUtts=5, MaxNf=3, MaxP=3, MaxG=3, MaxEpochs=3, Rates=[4, 2]), invariants=inv,
                    simulate=ctx.pick(900, 9000), depth=60, timeout=800)]
    small, large = [sorted({str(c): c for c in r.prints}.values(), key=str) for r in runs]
    ctx.rng.shuffle(small)
    ctx.rng.shuffle(large)
    large.sort(key=lambda c: c['epochs'] == 0)
    ctx.sample({k: large[0][k] for k in ('utts', 'bsize', 'epochs', 'hist')})
    todo = [x for p in zip(small * 3, large) for x in p]
    n = 0
    for case in todo[:ctx.pick(900, 8000)]:
        d = os.path.join(ctx.scratch, 'w')
        with ctx.guard('raises', case):
            given_order(ctx, case, d)
        shutil.rmtree(d, ignore_errors=True)
        ctx.validated += 1
        if ctx.enough() or ctx.elapsed() > ctx.pick(70, 500):
            break
    traces = []
    for case in large[:ctx.pick(200, 2000)]:
        d = os.path.join(ctx.scratch, 'w')
        with ctx.guard('raises', case):
            traces.append(recorded(ctx, case, d))
        shutil.rmtree(d, ignore_errors=True)
    if traces:
        r = ctx.tlc('TraceBatchTrain', dict(MaxUtts=5, MaxNf=3, MaxP=3, MaxG=3, MaxEpochs=3, Rates=[4, 2]), init='TInit', next_='TNext',
                    invariants=['Accepted'], extra_modules={'traces.json': json.dumps([t for t, _, _ in traces])}, timeout=800)
        acc = {x['t'] - 1: x for x in r.prints}
        for i, (t, post, case) in enumerate(traces):
            if i not in acc:
                ctx.violation('visits', '%s: utterances visited %s' % (brief(case), t['visits']), t)
            elif not same(post, fl(acc[i]['post'])):
                ctx.violation('posterior', '%s: utterances visited %s: posterior %s, expected %s' % (brief(case), t['visits'], post, fl(acc[i]['post'])), t)
            ctx.validated += 1
        ctx.count('validated_traces', len(traces))
    for k, case in enumerate(large[:ctx.pick(12, 200)]):
        d = os.path.join(ctx.scratch, 'w')
        with ctx.guard('raises', case):
            whole_batch_loop(ctx, beer, case, d, k)
        shutil.rmtree(d, ignore_errors=True)
        ctx.validated += 1
        if ctx.enough() or ctx.elapsed() > ctx.pick(140, 840):
            break
