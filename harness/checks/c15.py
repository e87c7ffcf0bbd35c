'''C15: schedules of spec/Distributed.tla run through the real accumulate and
update commands.'''
import os
import pickle
import shutil
import numpy as np
import torch
from conj import fl
from loopcases import build, load, dump, make_alis, make_dataset
from stub import CountStub
from vlib import cli


def features(u):
    x = np.ones((u['nf'], len(u['ones'])), dtype=np.float32)
    for p, k in enumerate(u['ones']):
        x[:k, p] = 0
    return x


def names_for(rng, n):
    return rng.sample(['u%d' % k for k in range(30)] + ['spk%d-b' % k for k in range(9)] + ['Z', 'a_1', '0001'], n)


def posts(model):
    return [c.weights.posterior.params.concentrations.tolist() for c in model.cats]


def same(a, b, tol=1e-6):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for r, s in zip(a, b) for x, y in zip(r, s))


def brief(case, e):
    return 'groups %s utterances %s%s scale %s rate %s%s: %s' % (
        case['groups'], [(u['nf'], u['ones']) for u in case['utts']], ' alignments %s' % case['alis'] if case['withali'] else '',
        case['ascale'], case['rate'] / 4, ' with state' if case['withstate'] else '',
        [(h['shards'], h['files']) for h in case['hist'][:e + 1]])


def distribute(ctx, case, h, e, d, names, model, ds, common, state, rate):
    'one epoch through the commands; returns the path of the new model'
    before = open(model, 'rb').read()
    out = os.path.join(d, '%d.mdl' % (e + 1))
    files = {}
    for s in h['files']:                         # in the order in which the shards are accumulated
        files[s] = os.path.join(d, 'elbo_%d_%d.pkl' % (e, s))
        ids = [names[u - 1] if u else 'nowhere' for u in h['shards'][s - 1]]
        _, log = cli('hmm', 'accumulate', common + [model, ds, files[s]], stdin=''.join(i + '\n' for i in ids))
        warned = log.level('warning') + log.level('error')
        if sum('nowhere' in w for w in warned) != ids.count('nowhere'):
            ctx.violation('missing', '%s shard %s: %d missing utterances, warnings %s' % (brief(case, e), s, ids.count('nowhere'), warned), case)
        if case['withali']:
            noali = [u for u in h['shards'][s - 1] if u and case['alis'][u - 1] == 0]
            if sum(any(names[u - 1] in w for w in warned) for u in set(noali)) != len(set(noali)):
                ctx.violation('missing', '%s shard %s: no alignment for %s, warnings %s' % (brief(case, e), s, [names[u - 1] for u in noali], warned), case)
    order = list(h['files'])
    argv = (['-l', rate] if rate != 1 or ctx.rng.random() < .5 else []) + (['-o', state] if state else [])
    cli('hmm', 'update', argv + [model, out], stdin=''.join(files[s] + '\n' for s in order))
    if open(model, 'rb').read() != before:
        ctx.violation('input-model', '%s: the input model file changed' % brief(case, e), case)
    return out


def count_case(ctx, case, d):
    os.makedirs(d)
    names = names_for(ctx.rng, len(case['utts']))
    ds = make_dataset(d, {n: features(u) for n, u in zip(names, case['utts'])})
    model = dump(CountStub(fl(case['prior']), case['groups'], False), os.path.join(d, '0.mdl'))
    common = ['-s', case['ascale']] if case['ascale'] != 1 or ctx.rng.random() < .3 else []
    if case['withali']:
        ad = os.path.join(d, 'ali')
        os.makedirs(ad)
        for n, k in zip(names, case['alis']):
            if k:
                np.save(os.path.join(ad, n + '.npy'), np.array([k], dtype=object))
        np.save(os.path.join(ad, 'unrelated.npy'), np.array([5], dtype=object))
        cli('features', 'archive', [ad, os.path.join(d, 'ali.npz')])
        common += ['-a', os.path.join(d, 'ali.npz')]
    state = os.path.join(d, 'optim_state') if case['withstate'] else None
    for e, h in enumerate(case['hist']):
        model = distribute(ctx, case, h, e, d, names, model, ds, common, state, case['rate'] / 4)
        got = posts(load(model))
        if not same(got, fl(h['post'])):
            return ctx.violation('posterior', '%s: posterior %s, expected %s' % (brief(case, e), got, fl(h['post'])), case)
        priors = [c.weights.prior.params.concentrations.tolist() for c in load(model).cats]
        if not same(priors, fl(case['prior'])):
            return ctx.violation('prior', '%s: prior %s' % (brief(case, e), priors), case)
        ctx.count('epochs')


LOOP = dict(units=[1, 1, 2], boundary=0, groups=[
    dict(id=2, n=4, arcs=[[0, 1, 1, 1], [1, 1, 1, 2], [1, 2, 1, 2], [2, 2, 3, 4], [2, 3, 1, 4]]),
    dict(id=3, n=4, arcs=[[0, 1, 1, 1], [1, 1, 1, 4], [1, 2, 3, 4], [2, 2, 1, 2], [2, 3, 1, 2]])])


def natural(model):
    return [p.posterior.natural_parameters().detach().double() for p in model.bayesian_parameters()]


def loop_case(ctx, beer, case, d, k):
    'the same schedules with a real phone loop; expected: one in-process sum over the listed utterances'
    names = names_for(ctx.rng, len(case['utts']))
    p = build(LOOP, d, ctx.rng, ncomp=2, prior=['gamma_dirichlet_process', 'dirichlet', 'dirichlet2', 'hierarchical_dirichlet_process', 'dirichlet_process'][k % 5])
    rs = np.random.RandomState(ctx.seed + k)
    feats = {n: (rs.randn(u['nf'] + 5, 2) + rs.randn(1, 2)).astype(np.float32) for n, u in zip(names, case['utts'])}
    ds = make_dataset(d, feats)
    model = p['model.mdl']
    scale = {1: 1., 2: .5}[case['ascale']]
    common, graphs = ['-s', scale], {}
    if case['withali']:
        trans = [(n, [ctx.rng.choice(p['names']) for _ in range(a)]) for n, a in zip(names, case['alis']) if a]
        if not trans:
            return
        ad, npz, _ = make_alis(d, p, trans)
        graphs = {u: np.load(os.path.join(ad, u + '.npy'), allow_pickle=True)[0] for u, _ in trans}
        common += ['-a', npz]
    state = os.path.join(d, 'optim_state') if case['withstate'] else None
    ref, upd = load(model), 0
    size = sum(map(len, feats.values()))
    for e, h in enumerate(case['hist']):
        model = distribute(ctx, case, h, e, d, names, model, ds, common, state, case['rate'] / 4)
        optim = beer.VBConjugateOptimizer(ref.conjugate_bayesian_parameters(keepgroups=True), case['rate'] / 4)
        optim.update_count = upd if case['withstate'] else 0
        upd = optim.update_count + 1
        optim.init_step()
        elbo = beer.evidence_lower_bound(datasize=size)
        for s in h['shards']:
            for u in s:
                if u:
                    n = names[u - 1]
                    elbo += beer.evidence_lower_bound(ref, torch.tensor(feats[n]), datasize=size, scale=scale, inference_graph=graphs.get(n))
        elbo.backward()
        optim.step()
        for a, b in zip(natural(load(model)), natural(ref)):
            if a.shape != b.shape or not torch.allclose(a, b, rtol=3e-3, atol=3e-3):
                return ctx.violation('phone-loop', '%s: %s, expected %s' % (brief(case, e), a.tolist(), b.tolist()), case)
        ctx.count('phone_loop_epochs')


def run(ctx):
    import beer
    inv = ['SameAsOneShard', 'FilesOnce', 'Positive', 'Emit']
    runs = [ctx.tlc('Distributed', dict(MaxUtts=2, MaxNf=1, MaxP=1, MaxG=1, MaxItems=2, MaxShards=2, MaxEpochs=1, Rates=[4]), invariants=inv, workers=8),
            ctx.tlc('Distributed', dict(MaxUtts=4, MaxNf=3, MaxP=3, MaxG=3, MaxItems=6, MaxShards=4, MaxEpochs=3, Rates=[4, 2]), invariants=inv,
                    simulate=ctx.pick(400, 5000), depth=90, timeout=800)]
    small, large = [sorted({str(c): c for c in r.prints}.values(), key=str) for r in runs]
    ctx.rng.shuffle(small)
    ctx.rng.shuffle(large)
    ctx.sample(dict(hist=large[0]['hist'], utts=large[0]['utts']))
    plan = [('count', c) for c in small[:ctx.pick(60, 1500)]]
    for k, c in enumerate(large):
        plan.append(('count', c))
        if k < ctx.pick(25, 400):
            plan.append(('loop', c))
    ctx.rng.shuffle(plan)
    for k, (what, case) in enumerate(plan):
        d = os.path.join(ctx.scratch, 'w')
        with ctx.guard('raises', case):
            if what == 'count':
                count_case(ctx, case, d)
            else:
                loop_case(ctx, beer, case, d, k)
        shutil.rmtree(d, ignore_errors=True)
        ctx.validated += 1
        if ctx.enough() or ctx.elapsed() > ctx.pick(110, 840):
            break
