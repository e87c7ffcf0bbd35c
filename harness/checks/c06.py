'''C06: alignment graphs built by the real command against spec/AliBuild.tla;
decoding and accumulating through them on the jobs of spec/Decode.tla.'''
import os
import shutil
import numpy as np
from vlib import cli
from checks.c07 import jobs
from checks.c09 import compare_compiled
from loopcases import build, make_alis, load
from decodejobs import Job


def built(ctx, cases, groups_key, d):
    p = build(cases[0], d, ctx.rng, prior=None)
    trans = [('utt%d' % i, [p['names'][u - 1] for u in c['trans']]) for i, c in enumerate(cases)]
    ctx.rng.shuffle(trans)
    withempty = trans[:len(trans) // 2] + [('uttempty', [])] + trans[len(trans) // 2:]
    ad, npz, log = make_alis(d, p, withempty)
    if set(os.listdir(ad)) != {u + '.npy' for u, _ in trans}:
        return ctx.violation('files', 'alignment files %s for transcriptions %s' % (sorted(os.listdir(ad)), sorted(u for u, _ in withempty)), cases[0])
    arc = np.load(npz, allow_pickle=True)
    for i, c in enumerate(cases):
        u = 'utt%d' % i
        for cg in (np.load(os.path.join(ad, u + '.npy'), allow_pickle=True)[0], arc[u][0]):
            msg = compare_compiled(cg, c['compiled'])
            if msg:
                return ctx.violation('alignment-graph', 'unit topologies %s, transcription %s: %s' % (
                    [g['id'] for g in c['groups']], c['trans'], msg), c)
        ctx.validated += 1


def assemble(cases, trans):
    'theorem Windows: compiled graph of a long transcription from those of its pairs of successive units.'
    table = {tuple(c['trans']): c['compiled'] for c in cases}
    pdf = [p for u in trans for p in table[(u,)]['pdf']]
    rows, o = [], 0
    for k, u in enumerate(trans):
        n = len(table[(u,)]['pdf'])
        w = table[tuple(trans[k:k + 2])]
        for row in w['trans'][:n]:
            rows.append([[0, 1]] * o + row + [[0, 1]] * (len(pdf) - o - len(row)))
        o += n
    end = lambda i: [[int(j == i % len(pdf)), 1] for j in range(len(pdf))]
    return dict(cases[0], trans=trans, compiled=dict(pdf=pdf, init=end(0), final=end(-1), trans=rows))


def forced(ctx, beer, job, d):
    import torch
    kind = ctx.rng.choice(['random', 'flat', 'random', None])
    j = Job(ctx, beer, job, d, kinds=kind)
    ltr = all(a[0] <= a[1] for g in job['groups'] for a in g['arcs']) and all(g['n'] > 3 for g in job['groups'])
    what = 'unit topologies %s features %s' % ([g['id'] for g in job['groups']], kind)
    ali = [(n, u) for n, u in zip(j.utts, job['utts']) if u['kind'] != 'plain']
    if ltr:
        out, _ = cli('hmm', 'decode', ['-a', j.ali, '-u', '-', j.mdl, j.ds], stdin=''.join(n + '\n' for n, _ in ali))
        lines = [l.split() for l in out.splitlines()]
        exp = [[n] + t for n, t in j.trans]
        if lines != exp:
            return ctx.violation('forced-decoding', '%s: printed %s, expected %s' % (what, lines, exp), job)
    # training: accumulate one utterance at a time
    for n, u in ali:
        out = os.path.join(d, 'elbo.pkl')
        cli('hmm', 'accumulate', ['-a', j.ali, j.mdl, j.ds, out], stdin=n + '\n')
        elbo, count = load(out)
        model = load(j.mdl)
        model.zero_stats() if hasattr(model, 'zero_stats') else None
        elbo.sync(model)
        for p in model.bayesian_parameters():
            p.stats = torch.zeros_like(p.stats) if hasattr(p, 'stats') else None
        elbo.backward()
        emis = [p for p in model.modelset.bayesian_parameters()][0].stats
        dens = {x for l in u['labels'] for x in range(job['start'][l - 1], job['end'][l - 1] + 1)}
        mass = emis[0].double().numpy()
        size = sum(len(x['path']) for x in job['utts'])
        bad = [k for k in range(job['npdf']) if k not in dens and abs(mass[k]) > 1e-6]
        if bad:
            return ctx.violation('outside-transcription', '%s: utterance %s labelled %s puts mass on densities %s' % (what, u['path'], u['labels'], bad), job)
        if abs(mass.sum() - size) > 1e-3 * size:
            return ctx.violation('mass', '%s: total mass %s for %s frames' % (what, mass.sum(), size), job)
        w = [p for p in model.categorical.bayesian_parameters()][0].stats
        if float(w.abs().sum()) > 1e-6:
            return ctx.violation('weights-trained', '%s: unit weights get %s with an alignment graph' % (what, w.tolist()), job)
    ctx.count('aligned_utterances', len(ali))


def run(ctx):
    import beer
    inv = ['Accepts', 'Copies', 'OneEntryOneExit', 'Windows', 'Emit']
    runs = [ctx.tlc('AliBuild', dict(Topos=ctx.pick([1, 2, 4, 6], [1, 2, 3, 4, 5, 6]), MaxUnits=2, MaxTrans=3, LangLen=4), invariants=inv, workers=8, timeout=600),
            ctx.tlc('AliBuild', dict(Topos=[1, 2, 3, 4, 5, 6], MaxUnits=4, MaxTrans=6, LangLen=2), invariants=inv[1:],
                    simulate=ctx.pick(80, 500), depth=12, timeout=600)]
    groups, longs = {}, 0
    for r in runs:
        for c in r.prints:
            k = str([g['id'] for g in c['groups']])
            if c['trans'] not in [x['trans'] for x in groups.get(k, [])]:
                groups.setdefault(k, []).append(c)
    for k, cases in sorted(groups.items()):
        d = os.path.join(ctx.scratch, 'a')
        with ctx.guard('mkaligraph-raises', cases[0]):
            built(ctx, cases, k, d)
            short = [c for c in cases if len(c['trans']) <= 2]
            n = len(cases[0]['groups'])
            if len(short) == n + n * n and longs < ctx.pick(4, 20):
                longs += 1
                shutil.rmtree(d, ignore_errors=True)
                built(ctx, [assemble(short, [1 + ctx.rng.randrange(n) for _ in range(m)]) for m in (12, 70 + ctx.rng.randrange(70))], k, d)
        shutil.rmtree(d, ignore_errors=True)
        if ctx.enough() or ctx.elapsed() > ctx.pick(300, 500):
            break
    ctx.coverage['long_transcriptions'] = 2 * longs
    ctx.coverage['inventories'] = len(groups)
    ctx.sample(runs[1].prints[-1])
    num = ctx.pick(150, 1500)
    aj = [j for j in jobs(ctx, num) + jobs(ctx, num // 2, Topos=[1, 2, 3, 4, 5, 6], MaxFrames=12)
          if j['alis'] and any(u['kind'] != 'plain' for u in j['utts'])]
    ctx.rng.shuffle(aj)
    for job in aj:
        d = os.path.join(ctx.scratch, 'w')
        with ctx.guard('alignment-raises', job):
            forced(ctx, beer, job, d)
        shutil.rmtree(d, ignore_errors=True)
        ctx.validated += 1
        if ctx.enough() or ctx.elapsed() > ctx.pick(240, 840):
            return
