'''C07: decoding jobs generated by spec/Decode.tla run through the real commands;
the printed labels must be those of the annotated walk of the specification.'''
import os
import shutil
from vlib import cli
from decodejobs import Job

INV = ['Readable', 'WalksPossible', 'Emit']


def jobs(ctx, num, **kw):
    c = dict(Topos=[2, 3, 4, 5], NGroups=2, MinUnits=2, MaxUnits=4, MaxFrames=8, MaxUtts=3, MaxReqs=4, PlainFlats=True)
    c.update(kw)
    return ctx.tlc('Decode', c, invariants=INV, simulate=num, depth=70, timeout=600).prints


def state2phone(ctx, beer, job):
    'the path reading function alone, on every walk'
    import importlib
    mod = importlib.import_module('beer.cli.subcommands.hmm.decode')
    if not hasattr(mod, 'state2phone'):
        return
    order = sorted(range(len(job['units'])), key=lambda u: job['start'][u])
    start = {'n%d' % (u + 1): job['start'][u] for u in order}
    for u in job['utts']:
        for frame in (False, True):
            got = mod.state2phone(list(u['path']), start, frame)
            exp = ['n%d' % x for x in (u['frames'] if frame else u['labels'])]
            if list(got) != exp:
                return ctx.violation('labels', 'entry densities %s, path %s, per_frame=%s: %s, expected %s' % (
                    start, u['path'], frame, got, exp), job)
    ctx.count('walks_read', len(job['utts']))


def one(ctx, beer, job, d):
    j = Job(ctx, beer, job, d)
    argv = [j.mdl, j.ds]
    stdin = ''
    if job['listed']:
        req = j.request_names()
        text = ''.join(n + (' extra\n' if i % 2 else '\n') for i, n in enumerate(req))
        if ctx.rng.random() < .5:
            argv, stdin = ['-u', '-'] + argv, text
        else:
            with open(os.path.join(d, 'req'), 'w') as f:
                f.write(text)
            argv = ['-u', os.path.join(d, 'req')] + argv
    if j.ali:
        argv = ['-a', j.ali] + argv
    frame = ctx.rng.random() < .4
    if frame:
        argv = ['--per-frame'] + argv
    out, log = cli('hmm', 'decode', argv, stdin=stdin)
    lines = [l.split() for l in out.splitlines()]
    exp = []
    flat = False
    for k in job['printed']:
        u = job['utts'][k - 1]
        flat |= u['kind'] == 'flat'
        exp.append([j.utts[k - 1]] + [j.names[x - 1] for x in (u['frames'] if frame else u['labels'])])
    what = 'decode %s on walks %s' % ([a for a in argv if not a.startswith('/')], [(u['path'], u['kind']) for u in job['utts']])
    if [l[0] for l in lines if l] != [e[0] for e in exp] or len(lines) != len(exp):
        return ctx.violation('printed-utterances', '%s requests %s: printed %s, expected %s' % (
            what, job['reqs'], [l[:1] for l in lines], [e[0] for e in exp]), job)
    for l, e, k in zip(lines, exp, job['printed']):
        if job['utts'][k - 1]['kind'] == 'flat' and frame:
            # several best paths: the labels still follow the transcription, one per frame
            col = [x for i, x in enumerate(l[1:]) if i == 0 or x != l[i]]
            ref = [x for i, x in enumerate(e[1:]) if i == 0 or x != e[i]]
            if len(l) != len(e) or col != ref:
                return ctx.violation('per-frame', '%s: printed %s' % (what, l), job)
        elif l != e:
            return ctx.violation('transcription', '%s: printed %s, expected %s' % (what, l, e), job)
    warned = ' '.join(log.level('warning') + log.level('error'))
    for k in job['missing']:
        if 'nosuch%d' % k not in warned:
            return ctx.violation('missing-utterance', '%s requests %s: no warning for the missing utterance' % (what, job['reqs']), job)


def run(ctx):
    import beer
    num = ctx.pick(260, 2500)
    allj = jobs(ctx, num) + jobs(ctx, num // 2, NGroups=3, MinUnits=3, MaxUnits=6, MaxFrames=14, MaxUtts=2, MaxReqs=3) + \
        jobs(ctx, num // 2, NGroups=1, MinUnits=1, MaxUnits=2, MaxFrames=12, MaxUtts=2, MaxReqs=6)
    ctx.rng.shuffle(allj)
    for k, job in enumerate(allj):
        with ctx.guard('decode-raises', job):
            state2phone(ctx, beer, job)
        if ctx.enough():
            return
    for k, job in enumerate(allj):
        d = os.path.join(ctx.scratch, 'w')
        with ctx.guard('decode-raises', job):
            one(ctx, beer, job, d)
        shutil.rmtree(d, ignore_errors=True)
        ctx.validated += 1
        if k < 3:
            ctx.sample(dict(units=job['units'], utts=[(u['path'], u['labels'], u['kind']) for u in job['utts']], reqs=job['reqs']))
        if ctx.enough() or ctx.elapsed() > ctx.pick(150, 840):
            break
    ctx.coverage['jobs'] = len(allj)
