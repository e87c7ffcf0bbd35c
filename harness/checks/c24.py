'''C24: interrupted histories of spec/Recipe.tla replayed on the real training
recipe, with the real commands, a stand-in for the grid engine and kills at the
points of the history.'''
import collections
import os
import queue
import re
import shutil
import threading
import time
import numpy as np
from recipe import Recipe, differ, load

GUARDS = dict(StopOnFail=True, FreshLists=True, FreshStats=True, PipeStatus=True, AtomicFiles=True, StatePerEpoch=True, FinalIsLast=True)
INV = ['Same', 'NoHole', 'NoDeadEnd', 'Reached', 'Untouched']
NTRAIN = 3


def models(out):
    return {int(f[:-4]): os.path.join(out, f) for f in os.listdir(out) if re.fullmatch(r'\d+\.mdl', f)} if os.path.isdir(out) else {}


def stamp(f):
    s = os.stat(f)
    return s.st_ino, s.st_mtime_ns


def content(out):
    files = list(models(out).values()) + [os.path.join(out, f) for f in ('final.mdl', 'hmms.mdl')]
    return {f: open(f, 'rb').read() for f in files if os.path.exists(f)}


class Worker:
    """A recipe: `aud` starts from a fixed seed; for the others uninterrupted
    training starts from the initial model the run made."""
    def __init__(self, ctx, k, rng):
        self.ctx, self.rng = ctx, rng
        self.kind = ['aud', 'aud', 'monophone', 'aud', 'aud', 'aud_bigram', 'aud', 'monophone'][k % 8]
        self.recipe = r = Recipe(os.path.join(ctx.scratch, 'w%d' % k))
        r.corpus(rng, 3 + k % 5)
        self.opts = [[], ['--acoustic-scale', '.5'], ['--prior', 'dirichlet'], ['--prior', 'dirichlet_process', '--acoustic-scale', '.5']][k % 4]
        if self.kind == 'monophone':
            self.opts = ['--prior', rng.choice(['dirichlet', 'gamma_dirichlet_process'])]
        elif self.kind == 'aud_bigram':
            self.opts = ['--prior', rng.choice(['dirichlet2', 'hierarchical_dirichlet_process']), '--acoustic-scale', rng.choice(['1', '.5'])]
        self.opt = dict(zip(self.opts[::2], self.opts[1::2]))
        self.cache = {}
        d = self.d = os.path.join(r.root, 'ideal')
        os.makedirs(d)
        p = lambda n: os.path.join(d, n)
        s = ['-s', '1', 'hmm']
        r.beer(*s, 'mkphones', '-d', r.ds, r.data + '/hmm.yml', r.data + '/units', p('hmms.mdl'))
        r.beer(*s, 'mkphoneloopgraph', '--start-end-group', 'non-speech-unit', r.data + '/units', p('graph'))
        r.beer(*s, 'mkdecodegraph', p('graph'), p('hmms.mdl'), p('decode'))
        prior = self.opt.get('--prior', 'gamma_dirichlet_process') if self.kind != 'aud_bigram' else 'gamma_dirichlet_process'
        r.beer(*s, 'mkphoneloop', '--concentration', 50, '--weights-prior', prior, p('decode'), p('hmms.mdl'), p('0.mdl'))
        self.trans = ''.join('%s %s\n' % (u, ' '.join(rng.choice(['sil', 'au1', 'au2']) for _ in range(rng.randint(1, 3)))) for u in r.ids)
        with open(os.path.join(r.data, 'trans'), 'w') as f:
            f.write(self.trans)
        if self.kind == 'aud':
            self.cache[None, NTRAIN] = fixed = self.train(p('0.mdl'), None, NTRAIN)
            if any(differ(a, b) is None for a, b in zip(fixed, fixed[1:])):
                raise RuntimeError('epochs cannot be told apart')

    def train(self, first, hmms, n):
        'Training without interruption, command by command, all utterances at once.'
        r, s = self.recipe, ['-s', '1', 'hmm']
        p = lambda n: os.path.join(self.d, n)
        more = ['-s', self.opt.get('--acoustic-scale', '1')]
        if hmms:
            shutil.rmtree(p('ali'), ignore_errors=True)
            os.makedirs(p('ali'))
            r.beer('hmm', 'mkaligraph', hmms, p('ali'), stdin=self.trans)
            np.savez(p('alis.npz'), **{u: np.load(os.path.join(p('ali'), u + '.npy'), allow_pickle=True) for u in r.ids})
            more += ['--alis', p('alis.npz')]
        if first != p('0.mdl'):
            shutil.copy(first, p('0.mdl'))
        for e in range(n):
            r.beer(*s, 'accumulate', *more, p('%d.mdl' % e), r.ds, p('elbo'), stdin=''.join(u + '\n' for u in r.ids))
            r.beer(*s, 'update', p('%d.mdl' % e), p('%d.mdl' % (e + 1)), stdin=p('elbo') + '\n')
        return [load(p('%d.mdl' % e)) for e in range(n + 1)]

    def ideal(self, out, n):
        first, hmms = os.path.join(out, '0.mdl'), os.path.join(out, 'hmms.mdl') if self.kind == 'monophone' else None
        if self.kind == 'aud':
            k, first = None, os.path.join(self.d, '0.mdl')
        else:
            k = tuple(open(f, 'rb').read() for f in (first, hmms) if f)
        if (k, n) not in self.cache:
            self.cache[k, n] = self.train(first, hmms, n)
        return self.cache[k, n]

    def earlier(self, base, out):
        'The files of a training of `base` epochs.'
        d = os.path.join(self.recipe.root, 'base%d' % base)
        if not os.path.isdir(d):
            rc, _ = self.recipe.run(self.kind, self.argv(dict(jobs=2, epochs=base), out), [])
            if rc != 0:
                raise RuntimeError('training of %d epochs: %s' % (base, self.recipe.output[-300:]))
            shutil.copytree(out, d, symlinks=True)
        else:
            shutil.copytree(d, out, symlinks=True)

    def argv(self, h, out):
        r = self.recipe
        first = [os.path.join(self.d, 'unigram.mdl')] if self.kind == 'aud_bigram' else [r.data + '/hmm.yml', r.data]
        if self.kind == 'aud_bigram' and not os.path.exists(first[0]):
            shutil.copy(os.path.join(self.d, '0.mdl'), first[0])
        return self.opts + ['--parallel-njobs', h['jobs']] + first + [r.data, r.ds, h['epochs'], out]

    def plan(self, h, last):
        'The point of the history in terms of the commands of this run.'
        at, stage, mode = h['at'], h['stage'], 'crash'
        nth = lambda e: max(e - last, 1)
        if not at:
            return []
        if at in ('hmms', 'loop'):
            loop = 'hmm mkphoneloopbigram' if self.kind == 'aud_bigram' else 'hmm mkphoneloop'
            return [dict(cmd='hmm mkphones' if at == 'hmms' else loop, nth=1, stage=stage, mode=mode)]
        if at in ('acc', 'job'):
            return [dict(cmd='hmm accumulate', nth=(nth(h['epoch']) - 1) * h['jobs'] + h['task'], stage=stage, mode='fail' if at == 'job' else mode)]
        if at == 'updjob':
            return [dict(cmd='hmm update', nth=nth(h['epoch']), stage=stage, mode='fail')]
        if at == 'upd' and stage != 'committed':
            return [dict(cmd='hmm update', nth=nth(h['epoch']), stage=stage, mode=mode)]
        if at == 'upd':
            return [dict(cmd='mv', dest='%d.mdl' % h['epoch'], stage='after', mode=mode), dict(cmd='hmm accumulate', nth=nth(h['epoch']) * h['jobs'] + 1, stage='before', mode=mode),
                    dict(cmd='cp', dest='final', stage='before', mode=mode)]
        return [dict(cmd=c, dest='final', stage=stage, mode=mode) for c in (('cp',) if stage == 'mid' else ('cp', 'mv'))]

    def check(self, out, target, last, what, n):
        'After a completed run.'
        got = models(out)
        want = max(target, last)
        ideal = self.ideal(out, n)
        if set(got) != set(range(want + 1)):
            return 'models', '%s: models of the epochs %s' % (what, sorted(got))
        for e, f in sorted(got.items()):
            msg = differ(load(f), ideal[e])
            if msg:
                return 'epoch-model', '%s: the model of epoch %d is not the one of uninterrupted training: %s' % (what, e, msg)
        final = os.path.join(out, 'final.mdl')
        if not os.path.exists(final):
            return 'final-model', '%s: no final model' % what
        # with fewer epochs than there are already, either of them
        msg = differ(load(final), ideal[want])
        if msg and not any(differ(load(final), ideal[e]) is None for e in range(target, want)):
            return 'final-model', '%s: the final model is not the one of epoch %d: %s' % (what, want, msg)
        return None

    def history(self, case):
        r, rng = self.recipe, self.rng
        out = os.path.join(r.root, 'exp')
        shutil.rmtree(out, ignore_errors=True)
        base = case.get('base', 0)
        n = base + NTRAIN
        told, fired = (['after %d epochs' % base] if base else []), []
        if base:
            self.earlier(base, out)
            bad = self.check(out, base, 0, told[0], n)
            if bad:
                return bad + (told,)
        for h in case['hist']:
            last = max(models(out), default=0)
            before = content(out)
            marks = {e: stamp(f) for e, f in models(out).items()}
            # final.mdl is that of the last epoch (models of late epochs may be alike: not that of an earlier one)
            done = last and os.path.join(out, 'final.mdl') in before and before[os.path.join(out, 'final.mdl')] == before[os.path.join(out, '%d.mdl' % last)] \
                and differ_safe(os.path.join(out, 'final.mdl'), self.ideal(out, n)[last])
            argv = self.argv(h, out)
            kw = {}
            if h['at'] == 'time':
                kw['stopafter'] = h['stage']
            rc, point = r.run(self.kind, argv, self.plan(h, last) if h['at'] != 'time' else [], **kw)
            told.append('%d jobs, %d epochs: %s' % (h['jobs'], h['epochs'], 'completed' if rc == 0 else (
                'stopped at %s %s' % (h['at'], (h['epoch'], h['task'], h['stage'])) if rc is None else 'status %s' % rc)))
            fired.append(point is not None)
            what = '%s, %s utterances %s [%s]' % (self.kind, len(r.ids), self.opts, '; '.join(told))
            redone = sorted(e for e, f in models(out).items() if marks.get(e, stamp(f)) != stamp(f))
            if redone:
                return 'continues', '%s: with the models of %d epochs there, the model of epoch %s was made again' % (what, last, redone), told
            if rc is None:
                continue
            if rc != 0:
                if point is None:
                    return 'does-not-complete', '%s: %s' % (what, r.output[-300:]), told
                continue
            bad = self.check(out, h['epochs'], last, what, n)
            if bad:
                return bad + (told,)
            if done and h['epochs'] <= last and content(out) != before:
                return 'finished-modified', '%s: a finished training was modified' % what, told
        return None, fired, told

    def close(self):
        self.recipe.close()


def differ_safe(path, model):
    try:
        return differ(load(path), model) is None
    except Exception:
        return False


def key(case):
    'Histories that look alike.'
    out, most = [], 0
    for h in case['hist']:
        out.append((h['at'], h['stage'], min(h['epoch'], 2), h['jobs'] == case['hist'][0]['jobs'], (h['epochs'] > most) - (h['epochs'] < most)))
        most = max(most, h['epochs'])
    return tuple(out)


def continues_after_ten(case):
    a, b = case['hist'][:2] if len(case['hist']) > 1 else case['hist'] * 2
    if a['at'] == '':
        return a['epochs'] > 9 and b['epochs'] > a['epochs']
    return a['epoch'] > 10 and a['at'] in ('acc', 'upd', 'job', 'updjob')


def select(ctx, cases, n):
    'Spread over the kinds of histories.'
    by = collections.defaultdict(list)
    for c in cases:
        by[key(c)].append(c)
    keys = sorted(by)
    ctx.rng.shuffle(keys)
    out, i = [], 0
    for k in keys:
        ctx.rng.shuffle(by[k])
    while len(out) < n and keys:
        keys = [k for k in keys if len(by[k]) > i]
        out += [by[k][i] for k in keys]
        i += 1
    return out[:n]


def timed(ctx, n):
    out = []
    for _ in range(n):
        rng = ctx.rng
        hist, target = [], 1 + rng.randrange(2)
        for _ in range(1 + rng.randrange(4)):
            hist.append(dict(jobs=rng.choice([1, 2, 3, 11]), epochs=target, at='time', epoch=0, task=0, stage=rng.uniform(.05, 1.8)))
        hist.append(dict(jobs=rng.choice([1, 2, 3]), epochs=target, at='', epoch=0, task=0, stage=''))
        out.append(dict(hist=hist))
    return out


def run(ctx):
    t = lambda **kw: ctx.tlc('Recipe', dict(dict(N=3, Groups=1, Base=0), **kw), invariants=INV, properties=['Stable'], view='AnyHistory', workers=8, timeout=800)
    # any number of interruptions, by the files they leave
    t(MaxEpochs=2, Jobs=[1, 2, 3], MaxRuns=1000000, MaxStops=1000000, **GUARDS)
    t(MaxEpochs=ctx.pick(2, 3), Groups=2, N=ctx.pick(2, 3), Jobs=ctx.pick([2, 10], [1, 2, 10]), MaxRuns=1000000, MaxStops=1000000, **GUARDS)
    # every mechanism is needed: without it the specification breaks
    for g in sorted(GUARDS):
        r = ctx.tlc('Recipe', dict(N=3, Groups=2, Base=0, MaxEpochs=2, Jobs=[1, 2], MaxRuns=1000000, MaxStops=1000000, **dict(GUARDS, **{g: False})),
                    invariants=INV, view='AnyHistory', workers=4, expect_error=True)
        m = re.findall(r'Invariant (\w+) is violated', r.out)
        assert m, 'the specification does not need %s' % g
        ctx.coverage['without_' + g] = m[0]
    e = lambda **kw: ctx.tlc('Recipe', dict(dict(N=3, Groups=1, MaxEpochs=2, Base=0), **kw, **GUARDS), invariants=['Emit'], workers=8, timeout=800).prints
    one = e(MaxStops=1, MaxRuns=2, Jobs=[1, 2, 3])
    wide = e(MaxStops=1, MaxRuns=3, Jobs=[1, 10])
    two = e(MaxStops=2, MaxRuns=3, Jobs=[2, 3])
    # continued and repeated training
    more = [c for c in two + wide if c['hist'][0]['at'] == '' and any(h['epochs'] > c['hist'][0]['epochs'] for h in c['hist'])]
    more = [c for c in more if sum(h['at'] != '' for h in c['hist']) == 1]
    three = e(MaxStops=1, MaxRuns=2, Jobs=[2], MaxEpochs=3)
    # the number of the epoch gets another digit
    late = e(MaxStops=1, MaxRuns=2, Jobs=[2], Base=9, MaxEpochs=12) + e(MaxStops=1, MaxRuns=2, Jobs=[2], Base=8, MaxEpochs=10)
    late = [c for c in late if c['models'] > 9 and any(h['at'] for h in c['hist'])]
    # a run that starts with ten models or more: once for every recipe
    tens = [c for c in late if continues_after_ten(c)]
    mine = [ctx.rng.sample(tens, 2) for _ in range(8)]
    n = ctx.pick(1, 8)
    todo = select(ctx, one, 90 * n) + select(ctx, wide, 40 * n) + select(ctx, two, 140 * n) + select(ctx, more, 60 * n) + select(ctx, three, 30 * n) + select(ctx, late, 30 * n) + timed(ctx, 40 * n)
    ctx.coverage['histories'] = dict(one=len(one), wide=len(wide), two=len(two), more=len(more), three=len(three), late=len(late), selected=len(todo))
    ctx.sample(two[len(two) // 2])
    ctx.rng.shuffle(todo)
    work = queue.Queue()
    for c in todo:
        work.put(c)
    limit = ctx.elapsed() + ctx.pick(260, 620)
    results, lock = [], threading.Lock()
    fired = collections.Counter()

    def worker(k, seed):
        import random
        w = None
        try:
            w = Worker(ctx, k, random.Random(seed))
            while ctx.elapsed() < limit and len(results) < 10:
                try:
                    case = mine[k].pop() if mine[k] else work.get_nowait()
                except queue.Empty:
                    break
                try:
                    got = w.history(case)
                except Exception as x:
                    got = 'history-raises', repr(x), None
                with lock:
                    if got[0] is None:
                        ctx.validated += 1
                        fired[w.kind] += 1
                        for h, f in zip(case['hist'], got[1]):
                            if h['at'] and h['at'] != 'time':
                                fired['%s/%s' % (h['at'], h['stage'])] += f
                                fired['not met'] += not f
                    else:
                        results.append((got[0], got[1], case))
        except Exception as x:
            with lock:
                results.append(('recipe-raises', repr(x), None))
        finally:
            if w:
                w.close()
    seeds = [ctx.rng.randrange(1 << 30) for _ in range(8)]
    threads = [threading.Thread(target=worker, args=(k, s)) for k, s in enumerate(seeds)]
    [x.start() for x in threads]
    [x.join() for x in threads]
    ctx.coverage['points_met'] = dict(fired)
    for clause, detail, case in results:
        ctx.violation(clause, detail, case)
