'''C28: interrupted histories of spec/RecipeSteps.tla replayed on the real recipe
steps: decoding, alignment, posteriors, feature extraction, alignment graphs,
data set creation.'''
import collections
import os
import queue
import random
import re
import shutil
import threading
import numpy as np
import scipy.io.wavfile
import yaml
from recipe import Recipe, differ, load

GUARDS = dict(StopOnFail=True, FreshParts=True, CombineStatus=True, AtomicOut=True)
INV = ['Whole', 'Done', 'Untouched', 'NoDeadEnd']
KINDS = ['lines', 'files', 'fresh', 'single']
QUOTED = ['"%s"' % k for k in KINDS]
STEPS = dict(lines=['decode', 'decode-frames', 'align'], files=['extract', 'extract', 'aligraphs'], fresh=['posteriors'], single=['dataset'])
JOB = dict(decode='hmm decode', align='hmm decode', posteriors='hmm posteriors', extract='features extract', aligraphs='hmm mkaligraph')
COMBINE = dict(decode='sort', align='sort', posteriors='zip', extract='features archive', aligraphs='zip', dataset='dataset create')
FEACONF = dict(srate=8000, nfilters=6, cutoff_lfreq=50, cutoff_hfreq=3800, n_dct_coeff=4, delta_order=1)


def lines(path):
    with open(path) as f:
        return sorted(f.read().splitlines())


def arrays(path):
    out = np.load(path, allow_pickle=True)
    return {k: out[k] for k in out.files}


class Worker:
    def __init__(self, ctx, k, rng):
        self.ctx, self.rng = ctx, rng
        self.recipe = r = Recipe(os.path.join(ctx.scratch, 'w%d' % k), more=('sort', 'zip'))
        r.corpus(rng, 14)
        d = self.d = os.path.join(r.root, 'ideal')
        os.makedirs(d)
        p = lambda n: os.path.join(d, n)
        s = ['-s', '1', 'hmm']
        r.beer(*s, 'mkphones', '-d', r.ds, r.data + '/hmm.yml', r.data + '/units', p('hmms.mdl'))
        r.beer(*s, 'mkphoneloopgraph', '--start-end-group', 'non-speech-unit', r.data + '/units', p('graph'))
        r.beer(*s, 'mkdecodegraph', p('graph'), p('hmms.mdl'), p('decode'))
        r.beer(*s, 'mkphoneloop', p('decode'), p('hmms.mdl'), p('mdl'))
        self.trans = {u: [rng.choice(['sil', 'au1', 'au2']) for _ in range(rng.randint(1, 3))] for u in r.ids}
        os.makedirs(p('ali'))
        r.beer('hmm', 'mkaligraph', p('hmms.mdl'), p('ali'), stdin=''.join('%s %s\n' % (u, ' '.join(t)) for u, t in self.trans.items()))
        np.savez(p('alis.npz'), **{u: np.load(os.path.join(p('ali'), u + '.npy'), allow_pickle=True) for u in r.ids})
        self.alis = arrays(p('alis.npz'))
        self.scale = rng.choice(['1', '.5'])
        text = ''.join(u + '\n' for u in r.ids)
        one = lambda *a: {l.split()[0]: l for l in r.beer('hmm', 'decode', '-s', self.scale, *a, '--utts', '-', p('mdl'), r.ds, stdin=text).splitlines()}
        self.lines = {'decode': one(), 'decode-frames': one('--per-frame'), 'align': one('--per-frame', '-a', p('alis.npz'))}
        self.log = rng.choice([[], ['--log']])
        os.makedirs(p('posts'))
        r.beer('hmm', 'posteriors', '-s', self.scale, *self.log, '--utts', '-', p('mdl'), r.ds, p('posts'), stdin=text)
        gen = np.random.RandomState(rng.randrange(1 << 30))
        os.makedirs(p('wav')), os.makedirs(p('feats'))
        for u in r.ids:
            scipy.io.wavfile.write(os.path.join(p('wav'), u + '.wav'), 8000, (gen.randn(gen.randint(800, 2400)) * 3000).astype(np.int16))
        with open(p('fea.yml'), 'w') as f:
            yaml.safe_dump(FEACONF, f)
        self.wavs = {u: '%s %s.wav' % (u, os.path.join(p('wav'), u)) for u in r.ids}
        if k % 2:
            self.wavs[r.ids[0]] = '%s cat %s.wav |' % (r.ids[0], os.path.join(p('wav'), r.ids[0]))
        r.beer('features', 'extract', p('fea.yml'), '-', p('feats'), stdin=''.join(l + '\n' for l in self.wavs.values()))
        get = lambda n: {u: np.load(os.path.join(p(n), u + '.npy')) for u in r.ids}
        self.posts, self.feats = get('posts'), get('feats')

    def ids(self, h):
        return [self.recipe.ids[i - 1] for i in sorted(h['list'])]

    def step(self, name, h, out):
        'Arguments of the step, its output.'
        r, d = self.recipe, self.d
        data = os.path.join(r.root, 'lists')
        os.makedirs(data, exist_ok=True)
        ids = self.ids(h)
        for f, text in (('uttids', [u for u in ids]), ('wav.scp', [self.wavs[u] for u in ids]), ('trans', ['%s %s' % (u, ' '.join(self.trans[u])) for u in ids])):
            with open(os.path.join(data, f), 'w') as g:
                g.write(''.join(x + '\n' for x in text))
        par, j = ['--parallel-njobs', h['jobs']], os.path.join
        if name in ('decode', 'decode-frames'):
            return 'decode', par + ['--acoustic-scale', self.scale] + (['--per-frame'] if name != 'decode' else []) + [j(d, 'mdl'), j(data, 'uttids'), r.ds, out], j(out, 'trans')
        if name == 'align':
            return 'align', par + ['--acoustic-scale', self.scale, j(d, 'mdl'), j(d, 'alis.npz'), data, r.ds, out], j(out, 'trans')
        if name == 'posteriors':
            return 'posteriors', par + ['--acoustic-scale', self.scale] + (['--log-domain'] if self.log else []) + [j(d, 'mdl'), data, r.ds, out], j(out, 'posts.npz')
        if name == 'extract':
            return 'extract_features', par + [j(d, 'fea.yml'), j(data, 'wav.scp'), out], j(out, 'fea.npz')
        if name == 'aligraphs':
            return 'monophone', par + [r.data + '/hmm.yml', r.data, data, r.ds, 1, out], j(out, 'alis.npz')
        return 'create_dataset', [r.data, r.data + '/fea.npz', j(out, 'set.pkl')], j(out, 'set.pkl')

    def plan(self, name, h):
        if not h['at']:
            return []
        key, mode = name.split('-')[0], 'fail' if h['at'].endswith('fail') else 'crash'
        if h['at'].startswith('job'):
            return [dict(cmd=JOB[key], nth=h['task'], stage=h['stage'], mode=mode)]
        dest = {'decode': 'trans', 'align': 'trans', 'extract': 'fea', 'dataset': 'set', 'posteriors': 'posts', 'aligraphs': 'alis'}[key]
        if h['stage'] == 'after' and self.rng.random() < .5:
            return [dict(cmd='mv', dest=dest, stage='before', mode=mode)]
        return [dict(cmd=COMBINE[key], stage=h['stage'], mode=mode)]

    def wrong(self, name, h, path):
        'What is wrong with the output.'
        if not os.path.exists(path):
            return 'no output'
        ids = self.ids(h)
        if name in self.lines:
            got, want = lines(path), sorted(self.lines[name][u] for u in ids)
            return None if got == want else '%s, expected %s' % (got, want)
        if name == 'dataset':
            msg = None
            a, b = load(path), load(self.recipe.ds)
            if sorted(u.id for u in a.utterances(random_order=False)) != sorted(u.id for u in b.utterances(random_order=False)):
                msg = 'other utterances'
            return msg or (None if a.size == b.size and bool((a.mean == b.mean).all()) else 'other statistics')
        got = arrays(path)
        if sorted(got) != sorted(ids):
            return 'entries %s, expected %s' % (sorted(got), sorted(ids))
        for u in ids:
            if name == 'aligraphs':
                msg = differ(got[u][0], self.alis[u][0])
                if msg or differ_ids(got[u][0], self.alis[u][0]):
                    return 'graph of %s: %s' % (u, msg or 'other states')
                continue
            want = (self.posts if name == 'posteriors' else self.feats)[u]
            if got[u].shape != want.shape or not np.allclose(got[u], want, rtol=1e-6, atol=1e-6):
                return 'array of %s' % u
        return None

    def history(self, case):
        r = self.recipe
        name = self.rng.choice(STEPS[case['kind']])
        out = os.path.join(r.root, 'exp')
        shutil.rmtree(out, ignore_errors=True)
        told, fired = [], []
        for h in case['hist']:
            step, argv, path = self.step(name, h, out)
            before = open(path, 'rb').read() if os.path.exists(path) else None
            timed = h['at'] == 'time'
            rc, point = r.run(step, argv, [] if timed else self.plan(name, h), **(dict(stopafter=h['stage']) if timed else {}))
            told.append('%d jobs, items %s: %s' % (h['jobs'], h['list'], 'completed' if rc == 0 else (
                'stopped at %s' % [h['at'], h['task'], h['stage']] if rc is None else 'status %s' % rc)))
            fired.append(point is not None)
            what = '%s [%s]' % (name, '; '.join(told))
            if before is not None and (not os.path.exists(path) or open(path, 'rb').read() != before):
                return 'finished-modified', '%s: a finished output was modified' % what
            if rc != 0:
                if rc is not None and point is None:
                    return 'does-not-complete', '%s: %s' % (what, r.output[-300:])
                if before is None and os.path.exists(path):
                    msg = self.safely(name, h, path)
                    if msg:
                        return 'unfinished-output', '%s: an output was left by a run that did not complete: %s' % (what, msg)
                continue
            if before is None:
                msg = self.safely(name, h, path)
                if msg:
                    return 'output', '%s: %s' % (what, msg)
        return None, fired, name

    def safely(self, *a):
        try:
            return self.wrong(*a)
        except Exception as x:
            return 'unreadable: %r' % x

    def close(self):
        self.recipe.close()


def differ_ids(a, b):
    return list(a.pdf_id_mapping) != list(b.pdf_id_mapping)


def key(case):
    'Histories that look alike.'
    hist = case['hist']
    return (case['kind'],) + tuple((h['at'], h['stage'], (h['jobs'] > hist[0]['jobs']) - (h['jobs'] < hist[0]['jobs']),
                                    len(set(hist[0]['list']) - set(h['list'])) > 0) for h in hist)


def select(ctx, cases, n):
    by = collections.defaultdict(list)
    for c in cases:
        by[key(c)].append(c)
    keys = sorted(by)
    ctx.rng.shuffle(keys)
    for k in keys:
        ctx.rng.shuffle(by[k])
    out, i = [], 0
    while len(out) < n and keys:
        keys = [k for k in keys if len(by[k]) > i]
        out += [by[k][i] for k in keys]
        i += 1
    return out[:n]


def timed(ctx, n):
    out, rng = [], ctx.rng
    for _ in range(n):
        kind = rng.choice(KINDS)
        new = lambda at, stage: dict(jobs=rng.choice([1, 2, 3, 10]), list=[1, 2, 3] if at or rng.random() < .5 else rng.sample([1, 2, 3], rng.randint(1, 3)), at=at, task=0, stage=stage)
        out.append(dict(kind=kind, hist=[new('time', rng.uniform(.03, 1.)) for _ in range(rng.randint(1, 3))] + [new('', '')]))
        for h in out[-1]['hist']:
            h['list'] = out[-1]['hist'][-1]['list'] if rng.random() < .5 else h['list']
    return out


def run(ctx):
    big = 1000000
    t = lambda **kw: ctx.tlc('RecipeSteps', dict(dict(MaxRuns=big, MaxStops=big), **kw), invariants=INV, properties=['Stable'], view='AnyHistory', workers=8, timeout=800)
    t(N=3, Kinds=QUOTED, Jobs=[1, 2, 3], ChangeList=True, **GUARDS)
    t(N=ctx.pick(4, 5), Kinds=QUOTED, Jobs=[2, 5], ChangeList=False, **GUARDS)
    for g in sorted(GUARDS):
        r = ctx.tlc('RecipeSteps', dict(N=3, Kinds=QUOTED, Jobs=[1, 3], ChangeList=True, MaxRuns=big, MaxStops=big, **dict(GUARDS, **{g: False})),
                    invariants=INV, view='AnyHistory', workers=4, expect_error=True)
        m = re.findall(r'Invariant (\w+) is violated', r.out)
        assert m, 'the specification does not need %s' % g
        ctx.coverage['without_' + g] = m[0]
    e = lambda **kw: ctx.tlc('RecipeSteps', dict(kw, Kinds=QUOTED, **GUARDS), invariants=['Emit'], workers=8, timeout=800).prints
    one = e(N=3, MaxStops=1, MaxRuns=3, Jobs=[1, 3], ChangeList=False)
    wide = e(N=3, MaxStops=1, MaxRuns=2, Jobs=[2, 10], ChangeList=False)
    other = e(N=2, MaxStops=1, MaxRuns=2, Jobs=[1, 2], ChangeList=True)
    many = e(N=14, MaxStops=1, MaxRuns=2, Jobs=[12], ChangeList=False)      # more jobs than one digit counts
    huge = e(N=5, MaxStops=0, MaxRuns=1, Jobs=[101], ChangeList=False)
    two = e(N=3, MaxStops=2, MaxRuns=3, Jobs=[2, 3], ChangeList=False)
    n = ctx.pick(1, 6)
    one, wide, other, two, many = [[c for c in x if any(h['at'] for h in c['hist'])] + [c for c in x if not any(h['at'] for h in c['hist'])][:4] for x in (one, wide, other, two, many)]
    todo = select(ctx, one, 110 * n) + select(ctx, wide, 70 * n) + select(ctx, other, 110 * n) + select(ctx, two, 120 * n) + select(ctx, many, 40 * n) + select(ctx, huge, 3 * n) + timed(ctx, 50 * n)
    ctx.coverage['histories'] = dict(one=len(one), wide=len(wide), other_list=len(other), two=len(two), many=len(many), selected=len(todo))
    ctx.sample(two[len(two) // 2])
    ctx.rng.shuffle(todo)
    work = queue.Queue()
    for c in todo:
        work.put(c)
    limit = ctx.elapsed() + ctx.pick(150, 600)
    results, lock = [], threading.Lock()
    fired = collections.Counter()

    def worker(k, seed):
        w = None
        try:
            w = Worker(ctx, k, random.Random(seed))
            while ctx.elapsed() < limit and len(results) < 10:
                try:
                    case = work.get_nowait()
                except queue.Empty:
                    break
                try:
                    got = w.history(case)
                except Exception as x:
                    got = 'history-raises', repr(x)
                with lock:
                    if got[0] is None:
                        ctx.validated += 1
                        for h, f in zip(case['hist'], got[1]):
                            if h['at'] and h['at'] != 'time':
                                fired['%s %s/%s' % (got[2], h['at'], h['stage'])] += f
                                fired['not met'] += not f
                    else:
                        results.append((got[0], got[1], case))
        except Exception as x:
            with lock:
                results.append(('recipe-raises', repr(x), None))
        finally:
            if w:
                w.close()
    seeds = [ctx.rng.randrange(1 << 30) for _ in range(8)]
    threads = [threading.Thread(target=worker, args=(k, s)) for k, s in enumerate(seeds)]
    [x.start() for x in threads]
    [x.join() for x in threads]
    ctx.coverage['points_met'] = dict(fired)
    for clause, detail, case in results:
        ctx.violation(clause, detail, case)
