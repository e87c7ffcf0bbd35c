'''C32: interrupted histories of spec/ScoreSteps.tla on the real scoring steps of
the recipe, on the corpora of spec/Scoring.tla.'''
import collections
import os
import queue
import random
import re
import shutil
import threading
from checks.c23 import ent, match, names, near, prf, write
from recipe import Recipe

GUARDS = dict(Whole=True, ToolStatus=True, UseGiven=True)
INV = ['Reported', 'Shown']
TOOL = dict(overlap='maxoverlap_mapping', mapped='maptrans', rate='ter', nmi='nmi', entropy='entropy_rate', bounds='score_boundaries')
MADE = dict(overlap='au_phone_counts.yml', rate='eq_per', nmi='nmi', entropy='entropy_rate', bounds='phone_boundaries')
FILES = dict(aud=['eq_per', 'nmi', 'entropy_rate', 'phone_boundaries'], ter=['ter'])
LABEL = dict(eq_per='PER:', nmi='NMI:', entropy_rate='entropy rate, perplexity:', phone_boundaries='recall, precision, fscore:', ter='TER:')


def numbers(text):
    return [float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?', text)]


def tail(text):
    return (text.strip().splitlines() or [''])[-1]


class Worker:
    def __init__(self, ctx, k, rng):
        self.ctx, self.rng = ctx, rng
        self.recipe = Recipe(os.path.join(ctx.scratch, 'w%d' % k), more=('python',))

    def corpus(self, case):
        'Files of a corpus.'
        rng, d = self.rng, os.path.join(self.recipe.root, 'corpus')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        toks = sorted({t for u in case['utts'] for t in u['ref'] + u['hyp']} | {t for t, _ in case['map'] + case['reduce']} | {v for _, v in case['map']} | {1, 2, 3})
        self.tok = tok = dict(zip(toks, names(rng, len(toks), taken=('<unk>',))))
        img = {v: 'p%d' % v for v in (1, 2, 3)}
        ids = ['utt%d' % i for i in range(len(case['utts']))]
        line = lambda k: [[i] + [tok[t] for t in u[k]] for i, u in zip(ids, case['utts'])]
        hyp = line('hyp')
        rng.shuffle(hyp)
        self.ref, self.hyp = write(d + '/ali', line('ref')), write(d + '/trans', hyp)
        self.map = write(d + '/units', [[tok[t], tok[v]] for t, v in case['map']])
        self.reduce = write(d + '/phones', [[tok[t], img[v]] for t, v in case['reduce']])

    def expected(self, kind, given, reduce, case):
        'Scores by file; None: any.'
        which = 2 if kind == 'ter' else int(given)
        s = next(s for s in case['step'] if s['given'] == which and s['reduce'] == int(reduce))
        rate = [[100. * s['e'] / s['w']]]
        if kind == 'ter':
            return dict(ter=rate)
        cells = {(a, b): n for a, b, n in case['counts'] if n}
        x, y = collections.Counter(), collections.Counter()
        for (a, b), n in cells.items():
            x[a] += n
            y[b] += n
        hx, hy, hxy = ent(x.values()), ent(y.values()), ent(cells.values())
        h = ent([n for _, n in case['starts'] if n])
        hits = {0}
        for u in case['utts']:
            hits = {a + b for a in hits for b in match(u['rb'][0], u['hb'][0], 2)}
        nr, nh = (sum(len(u[k][0]) for u in case['utts']) for k in ('rb', 'hb'))
        return dict(eq_per=rate, nmi=[[200 * (hx + hy - hxy) / (hx + hy)]] if hx + hy > 1e-9 else None, entropy_rate=[[h, 2 ** h]],
                    phone_boundaries=[prf(k, nr, nh) for k in hits])

    def wrong(self, kind, want, out, before):
        'What is wrong after a run that completed.'
        for name in FILES[kind]:
            path = os.path.join(out, name)
            if not os.path.exists(path):
                return 'no %s' % name
            with open(path) as f:
                text = f.read()
            got = numbers(tail(text))
            ok = lambda v: want[name] is None or any(len(v) == len(w) and all(abs(a - b) <= .0101 for a, b in zip(v, w)) for w in want[name])
            if not ok(got):
                return '%s: %s, expected %s' % (name, tail(text), want[name])
            shown = [l for l in self.recipe.output.splitlines() if l.startswith(LABEL[name])]
            if not shown or not ok(numbers(shown[-1][len(LABEL[name]):])):
                return '%s is reported as %s, expected %s' % (name, shown, want[name])
            if before is not None and before.get(name) != text:
                return '%s of a finished step was modified' % name
        return None

    def history(self, case, corpus):
        kind, given = case['kind'], case['given']
        self.corpus(corpus)
        ok = lambda r: next(s for s in corpus['step'] if s['given'] == 0 and s['reduce'] == r)['w']
        reduce = bool(ok(1)) and self.rng.random() < .4
        want = self.expected(kind, given, reduce, corpus)
        out = os.path.join(self.recipe.root, 'exp', 'score')
        shutil.rmtree(out, ignore_errors=True)
        argv = [self.ref, self.hyp, out]
        opts = ([['--au-mapping', self.map]] if given else []) + ([['--mapping', self.reduce]] if reduce else [])
        self.rng.shuffle(opts)
        argv = [x for o in opts for x in o] + argv
        told, fired, before = [], [], None
        for h in case['hist'] + [dict(tool='', stage='', mode='')]:          # and once more
            timed = h['tool'] == 'time'
            plan = [dict(cmd=TOOL[h['tool']], stage=h['stage'], mode=h['mode'])] if h['tool'] and not timed else []
            if plan and h['stage'] == 'after' and h['tool'] in MADE and self.rng.random() < .4:     # where it is moved
                plan = [dict(cmd='mv', dest=MADE[h['tool']], stage=self.rng.choice(['before', 'after']), mode='crash')]
            rc, point = self.recipe.run('score_' + kind, argv, plan, **(dict(stopafter=h['stage']) if timed else {}))
            told.append('completed' if rc == 0 and not point else '%s at %s' % ('stopped' if rc is None else 'status %s' % rc, [h['tool'], h['stage'], h['mode']]))
            fired.append(point is not None)
            what = 'score_%s%s%s [%s]' % (kind, ' --au-mapping' if given else '', ' --mapping' if reduce else '', '; '.join(told))
            if rc == 0:
                msg = self.wrong(kind, want, out, before)
                if msg:
                    return 'failure-hidden' if point else 'finished-modified' if 'modified' in msg else 'scores', '%s: %s' % (what, msg)
                before = {}
                for n in FILES[kind]:
                    with open(os.path.join(out, n)) as f:
                        before[n] = f.read()
            elif rc is not None and point is None:
                return 'does-not-complete', '%s: %s' % (what, self.recipe.output[-300:])
        return None, fired, kind

    def close(self):
        self.recipe.close()


def run(ctx):
    big = 1000000
    r = ctx.tlc('ScoreSteps', dict(MaxRuns=big, MaxStops=big, **GUARDS), invariants=INV, properties=['Stable'], view='AnyHistory', workers=4, timeout=800)
    for g in sorted(GUARDS):
        r = ctx.tlc('ScoreSteps', dict(MaxRuns=big, MaxStops=big, **dict(GUARDS, **{g: False})), invariants=INV, view='AnyHistory', workers=4, expect_error=True)
        m = re.findall(r'Invariant (\w+) is violated', r.out)
        assert m, 'the specification does not need %s' % g
        ctx.coverage['without_' + g] = m[0]
    e = lambda n: ctx.tlc('ScoreSteps', dict(MaxRuns=n + 1, MaxStops=n, **GUARDS), invariants=['Emit'], workers=4, timeout=800).prints
    one, two = e(1), e(2)
    two = [c for c in two if sum(bool(h['tool']) for h in c['hist']) == 2]
    corpora = ctx.tlc('Scoring', dict(Tokens=[1, 2, 3, 4], MaxUtts=3, MaxRuns=6, MaxRun=3), invariants=['Sane', 'StepSane', 'Emit'],
                      simulate=ctx.pick(1000, 6000), depth=60, workers=1, timeout=800).prints
    corpora = [c for c in corpora if 'utts' in c and c['step'][0]['w']]
    clear = [c for c in corpora if c['unique']]
    ctx.coverage['corpora'] = dict(all=len(corpora), clear=len(clear))
    ctx.rng.shuffle(one)
    ctx.rng.shuffle(two)
    timed = [dict(kind=ctx.rng.choice(['aud', 'ter']), given=False, hist=[dict(tool='time', stage=ctx.rng.uniform(.02, .6), mode='') for _ in range(ctx.rng.randint(1, 2))] + [dict(tool='', stage='', mode='')])
             for _ in range(ctx.pick(40, 300))]
    todo = one * ctx.pick(3, 15) + two[:ctx.pick(600, 10000)] + timed
    ctx.coverage['histories'] = dict(one=len(one), two=len(two), timed=len(timed), selected=len(todo))
    ctx.sample(two[0])
    ctx.rng.shuffle(todo)
    work = queue.Queue()
    for k, c in enumerate(todo):
        pool = corpora if c['given'] or c['kind'] == 'ter' else clear
        work.put((c, pool[k % len(pool)]))
    limit = ctx.elapsed() + ctx.pick(90, 600)
    results, lock = [], threading.Lock()
    fired = collections.Counter()

    def worker(k, seed):
        w = None
        try:
            w = Worker(ctx, k, random.Random(seed))
            while ctx.elapsed() < limit and len(results) < 10:
                try:
                    case, corpus = work.get_nowait()
                except queue.Empty:
                    break
                try:
                    got = w.history(case, corpus)
                except Exception as x:
                    got = 'history-raises', repr(x)
                with lock:
                    if got[0] is None:
                        ctx.validated += 1
                        for h, f in zip(case['hist'], got[1]):
                            if h['tool'] and h['tool'] != 'time':
                                fired['%s %s/%s/%s' % (got[2], h['tool'], h['stage'], h['mode'])] += f
                                fired['not met'] += not f
                    else:
                        results.append((got[0], got[1], dict(history=case, corpus=corpus)))
        except Exception as x:
            with lock:
                results.append(('recipe-raises', repr(x), None))
        finally:
            if w:
                w.close()
    seeds = [ctx.rng.randrange(1 << 30) for _ in range(8)]
    threads = [threading.Thread(target=worker, args=(k, s)) for k, s in enumerate(seeds)]
    [x.start() for x in threads]
    [x.join() for x in threads]
    ctx.coverage['points_met'] = dict(fired)
    for clause, detail, case in results:
        ctx.violation(clause, detail, case)
