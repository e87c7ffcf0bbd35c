'''C04: the decoded path of the real code is complete and of maximal weight.'''
import math
import torch
from hmmcases import compiled, enumerate_cases, lg, scaled_cases, scaled_graph, long_cases, long_graph, wide_cases, wide_graph, wide_score
from stub import TableSet

SCALES = (1., 1., .5, 2., .25)


def weight(case, path):
    'Exact integer weight of a state path.'
    w = case['init'][path[0]] * case['final'][path[-1]]
    for t, s in enumerate(path):
        w *= case['frames'][t][s]
        if t:
            w *= case['trans'][path[t - 1]][s]
    return w


def run(ctx):
    import beer
    cases = enumerate_cases(ctx)
    for k, case in enumerate(cases):
        n, t, best = len(case['init']), len(case['frames']), case['post']['best']
        text = 'init=%s final=%s trans=%s frames=%s' % (case['init'], case['final'], case['trans'], case['frames'])

        def judge(path, clause, extra=''):
            p = [int(x) for x in path]
            if len(p) != t or any(not 0 <= s < n for s in p):
                return ctx.violation(clause, '%s %s: path %s' % (extra, text, p), case)
            w = weight(case, p)
            if w == 0:
                ctx.violation(clause + '-infeasible', '%s %s: path %s is not a complete path' % (extra, text, p), case)
            elif w != best:
                ctx.violation(clause + '-not-optimal', '%s %s: path %s has weight %s, best is %s' % (extra, text, p, w, best), case)

        with ctx.guard('best-path-raises', case):
            for dtype in (torch.float64, torch.float32):
                cg = compiled(beer, case, dtype)
                off = torch.tensor([(0., -300., 40.)[(k + i) % 3] for i in range(t)], dtype=dtype)[:, None]
                llhs = lg(case['frames'], dtype) + (0. if dtype == torch.float32 or k % 2 else off)
                judge(cg.best_path(llhs), 'best-path', str(dtype))
            # decode: densities permuted, shared by the states that ask for the same one
            perm = list(range(n))
            ctx.rng.shuffle(perm)
            data = torch.full((t, n + 1), 9., dtype=torch.float64)
            scale = SCALES[k % len(SCALES)]
            frames = lg(case['frames'], torch.float64) / scale
            for i in range(n):
                data[:, perm[i]] = frames[:, i]
            cg = compiled(beer, case, torch.float64, mapping=perm)
            other = beer.graph.CompiledGraph(*[torch.zeros(s, dtype=torch.float64) for s in ((2,), (2,), (2, 2))], [n, 0])
            own = bool(k % 2)
            hmm = beer.HMM.create(cg if own else other, TableSet(n + 1))
            kw = dict(scale=scale)
            if scale == 1. and k % 3 == 0:
                kw = {}
            if not own:
                kw['inference_graph'] = cg
            out = [int(x) for x in hmm.decode(data, **kw)]
            inv = {p: s for s, p in enumerate(perm)}
            if any(o not in inv for o in out):
                ctx.violation('decode-labels', '%s: mapping %s labels %s' % (text, perm, out), case)
            else:
                judge([inv[o] for o in out], 'decode', 'mapping %s scale %s own=%s' % (perm, scale, own))
            # best-path training occupies exactly one best complete path
            hmm.expected_log_likelihood(data, viterbi=True, scale=scale, **({} if own else dict(inference_graph=cg)))
            hmm.accumulate(data)
            resps = (hmm.modelset.original_modelset.seen / scale)[:, perm]
            if not bool((((resps).abs() < 1e-9) | ((resps - 1).abs() < 1e-9)).all()) or not bool(((resps.sum(dim=1) - 1).abs() < 1e-9).all()):
                ctx.violation('viterbi-resps', '%s: %s' % (text, resps.tolist()), case)
            else:
                judge(resps.argmax(dim=1), 'viterbi-resps')
            # a shared density: the states that share it are both reported as that density
            if n >= 2:
                shared = [0 if s < 2 else s for s in range(n)]
                if all(f[0] == f[1] for f in case['frames']):
                    cg2 = compiled(beer, case, torch.float64, mapping=shared)
                    hmm2 = beer.HMM.create(cg2, TableSet(n))
                    out = [int(x) for x in hmm2.decode(lg(case['frames'], torch.float64))]
                    ok = {tuple(shared[s] for s in p) for p in best_paths(case)}
                    if tuple(out) not in ok:
                        ctx.violation('decode-shared', '%s: labels %s, optimal ones %s' % (text, out, sorted(ok)[:4]), case)
                    ctx.count('shared_density_models')
        ctx.validated += 1
        if t > 2:
            ctx.sample(case)
        if ctx.enough():
            return
    ctx.coverage['models'] = len(cases)
    for case in scaled_cases(ctx):
        ok = [[s - 1 for s in p] for p in case['post']['best']]
        d = 'powers of two (500 = one) init=%s final=%s trans=%s frames=%s' % (case['init'], case['final'], case['trans'], case['frames'])
        with ctx.guard('best-path-raises', case):
            for dtype in (torch.float64, torch.float32):
                cg, llhs = scaled_graph(beer, case, dtype)
                p = [int(s) for s in cg.best_path(llhs)]
                q = [int(s) for s in beer.HMM.create(cg, TableSet(len(case['init']))).decode(llhs)]
                if p not in ok or q not in ok:
                    ctx.violation('best-path-not-optimal', '%s: %s / %s expected one of %s' % (d, p, q, ok), case)
        ctx.validated += 1
        ctx.count('scaled_models')
        if ctx.enough():
            return
    for case in wide_cases(ctx):
        d = 'graph of %d states, %d lanes of %d' % (case['n'], len(case['ids']), case['len'])
        with ctx.guard('best-path-raises', None):
            cg = wide_graph(beer, case, torch.float64)
            llhs = torch.zeros(case['len'], case['n'], dtype=torch.float64)
            p = [int(s) for s in cg.best_path(llhs)]
            q = [int(s) for s in beer.HMM.create(cg, TableSet(case['n'])).decode(llhs)]
            for x in (p, q):
                sc = wide_score(case, x)
                if sc is None:
                    ctx.violation('best-path-infeasible', '%s: path %s' % (d, x), case)
                elif sc != case['best']:
                    ctx.violation('best-path-not-optimal', '%s: path of weight 2^%s, best 2^%s' % (d, sc, case['best']), case)
        ctx.validated += 1
        ctx.count('wide_models')
        if ctx.enough():
            return
    for k, case in enumerate(long_cases(ctx)):
        n = len(case['init'])
        with ctx.guard('best-path-raises', None):
            for dtype in (torch.float64, torch.float32):
                cg, llhs, where, off = long_graph(beer, case, dtype, (0.,) if k % 2 else (-40., 3., 17.5))
                d = '%d frames, %d segments, init=%s final=%s trans=%s, %s' % (len(where), len(case['segs']), case['init'], case['final'], case['trans'], dtype)
                hmm = beer.HMM.create(cg, TableSet(n + 1))
                for p in (cg.best_path(llhs), hmm.decode(llhs)):
                    p = [int(s) for s in p]
                    parts = [[] for _ in case['segs']]
                    if len(p) != len(where) or any((s == n) != (w is None) for s, w in zip(p, where)):
                        ctx.violation('best-path-infeasible', '%s: path %s' % (d, p), dict(case, segs=len(case['segs'])))
                        continue
                    for s, w in zip(p, where):
                        if w is not None:
                            parts[w[0]].append(s)
                    for seg, part in zip(case['segs'], parts):
                        w = weight(dict(case, frames=seg['frames']), part)
                        if w != seg['post']['best']:
                            ctx.violation('best-path-not-optimal', '%s: a segment %s is passed by %s of weight %s, best is %s' % (d, seg['frames'], part, w, seg['post']['best']), dict(case, segs=len(case['segs'])))
                            break
        ctx.validated += 1
        ctx.count('long_models')
        if ctx.enough():
            return


def best_paths(case):
    n, t = len(case['init']), len(case['frames'])
    out = [[]]
    for _ in range(t):
        out = [p + [s] for p in out for s in range(n)]
    return [p for p in out if weight(case, p) == case['post']['best']]
