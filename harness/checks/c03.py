'''C03: posteriors of the real forward-backward against exact path sums.'''
import math
import torch
from hmmcases import compiled, enumerate_cases, lg, scaled_cases, scaled_graph, long_cases, long_graph, wide_cases, wide_graph, NO
from stub import TableSet

OFFSETS = (0., -1000., 700., -3.5)


def expected(case):
    z = case['post']['z']
    g = torch.tensor(case['post']['gamma'], dtype=torch.float64) / z
    n = len(case['init'])
    x = torch.tensor(case['post']['xi'], dtype=torch.float64).reshape(-1, n, n) / z
    return g, x, math.log(z)


def same(a, b, tol):
    a = torch.as_tensor(a).double()
    return tuple(a.shape) == tuple(b.shape) and not bool(torch.isnan(a).any()) and bool((a - b).abs().max() <= tol if b.numel() else True)


def run(ctx):
    import beer
    cases = enumerate_cases(ctx)
    for k, case in enumerate(cases):
        g, x, logz = expected(case)
        n, t = len(case['init']), len(case['frames'])
        with ctx.guard('posteriors-raise', case):
            for dtype, tol in ((torch.float64, 1e-8), (torch.float32, 2e-3)):
                # per-frame constants: none, or large ones that differ between frames
                off = torch.zeros(t, dtype=dtype) if k % 2 == 0 else \
                    torch.tensor([OFFSETS[(k + i) % len(OFFSETS)] for i in range(t)], dtype=dtype)
                cg = compiled(beer, case, dtype)
                llhs = lg(case['frames'], dtype) + off[:, None]
                before = llhs.clone()
                (sp, tp), ev = cg.posteriors(llhs, trans_posteriors=True)
                sp2, ev2 = cg.posteriors(llhs)
                d = 'init=%s final=%s trans=%s frames=%s offsets=%s' % (case['init'], case['final'], case['trans'], case['frames'], off.tolist())
                if not same(sp, g, tol) or not same(sp2, g, tol):
                    ctx.violation('state-posteriors', '%s: %s expected %s' % (d, sp.tolist(), g.tolist()), case)
                if not same(tp, x, tol):
                    ctx.violation('transition-posteriors', '%s: %s expected %s' % (d, tp.tolist(), x.tolist()), case)
                e = logz + float(off.double().sum())
                for v in (ev, ev2):
                    if not abs(float(v) - e) <= max(tol, 1e-6 * abs(e)) * 5:
                        ctx.violation('evidence', '%s: %s expected %s' % (d, float(v), e), case)
                if not torch.equal(before, llhs):
                    ctx.violation('input-modified', d, case)
            # through the HMM, with the densities in another order and shared
            perm = list(range(n)); ctx.rng.shuffle(perm)
            data = torch.full((t, n + 1), 77., dtype=torch.float64)
            frames = lg(case['frames'], torch.float64)
            for i in range(n):
                data[:, perm[i]] = frames[:, i]
            cg = compiled(beer, case, torch.float64, mapping=perm)
            other = beer.graph.CompiledGraph(*[torch.zeros(s, dtype=torch.float64) for s in ((1,), (1,), (1, 1))], [0])
            if k % 2:
                hmm = beer.HMM.create(cg, TableSet(n + 1))
                sp = hmm.posteriors(data)
            else:
                hmm = beer.HMM.create(other, TableSet(n + 1))
                sp = hmm.posteriors(data, inference_graph=cg)
            if not same(sp, g, 1e-8):
                ctx.violation('hmm-posteriors', 'mapping %s %s: %s expected %s' % (perm, case['frames'], sp.tolist(), g.tolist()), case)
        ctx.validated += 1
        if t > 2:
            ctx.sample(case)
        if ctx.enough():
            return
    ctx.coverage['models'] = len(cases)


    for case in scaled_cases(ctx):
        z = case['post']['z']
        n = len(case['init'])
        g = torch.tensor(case['post']['gamma'], dtype=torch.float64) / z
        x = torch.tensor(case['post']['xi'], dtype=torch.float64).reshape(-1, n, n) / z
        logz = math.log(z) + case['post']['exp'] * math.log(2)
        with ctx.guard('posteriors-raise', case):
            for dtype in (torch.float64, torch.float32):
                cg, llhs = scaled_graph(beer, case, dtype)
                (sp, tp), ev = cg.posteriors(llhs, trans_posteriors=True)
                d = 'powers of two (500 = one) init=%s final=%s trans=%s frames=%s' % (case['init'], case['final'], case['trans'], case['frames'])
                if not same(sp, g, 2e-3):
                    ctx.violation('state-posteriors', '%s: %s expected %s' % (d, sp.tolist(), g.tolist()), case)
                if not same(tp, x, 2e-3):
                    ctx.violation('transition-posteriors', '%s: %s expected %s' % (d, tp.tolist(), x.tolist()), case)
                if not abs(float(ev) - logz) <= 3e-3 + 1e-5 * abs(logz):
                    ctx.violation('evidence', '%s: %s expected %s' % (d, float(ev), logz), case)
        ctx.validated += 1
        ctx.count('scaled_models')
        if ctx.enough():
            return
    for case in wide_cases(ctx):
        if any(v != NO for r in case['cross'] for v in r):
            continue
        with ctx.guard('posteriors-raise', None):
            cg = wide_graph(beer, case, torch.float64)
            sp, ev = cg.posteriors(torch.zeros(case['len'], case['n'], dtype=torch.float64))
            w = [2. ** (a + b) for a, b in zip(case['entry'], case['bonus'])]
            g = torch.zeros(case['len'], case['n'], dtype=torch.float64)
            for k, lane in enumerate(case['ids']):
                g[range(case['len']), lane] = w[k] / sum(w)
            d = 'graph of %d states, %d lanes of %d' % (case['n'], len(w), case['len'])
            if not same(sp, g, 1e-8):
                ctx.violation('state-posteriors', '%s: largest difference %s' % (d, float((sp - g).abs().max())), dict(case, cross=0))
            if not abs(float(ev) - math.log(sum(w))) < 1e-6:
                ctx.violation('evidence', '%s: %s expected %s' % (d, float(ev), math.log(sum(w))), dict(case, cross=0))
        ctx.validated += 1
        ctx.count('wide_models')
        if ctx.enough():
            return
    for k, case in enumerate(long_cases(ctx)):
        n = len(case['init'])
        with ctx.guard('posteriors-raise', None):
            for dtype, tol in ((torch.float64, 1e-8), (torch.float32, 2e-3)):
                cg, llhs, where, off = long_graph(beer, case, dtype, (0.,) if k % 2 else (-40., 3., 17.5))
                g = torch.zeros(len(where), n + 1, dtype=torch.float64)
                x = torch.zeros(len(where) - 1, n + 1, n + 1, dtype=torch.float64)
                logz = float(off.double().sum()) + sum(math.log(s['post']['z']) for s in case['segs'])
                for i, w in enumerate(where):
                    if w is None:
                        g[i, n] = 1.
                    else:
                        p = case['segs'][w[0]]['post']
                        g[i, :n] = torch.tensor(p['gamma'][w[1]], dtype=torch.float64) / p['z']
                        if where[i + 1] is not None:
                            x[i, :n, :n] = torch.tensor(p['xi'][w[1]], dtype=torch.float64) / p['z']
                for i in range(len(where) - 1):
                    if where[i] is None:
                        x[i, n, :] = g[i + 1]
                    elif where[i + 1] is None:
                        x[i, :, n] = g[i]
                (sp, tp), ev = cg.posteriors(llhs, trans_posteriors=True)
                d = '%d frames, %d segments, init=%s final=%s trans=%s, %s' % (len(where), len(case['segs']), case['init'], case['final'], case['trans'], dtype)
                if not same(sp, g, tol):
                    ctx.violation('state-posteriors', '%s: largest difference %s' % (d, float((sp.double() - g).abs().max())), dict(case, segs=len(case['segs'])))
                if not same(tp, x, tol):
                    ctx.violation('transition-posteriors', '%s: largest difference %s' % (d, float((tp.double() - x).abs().max())), dict(case, segs=len(case['segs'])))
                if not abs(float(ev) - logz) <= 1e-2 + 1e-5 * abs(logz):
                    ctx.violation('evidence', '%s: %s expected %s' % (d, float(ev), logz), dict(case, segs=len(case['segs'])))
        ctx.validated += 1
        ctx.count('long_models')
        if ctx.enough():
            return
