import math
import torch


def lg(v, dtype):
    return torch.tensor([[math.log(x) if x > 0 else -math.inf for x in r] for r in v], dtype=dtype)


def compiled(beer, case, dtype, mapping=None, scale_rows=1.):
    n = len(case['init'])
    return beer.graph.CompiledGraph(lg([case['init']], dtype)[0], lg([case['final']], dtype)[0],
                                    lg(case['trans'], dtype), list(range(n)) if mapping is None else mapping)


def enumerate_cases(ctx):
    'Model checking runs shared by C03 and C04.'
    inv = ['Marginals', 'RowsSumToOne', 'ViterbiOptimal', 'Emit']
    runs = [ctx.tlc('HmmInference', dict(S=2, T=2, InitVals=[0, 1], FinalVals=[0, 1], TransVals=[0, 1, 2] if not ctx.quick else [0, 1],
                                         EmisVals=[0, 1, 2], PrintOut=True), invariants=inv, workers=8, timeout=800),
            ctx.tlc('HmmInference', dict(S=1, T=3, InitVals=[1], FinalVals=[1, 2], TransVals=[0, 1, 2],
                                         EmisVals=[0, 1, 2], PrintOut=True), invariants=inv, workers=4, timeout=800)]
    for s, t, num in ((2, 5, 1500), (3, 4, 1200), (3, 5, 500), (4, 4, 250)):
        runs.append(ctx.tlc('HmmInference', dict(S=s, T=t, InitVals=[0, 1, 2], FinalVals=[0, 1, 3] if s < 4 else [0, 1],
                                                 TransVals=[0, 1, 3] if s < 4 else [0, 1, 2], EmisVals=[0, 1, 2, 5] if s < 4 else [0, 1, 3],
                                                 PrintOut=True),
                            invariants=inv[:3] + ['Emit'] if s * t <= 12 else ['RowsSumToOne', 'Emit'],
                            simulate=ctx.pick(num, num * 8), depth=s + t + 4, timeout=800))
    cases, seen = [], set()
    for r in runs:
        for c in r.prints:
            k = str((c['init'], c['final'], c['trans'], c['frames']))
            if k not in seen:
                seen.add(k)
                cases.append(c)
    return cases


def scaled_cases(ctx):
    'Weights that differ by many orders of magnitude (log2 domain).'
    out = []
    for s, t, num in ((2, 4, 300), (3, 4, 300), (2, 6, 120), (4, 3, 120)):
        out += ctx.tlc('ScaledInference', dict(S=s, T=t, Mid=500, Digits=20, InitVals=[0, 500, 501, 400], FinalVals=[0, 500, 503],
                                               TransVals=[0, 500, 499, 420] if s < 4 else [0, 500, 420], EmisVals=[0, 500, 502, 620, 380] if s < 4 else [0, 500, 620, 380]),
                       invariants=['ViterbiOptimal', 'Consistent', 'Emit'], simulate=ctx.pick(num, num * 10), depth=s + t + 4, timeout=800).prints
    return out


def wide_cases(ctx):
    'Graphs of hundreds of states.'
    r = ctx.tlc('WideInference', dict(Primes=[101, 149, 307] if ctx.quick else [101, 149, 257, 307, 521], Lens=[3, 17, 60, 140]),
                invariants=['IdsDistinct', 'NoCross', 'Monotone', 'Emit'], timeout=800)
    n = ctx.pick(60, 400)
    return ctx.rng.sample(r.prints, n) if len(r.prints) > n else r.prints


def long_cases(ctx):
    'Hundreds of frames: segments between pinches.'
    inv = ['Composes', 'LEmit']
    small = dict(init='LInit', next_='LNext', timeout=800)
    ctx.tlc('LongInference', dict(S=2, T=2, Segments=2, InitVals=[0, 1, 2], FinalVals=[0, 1, 3], TransVals=[0, 1, 2], EmisVals=[0, 1, 3], PrintOut=False),
            invariants=inv, simulate=ctx.pick(150, 3000), depth=20, **small)
    out = []
    for s, t, k, num in ((2, 5, 90, 4), (3, 4, 90, 4), (3, 4, 250, 3), (2, 4, 400, 2)):
        out += ctx.tlc('LongInference', dict(S=s, T=t, Segments=k, InitVals=[0, 1, 2], FinalVals=[0, 1, 3], TransVals=[0, 1, 3], EmisVals=[0, 1, 2, 5], PrintOut=False),
                       invariants=['LEmit'], simulate=ctx.pick(num, num * 8), depth=k * (t + 2) + 10, **small).prints
    return out


def long_graph(beer, case, dtype, offsets):
    'Graph (the pinch is the last state), likelihoods, segment and position of every frame.'
    n = len(case['init'])
    z = lambda v: [list(r) for r in v]
    trans = [r + [f] for r, f in zip(z(case['trans']), case['final'])] + [list(case['init']) + [0]]
    where, rows = [None], [[0] * n + [1]]
    for k, seg in enumerate(case['segs']):
        for t, f in enumerate(seg['frames']):
            where.append((k, t))
            rows.append(list(f) + [0])
        where.append(None)
        rows.append([0] * n + [1])
    one = [[0] * n + [1]]
    g = beer.graph.CompiledGraph(lg(one, dtype)[0], lg(one, dtype)[0], lg(trans, dtype), list(range(n + 1)))
    llhs = lg(rows, dtype)
    off = torch.tensor([offsets[i % len(offsets)] for i in range(len(rows))], dtype=dtype)
    return g, llhs + off[:, None], where, off


def log2s(v, mid):
    return [[-math.inf if x == 0 else (x - mid) * math.log(2) for x in r] for r in v]


def scaled_graph(beer, case, dtype, mapping=None):
    t = lambda v: torch.tensor(log2s(v, 500), dtype=dtype)
    g = beer.graph.CompiledGraph(t([case['init']])[0], t([case['final']])[0], t(case['trans']),
                                 list(range(len(case['init']))) if mapping is None else mapping)
    return g, t(case['frames'])


NO = -1000000


def wide_graph(beer, case, dtype):
    n, ids, ln2 = case['n'], case['ids'], math.log(2)
    init, final, trans = [torch.full(s, -math.inf, dtype=dtype) for s in ((n,), (n,), (n, n))]
    for k, lane in enumerate(ids):
        init[lane[0]] = case['entry'][k] * ln2
        final[lane[-1]] = case['bonus'][k] * ln2
        for q in range(len(lane) - 1):
            trans[lane[q], lane[q + 1]] = 0.
            if k + 1 < len(ids) and case['cross'][k][q] != NO:
                trans[lane[q], ids[k + 1][q + 1]] = case['cross'][k][q] * ln2
    return beer.graph.CompiledGraph(init, final, trans, list(range(n)))


def wide_score(case, path):
    'Exponent of a state path (None if it is not a complete path).'
    where = {s: (k, q) for k, lane in enumerate(case['ids']) for q, s in enumerate(lane)}
    if len(path) != case['len'] or any(s not in where or where[s][1] != q for q, s in enumerate(path)):
        return None
    lanes = [where[s][0] for s in path]
    tot = case['entry'][lanes[0]] + case['bonus'][lanes[-1]]
    for q, (a, b) in enumerate(zip(lanes[:-1], lanes[1:])):
        if b == a + 1 and case['cross'][a][q] != NO:
            tot += case['cross'][a][q]
        elif a != b:
            return None
    return tot
