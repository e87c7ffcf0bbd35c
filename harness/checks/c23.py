'''C23: scoring and conversion scripts of the recipe on the words of
spec/EditDistance.tla, the boundaries of spec/BoundaryMatch.tla and the corpora of
spec/Scoring.tla.'''
import collections
import math
import os
import numpy as np
import yaml
from scripts import script


def write(path, lines):
    with open(path, 'w') as f:
        for l in lines:
            f.write(' '.join(l) + '\n')
    return path


def lines(text):
    return [l.split() for l in text.splitlines() if l.strip()]


def names(rng, n, taken=()):
    'Distinct token names; some look like numbers, booleans or markers.'
    odd = ['1', '2.5', 'no', 'yes', 'on', 'null', '~', '<unk>', 'SIL', 'sil', 'au1', 'au10', 'a', 'A', "'", '#b', 'x:y', '-', '1e3', 'é']
    out = []
    while len(out) < n:
        x = rng.choice(odd) if rng.random() < .5 else 'au%d' % rng.randrange(100)
        if x not in out and x not in taken:
            out.append(x)
    return out


def number(text):
    'Numbers of the last line printed.'
    return [float(x.replace(',', '')) for x in text.strip().splitlines()[-1].split()]


def near(printed, value):
    return abs(printed - value) <= .00501


def distance(ctx, cases, d):
    'Several pairs at once are summed: one pair per file, and all of them in one.'
    rng = ctx.rng
    def files(pairs):
        tok = names(rng, 4)
        ref = [['u%d' % i] + [tok[t] for t in c['r']] for i, c in enumerate(pairs)]
        hyp = [['u%d' % i] + [tok[t] for t in c['h']] for i, c in enumerate(pairs)]
        rng.shuffle(hyp)
        return write(d + '/r', ref), write(d + '/h', hyp)
    for c in cases[:ctx.pick(12, 80)]:
        # theorem Common: long words
        pre, suf = [[rng.randrange(3) for _ in range(rng.choice((0, 60, 130, 300)))] for _ in '..']
        c = dict(r=pre + c['r'] + suf, h=pre + c['h'] + suf, d=c['d'])
        if c['r']:
            got = number(script('ter', files([c])))
            if not near(got[0], 100. * c['d'] / len(c['r'])):
                return ctx.violation('distance', 'reference of %d tokens: error rate %s, expected %d / %d' % (len(c['r']), got, c['d'], len(c['r'])), c)
            ctx.count('long_words')
    for c in cases:
        # a reference of known length beside the pair: empty references have no rate of their own
        pad = dict(r=[0] * 7, h=[0] * 7, d=0)
        group = [c, pad] if rng.random() < .5 or not c['r'] else [c]
        got = number(script('ter', files(group)))
        words = sum(len(x['r']) for x in group)
        if not near(got[0], 100. * c['d'] / words):
            return ctx.violation('distance', 'reference %s, hypothesis %s: error rate %s, expected %d / %d' % (c['r'], c['h'], got, c['d'], words), c)
        ctx.validated += 1


def alignment(rng, length, bounds):
    'Frames whose unit changes exactly at the boundaries.'
    tok = names(rng, 3)
    out, cur = [], rng.choice(tok)
    for t in range(1, length + 1):
        if t in bounds:
            cur = rng.choice([x for x in tok if x != cur])
        out.append(cur)
    return out


def boundaries(ctx, groups, d):
    rng = ctx.rng
    for (ref, hyp, delta), hits in groups:
        n = max(ref + hyp + (1,)) + rng.randrange(3)
        r = write(d + '/r', [['utt'] + alignment(rng, n, ref)])
        h = write(d + '/h', [['utt'] + alignment(rng, n, hyp)])
        opt = ['--delta', delta] if delta != 2 or rng.random() < .5 else []
        got = number(script('score_boundaries', opt + [r, h]))
        if not any(all(map(near, got, prf(k, len(ref), len(hyp)))) for k in hits):
            return ctx.violation('boundaries', 'reference boundaries %s, hypothesis %s, tolerance %d: scores %s, expected %s hits' % (ref, hyp, delta, got, sorted(hits)), (ref, hyp, delta))
        ctx.validated += 1


def prf(hits, nr, nh):
    r = hits / nr if nr else 0.
    p = hits / nh if nh else 0.
    return 100 * r, 100 * p, (200 * r * p / (r + p) if r + p else 0.)


def match(ref, hyp, delta):
    'Possible numbers of hits: spec/BoundaryMatch.tla for long utterances.'
    states = {frozenset()}
    for b in sorted(hyp):
        new = set()
        for s in states:
            left = [r for r in ref if r not in s]
            best = min([abs(b - r) for r in left], default=None)
            if best is None or best > delta:
                new.add(s)
            else:
                new |= {s | {r} for r in left if abs(b - r) == best}
        states = new
    return {len(s) for s in states}


def corpus(ctx, case, d):
    rng = ctx.rng
    toks = sorted({t for u in case['utts'] for t in u['ref'] + u['hyp']} | {t for t, _ in case['map']} | {t for t, _ in case['lex']})
    tok = dict(zip(toks, names(rng, len(toks))))
    img = dict(zip((1, 2), names(rng, 2, taken=list(tok.values()) if rng.random() < .5 else ())))
    ids = ['utt%d' % i for i in range(len(case['utts']))]
    if rng.random() < .3:
        ids[0] = tok[case['utts'][0]['hyp'][0]]          # an utterance named like a token
    line = lambda k: [[i] + [tok[t] for t in u[k]] for i, u in zip(ids, case['utts'])]
    order = rng.sample(line('hyp'), len(ids))
    ref, hyp = write(d + '/ref', line('ref')), write(d + '/hyp', order)
    maplines = [[tok[t], img[v]] for t, v in case['map']]
    rng.shuffle(maplines)
    mapping = write(d + '/map', maplines)
    what = 'corpus %s' % [(u['ref'], u['hyp']) for u in case['utts']]
    # ------------------------------------------------------------- error rate
    # an utterance in only one of the files counts nothing
    extra = write(d + '/ref2', line('ref') + [['lonely', 'x', 'y']])
    for t in case['ter']:
        if t['w']:
            opts = (['--mapping', mapping] if t['m'] else []) + (['--no-repeat'] if t['r'] else [])
            got = number(script('ter', opts + [rng.choice([ref, extra]), hyp]))
            if not near(got[0], 100. * t['e'] / t['w']):
                return ctx.violation('error-rate', '%s map %s options %s: %s, expected %d / %d' % (what, case['map'], opts, got, t['e'], t['w']), case)
    # ------------------------------------------------------------- boundaries
    for m in (0, 1):
        nr, nh = (sum(len(u[k][m]) for u in case['utts']) for k in ('rb', 'hb'))
        hits = {0}
        for u in case['utts']:
            hits = {a + b for a in hits for b in match(u['rb'][m], u['hb'][m], case['delta'])}
        got = number(script('score_boundaries', (['--mapping', mapping] if m else []) + ['-d', case['delta'], ref, hyp]))
        if not any(all(map(near, got, prf(k, nr, nh))) for k in hits):
            return ctx.violation('boundary-scores', '%s map %s tolerance %d: %s, expected %s hits of %d, %d' % (
                what, case['map'] if m else None, case['delta'], got, sorted(hits), nr, nh), case)
    # ---------------------------------------------------------------- mapping
    counts, mp = d + '/counts.yml', d + '/best'
    script('maxoverlap_mapping', (['--counts', counts] if rng.random() < .8 else []) + [ref, hyp, mp])
    got = lines(open(mp).read())
    want = {tok[a]: {tok[b] for b in bs} for a, bs in case['best']}
    if len(got) != len(want) or {g[0] for g in got} != set(want) or any(len(g) != 2 or g[1] not in want[g[0]] for g in got):
        return ctx.violation('mapping', '%s: mapping %s, expected %s' % (what, got, want), case)
    cells = {(a, b): n for a, b, n in case['counts'] if n}
    if os.path.exists(counts):
        with open(counts) as f:
            back = {(a, b): n for a, row in yaml.safe_load(f).items() for b, n in row.items() if n}
        if back != {(tok[a], tok[b]): n for (a, b), n in cells.items()}:
            return ctx.violation('counts', '%s: counts %s, expected %s' % (what, back, cells), case)
        information(ctx, what, cells, counts, case)
    # ------------------------------------------------------------ conversions
    best = dict(map(tuple, got))
    unk = '<?>'
    out = script('maptrans', ['--unk', unk, mp, hyp])
    want = [[l[0]] + [best.get(x, unk) for x in l[1:]] for l in order]
    if lines(out) != want:
        return ctx.violation('mapped', '%s: %s, expected %s' % (what, lines(out), want), case)
    if all(x in best for l in order for x in l[1:]) and lines(script('maptrans', [mp, hyp])) != want:
        return ctx.violation('mapped', '%s: without --unk' % what, case)
    merged = {i: [i] + [tok[t] for t in u['merged']] for i, u in zip(ids, case['utts'])}
    got = lines(script('ali2trans', [hyp]))
    if got != [merged[l[0]] for l in order]:
        return ctx.violation('transcription', '%s: %s, expected %s' % (what, got, [merged[l[0]] for l in order]), case)
    p = [n for _, n in case['starts'] if n]
    h = -sum(x / sum(p) * math.log2(x / sum(p)) for x in p)
    got = number(script('entropy_rate', [hyp]))
    if not (near(got[0], h) and near(got[1], 2 ** h)):
        return ctx.violation('entropy', '%s: %s, expected %s %s' % (what, got, h, 2 ** h), case)
    excl = rng.sample(list(tok.values()), rng.randrange(min(3, len(tok)) + 1))
    excl = [x for x in excl if ',' not in x]
    got = lines(script('add_prefix', (['--exclude=' + ','.join(excl)] if excl else []) + [hyp, 'L_']))
    want = [[l[0]] + [x if x in excl else 'L_' + x for x in l[1:]] for l in order]
    if got != want:
        return ctx.violation('prefix', '%s excluding %s: %s' % (what, excl, got), case)
    os.mkdir(d + '/algn')
    for i, u in zip(ids, case['utts']):
        write(d + '/algn/%s.algn' % i, [[str(a), str(b), str(t)] for a, b, t in u['segments']])
    got = lines(script('convert_align', [d + '/algn'], stdin=''.join(l[0] + '\n' for l in order)))
    want = {i: [i] + ['au%d' % t for t in u['hyp']] for i, u in zip(ids, case['utts'])}
    if got != [want[l[0]] for l in order]:
        return ctx.violation('converted', '%s: %s' % (what, got), case)
    lex = write(d + '/lex', [[tok[t]] + ['p%d' % x for x in s] for t, s in case['lex']])
    sil = rng.random() < .5
    got = lines(script('prepare_phone_trans', (['--add-sil'] if sil else []) + [lex, ref]))
    want = [[i] + ['sil'] * sil + ['p%d' % x for x in u['phones']] + ['sil'] * sil for i, u in zip(ids, case['utts']) if u['known']]
    if got != want:
        return ctx.violation('phones', '%s lexicon %s: %s, expected %s' % (what, case['lex'], got, want), case)


def ent(ns):
    t = sum(ns)
    return -sum(n / t * math.log2(n / t) for n in ns if n)


def information(ctx, what, cells, counts, case):
    x, y = collections.Counter(), collections.Counter()
    for (a, b), n in cells.items():
        x[a] += n
        y[b] += n
    hx, hy, hxy = ent(x.values()), ent(y.values()), ent(cells.values())
    for opts, norm in (([], (hx + hy) / 2), (['--old'], hy)):
        if norm < 1e-9:
            continue
        got = number(script('nmi', opts + [counts]))
        if abs(got[0] - 100 * (hx + hy - hxy) / norm) > .0101:
            ctx.violation('information', '%s: %s%s, expected %s' % (what, opts, got, 100 * (hx + hy - hxy) / norm), case)


def fixed(ctx, d):
    for n in (0, 1, 3, 12):
        for flag in ([], ['--non-speech-unit']):
            got = lines(script('prepare_lang_aud', flag + [n]))
            want = ([['sil', 'non-speech-unit']] if flag else []) + [['au%d' % i, 'speech-unit'] for i in range(1, n + 1)]
            if got != want:
                ctx.violation('units', '%s %s: %s' % (flag, n, got))


def run(ctx):
    d = os.path.join(ctx.scratch, 'd')
    os.mkdir(d)
    r = ctx.tlc('EditDistance', dict(Tokens=[1, 2], MaxLen=ctx.pick(4, 5), MaxEdits=ctx.pick(3, 4)), invariants=['Bound', 'Progress', 'Zero', 'Symmetric', 'Common', 'Emit'], workers=8, timeout=800)
    pairs = {(tuple(c['r']), tuple(c['h'])): c for c in r.prints}
    r = ctx.tlc('EditDistance', dict(Tokens=[1, 2, 3], MaxLen=ctx.pick(3, 4), MaxEdits=2), invariants=['Bound', 'Progress', 'Zero', 'Symmetric', 'Common', 'Emit'], workers=8, timeout=800)
    pairs.update({(tuple(c['r']), tuple(c['h'])): c for c in r.prints})
    pairs = [pairs[k] for k in sorted(pairs)]
    ctx.rng.shuffle(pairs)
    ctx.sample(pairs[0])
    with ctx.guard('distance-raises'):
        distance(ctx, pairs[:ctx.pick(3000, 30000)], d)
    ctx.coverage['edited_words'] = len(pairs)
    r = ctx.tlc('BoundaryMatch', dict(Frames=range(2, ctx.pick(7, 9)), Deltas=[0, 1, 2, 3]), invariants=['Once', 'Within', 'Maximal', 'Perfect', 'Emit'], workers=8, timeout=800)
    groups = collections.defaultdict(set)
    for c in r.prints:
        groups[tuple(sorted(c['ref'])), tuple(sorted(c['hyp'])), c['delta']].add(c['hits'])
    for k, hits in groups.items():
        assert match(*k) == hits, k
    todo = sorted(groups.items())
    ctx.rng.shuffle(todo)
    with ctx.guard('boundaries-raises'):
        boundaries(ctx, todo[:ctx.pick(4096, 40000)], d)
    ctx.coverage['segmentations'] = len(todo)
    fixed(ctx, d)
    runs = ctx.tlc('Scoring', dict(Tokens=[1, 2, 3, 4, 5], MaxUtts=3, MaxRuns=6, MaxRun=3), invariants=['Sane', 'MergeBounds', 'OverlapTotal', 'Emit'],
                   simulate=ctx.pick(600, 6000), depth=60, workers=1, timeout=800)
    cases = [c for c in runs.prints if 'utts' in c]
    ctx.coverage['corpora'] = len(cases)
    ctx.sample(cases[0])
    for n, case in enumerate(cases):
        w = os.path.join(d, 'c%d' % n)
        os.mkdir(w)
        with ctx.guard('scoring-raises', case):
            corpus(ctx, case, w)
        ctx.validated += 1
        if ctx.enough() or ctx.elapsed() > ctx.pick(200, 800):
            break
