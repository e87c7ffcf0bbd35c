'''C25: framing, derivatives and the extract command against spec/Frames.tla,
spec/Deltas.tla and spec/Extract.tla.'''
import os
import shutil
import numpy as np
from vlib import cli, rat


def dft(frames, n):
    'Magnitudes of the bins 0 .. n/2 - 1 of zero-padded frames, from the definition.'
    f = np.asarray(frames, dtype=float)
    k = np.arange(n // 2)[None, :] * np.arange(f.shape[1])[:, None]
    return np.abs(f @ np.exp(-2j * np.pi * k / n))


def framing(ctx, beer, case):
    c, rng = case['c'], ctx.rng
    # sampling rates for which the length and rate are whole numbers of samples
    srate = rng.choice([8000, 16000, 44100, 48000, 1000])
    kind = rng.choice([np.int16, np.float32, np.float64])
    x = np.array(case['x'], dtype=kind)
    if rng.random() < .3:
        x = np.repeat(x, 2)[::2]             # a view that is not contiguous
    keep = x.copy()
    window = rng.choice([np.ones, np.hamming, np.hanning])
    n = 1
    while n <= c['f']:
        n *= 2
    got, fft = beer.features.short_term_mspec(x, flen=c['f'] / srate, frate=c['r'] / srate, preemph=c['p'] / 2., srate=srate, window=window)
    frames = np.array(case['frames'], dtype=float) / (2. * c['n'])
    want = dft(frames * window(c['f'])[None], n)
    if fft != n or got.shape != want.shape:
        return ctx.violation('frames', '%s at %d Hz: spectrum of shape %s (FFT %d), expected %s (FFT %d)' % (c, srate, got.shape, fft, want.shape, n), case)
    if not np.allclose(got, want, rtol=1e-4, atol=1e-3):
        return ctx.violation('frames', '%s at %d Hz: frame %d is wrong' % (c, srate, int(np.argwhere(~np.isclose(got, want, rtol=1e-4, atol=1e-3))[0][0])), case)
    if not np.array_equal(x, keep):
        return ctx.violation('signal-changed', 'the signal was modified', case)


def long_signal(ctx, beer, case):
    'theorem Tiled: the signal repeated for many seconds.'
    c, rng = case['c'], ctx.rng
    srate = rng.choice([1000, 8000])
    reps = -(-rng.choice([12, 25, 70]) * srate // c['n'])
    # the last repetition at another level, so that the mean is that of the whole signal: half of the signal is x, the other x + 30
    x = np.tile(np.array(case['x'], dtype=float), reps)
    half = rng.random() < .5
    if half:
        x = np.concatenate([x, x + 30])
    got, fft = beer.features.short_term_mspec(x, flen=c['f'] / srate, frate=c['r'] / srate, preemph=c['p'] / 2., srate=srate, window=np.ones)
    n = (len(x) - c['f']) // c['r'] + 1
    tile = np.array(case['tile'], dtype=float) / (2. * c['n'])
    first = (len(x) // 2 - c['f']) // c['r'] + 1 if half else n
    shift = np.full(c['f'], 15. * (1 - c['p'] / 2.))
    spec = dft(tile - shift if half else tile, fft)
    want = spec[np.arange(n) % len(tile)]
    if half:
        second = len(x) // 2 // c['r']
        want[second:] = dft(tile + shift, fft)[np.arange(n - second) % len(tile)]
    else:
        second = n
    keep = np.r_[0:first, second:n]          # frames across the change of level are not compared
    if got.shape != want.shape:
        return ctx.violation('frames', '%s repeated %d times: spectrum of shape %s, expected %s' % (c, reps, got.shape, want.shape), case)
    if not np.allclose(got[keep], want[keep], rtol=1e-4, atol=1e-3):
        return ctx.violation('frames', '%s repeated %d times: wrong frames' % (c, reps), case)
    ctx.count('long-signals')


def deltas(ctx, beer, case):
    seqs = [np.array([[float(rat(v)) for v in row] for row in s]) for s in case['seqs']]
    x = seqs[0].astype(ctx.rng.choice([np.float32, np.float64]))
    keep = x.copy()
    want = np.concatenate(seqs, axis=1)
    wins = case['wins'] if ctx.rng.random() < .5 else tuple(case['wins'])
    got = beer.features.add_deltas(x) if tuple(wins) == (2, 2) and ctx.rng.random() < .5 else beer.features.add_deltas(x, wins)
    if got.shape != want.shape or not np.allclose(got, want, rtol=1e-5, atol=1e-5):
        return ctx.violation('deltas', 'features %s, windows %s: %s, expected %s' % (x.tolist(), wins, got.tolist(), want.tolist()), case)
    if not np.array_equal(x, keep):
        return ctx.violation('features-changed', 'the features were modified', case)


# ------------------------------------------------------------------ extraction
def mel(f):
    return 1127. * np.log(1 + f / 700.)


def filterbank(nf, fft, srate, low, high, eps):
    '''Triangles between neighbouring centres, equally spaced on the mel scale and moved to the bin below; None when
    degenerate.  eps: how centres that fall on a bin up to rounding are treated (both ways are right).'''
    high = min(high, srate / 2.)
    cs = np.maximum(0, np.floor(fft * (700. * (np.exp(np.linspace(mel(low), mel(high), nf + 2) / 1127.) - 1)) / srate + eps))
    if (np.diff(cs) <= 0).any():
        return None
    k = np.arange(fft // 2)
    return np.stack([np.clip(np.minimum((k - a) / (b - a), (c - k) / (c - b)), 0, None) for a, b, c in zip(cs, cs[1:], cs[2:])])


def regress(x, w):
    n = len(x)
    pad = np.concatenate([x[:1]] * w + [x] + [x[-1:]] * w)
    return sum(i * (pad[w + i:w + i + n] - pad[w - i:w - i + n]) for i in range(1, w + 1)) / (4. * sum(i * i for i in range(1, w + 1)))


BANDS = [(20, 8000), (80, 3500), (0, 3800)]


EPS = (1e-7, -1e-7)


def oracle(case, sig, eps):
    cf = case['conf']
    x = sig.astype(float)
    x = x - x.mean()
    n = (len(x) - case['f']) // case['s'] + 1
    fr = np.stack([x[i * case['s']:i * case['s'] + case['f']] for i in range(n)])
    fr = fr - cf['pre'] / 100. * np.concatenate([fr[:, :1], fr[:, :-1]], axis=1)
    spec = dft(fr * np.hamming(case['f'])[None], case['fft'])
    if cf['fb']:
        fb = filterbank(cf['nf'], case['fft'], cf['rate'], *BANDS[cf['band']], eps)
        if fb is None:
            return None
        spec = spec @ fb.T
    log = np.log(1e-6 + spec)
    norm = np.sqrt(2. / cf['nf'])
    fea = log
    if cf['dct']:
        m = np.arange(1, cf['nd'] + 1)
        bases = np.cos(np.pi * m[None, :] * (np.arange(cf['nf'])[:, None] + .5) / cf['nf'])
        fea = (log @ bases) * norm * (1 + cf['lift'] / 2. * np.sin(np.pi * m / cf['lift']))
    if cf['energy']:
        fea = np.concatenate([log.sum(axis=1, keepdims=True) * norm, fea], axis=1)
    if cf['deltas']:
        out = [fea]
        for _ in range(cf['order']):
            out.append(regress(out[-1], cf['win']))
        fea = np.concatenate(out, axis=1)
    if cf['mnorm']:
        fea = fea - fea.mean(axis=0)
    return fea


NAMES = ['utt', 'a-1.b', 'S03_x']


def extract(ctx, beer, case, d):
    import yaml
    from scipy.io import wavfile
    import importlib
    rng, cf = ctx.rng, case['conf']
    mod = importlib.import_module('beer.cli.subcommands.features.extract')
    default = dict(mod.feaconf)
    sigs = []
    lines = []
    for k, l in enumerate(case['list']):
        r = np.random.RandomState(rng.randrange(1 << 30))
        sig = (r.randn(l['n']) * 2000).astype(np.int16)
        sigs.append(sig)
        path = os.path.join(d, 'rec %d.wav' % k)
        wavfile.write(path, cf['rate'], sig)
        lines.append('%s %s' % (NAMES[l['id'] - 1], path if l['how'] == 'file' else "cat '%s' |" % path))
    wants = [[oracle(case, s, eps) for eps in EPS] for s in sigs]
    if any(v is None for w in wants for v in w):
        return ctx.count('degenerate filter banks')
    conf = dict(srate=cf['rate'], preemph=cf['pre'] / 100., window_len=cf['flen'] / 10000., framerate=cf['fstep'] / 10000., apply_fbank=cf['fb'],
                nfilters=cf['nf'], cutoff_hfreq=BANDS[cf['band']][1], cutoff_lfreq=BANDS[cf['band']][0], apply_deltas=cf['deltas'],
                delta_order=cf['order'], delta_winlen=cf['win'], apply_dct=cf['dct'], n_dct_coeff=cf['nd'], lifter_coeff=cf['lift'],
                utt_mnorm=cf['mnorm'], add_energy=cf['energy'])
    # settings equal to the defaults may be left out
    conf = {a: b for a, b in conf.items() if default[a] != b or rng.random() < .5}
    out = os.path.join(d, 'out')
    os.makedirs(out)
    with open(os.path.join(d, 'conf'), 'w') as f:
        yaml.safe_dump(conf, f)
    with open(os.path.join(d, 'list'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    try:
        if rng.random() < .5:
            cli('features', 'extract', [os.path.join(d, 'conf'), os.path.join(d, 'list'), out])
        else:
            cli('features', 'extract', [os.path.join(d, 'conf'), '-', out], stdin='\n'.join(lines) + '\n')
    finally:
        mod.feaconf.clear()
        mod.feaconf.update(default)
    want = {NAMES[i] + '.npy': k for i, k in enumerate(case['files']) if k}
    if sorted(os.listdir(out)) != sorted(want):
        return ctx.violation('files', 'files %s for the list %s' % (sorted(os.listdir(out)), lines), case)
    for name, k in want.items():
        got = np.load(os.path.join(out, name))
        if got.shape != (case['frames'][k - 1], case['dim']):
            return ctx.violation('shape', '%s: features of shape %s, declared %s; %s' % (name, got.shape, (case['frames'][k - 1], case['dim']), conf), case)
        if not any(np.allclose(got, ref, rtol=1e-6, atol=1e-6) for ref in wants[k - 1]):
            ref = wants[k - 1][0]
            return ctx.violation('features', '%s: wrong features (largest difference %s in column %d); %s' % (
                name, np.abs(got - ref).max(), int(np.abs(got - ref).max(axis=0).argmax()), conf), case)
    ctx.count('recordings', len(case['list']))


def library_fbank(ctx, beer, case):
    'beer.features.fbank: pre-emphasis over the whole signal, then framing.'
    cf, rng = case['conf'], ctx.rng
    low, high = BANDS[cf['band']]
    fbs = [filterbank(cf['nf'], case['fft'], cf['rate'], low, high, eps) for eps in EPS]
    if any(fb is None for fb in fbs):
        return
    r = np.random.RandomState(rng.randrange(1 << 30))
    sig = (r.randn(case['list'][0]['n']) * 2000).astype(rng.choice([np.int16, np.float64]))
    x = sig.astype(np.float32).astype(float)
    p = cf['pre'] / 100.
    y = x - p * np.concatenate([x[:1], x[:-1]])
    n = case['frames'][0]
    fr = np.stack([y[i * case['s']:i * case['s'] + case['f']] for i in range(n)])
    wants = [np.log(dft(fr * np.hamming(case['f'])[None], case['fft']) @ fb.T + 1) for fb in fbs]
    want = wants[0]
    got = beer.features.fbank(sig, flen=cf['flen'] / 10000., frate=cf['fstep'] / 10000., hifreq=high, lowfreq=low, nfilters=cf['nf'], preemph=p, srate=cf['rate'])
    if got.shape != want.shape or not any(np.allclose(got, w, rtol=1e-4, atol=1e-3) for w in wants):
        return ctx.violation('fbank', 'fbank of shape %s, expected %s; largest difference %s (%s)' % (
            got.shape, want.shape, np.abs(got - want).max() if got.shape == want.shape else '-', cf), case)
    ctx.count('filter banks')


def run(ctx):
    import beer
    r = ctx.tlc('Frames', dict(MaxN=ctx.pick(12, 20), MaxF=ctx.pick(5, 9), MaxR=ctx.pick(4, 8), Seeds=ctx.pick(1, 3)),
                invariants=['CountRight', 'AllWindows', 'Tiled', 'Emit'])
    for i, case in enumerate(r.prints):
        with ctx.guard('framing-raises', case):
            framing(ctx, beer, case)
            if case['tile'] and i % 25 == 3:
                long_signal(ctx, beer, case)
        ctx.validated += 1
        if i % 100 == 7:
            ctx.sample(case)
        if ctx.enough():
            return
    r = ctx.tlc('Deltas', dict(MaxT=ctx.pick(7, 9), MaxOrders=ctx.pick(2, 3), MaxW=3, Dims=[1, 2], Seeds=ctx.pick(2, 4)), invariants=['Flat', 'Ramp', 'Emit'])
    for i, case in enumerate(r.prints):
        with ctx.guard('deltas-raises', case):
            deltas(ctx, beer, case)
        ctx.validated += 1
        if i % 100 == 7:
            ctx.sample(case)
        if ctx.enough():
            return
    r = ctx.tlc('Extract', dict(Rates=[8000, 16000, 48000, 11025], Durations=[0, 1, 57, 160, 799, 2013], MaxList=4, NFilters=[4, 7, 13]), invariants=['OneEach', 'Emit'],
                simulate=ctx.pick(160, 1500), depth=14)
    for i, case in enumerate(r.prints):
        d = os.path.join(ctx.scratch, 'w')
        os.makedirs(d)
        with ctx.guard('extract-raises', case):
            extract(ctx, beer, case, d)
            library_fbank(ctx, beer, case)
        shutil.rmtree(d, ignore_errors=True)
        ctx.validated += 1
        if ctx.enough():
            return
