'''Trees of model sets of spec/Routing.tla built with the real classes.'''
import torch
from stub import LeafTable, WeightTable
from vlib import rat


def build(beer, tree, leaf, index):
    '''index collects (leaf tree, leaf object) and (mix tree, weight object).'''
    k = tree['k']
    if k == 'leaf':
        m = leaf(tree['off'], tree['n'])
        index.append((tree, m))
        return m
    if k == 'joint':
        return beer.JointModelSet([build(beer, t, leaf, index) for t in tree['parts']])
    if k == 'rep':
        return beer.RepeatedModelSet(build(beer, tree['sub'], leaf, index), tree['r'])
    w = WeightTable(tree['w'], tree['id'])
    index.append((tree, w))
    return beer.MixtureSet(w, build(beer, tree['sub'], leaf, index))


def size(t):
    return {'leaf': lambda: t['n'], 'joint': lambda: sum(size(p) for p in t['parts']),
            'rep': lambda: t['r'] * size(t['sub']), 'mix': lambda: t['m']}[t['k']]()


def has(t, k):
    return t['k'] == k or any(has(p, k) for p in t.get('parts', [])) or ('sub' in t and has(t['sub'], k))


def mats(case):
    f = case['frames']
    r = lambda key: torch.tensor([[float(rat(x)) for x in fr[key]] for fr in f], dtype=torch.float64)
    lik = torch.tensor([fr['lik'] for fr in f], dtype=torch.float64)
    return lik, r('set'), r('resp'), r('routed'), r('dens')


def expected_mix(case, ident, tree):
    'Weight statistics of mixture set `ident` per frame: (frames, m, nc).'
    m = tree['m']
    out = []
    for fr in case['frames']:
        s = [x for x in fr['mix'] if x['id'] == ident][0]['s']
        out.append([float(rat(x)) for x in s])
    return torch.tensor(out, dtype=torch.float64).reshape(len(out), m, -1)


def cases(ctx, modes, num, allow_mix=True, max_frames=3, max_pos=5):
    r = ctx.tlc('Routing', dict(MaxLeaves=3, LeafSizes=[1, 2, 3], MaxSize=12, MaxDens=6, MaxPos=max_pos,
                                MaxFrames=max_frames, Vals=[1, 2, 3], AllowMix=allow_mix,
                                Modes='{%s}' % ','.join('"%s"' % m for m in modes), PrintOut=True),
                invariants=['MassConserved', 'MassIsFrames', 'MixMass', 'Emit'], simulate=num, depth=90, timeout=700)
    return r.prints
