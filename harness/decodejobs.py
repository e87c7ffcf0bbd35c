'Decoding jobs of spec/Decode.tla turned into files for the real commands.'
import os
import numpy as np
from loopcases import build, table_model, make_dataset, make_alis, dump


def uttnames(rng, n):
    pool = ['u10', 'u9', 'utt-b', 'A_1', 'spk.x', 'z', 'B', 'rec01']
    return sorted(rng.sample(pool, n))


def features(job, utt, kind, rs):
    n = job['npdf']
    if kind == 'flat':
        return np.zeros((len(utt['path']), n), dtype=np.float32)
    if kind == 'random':
        return (rs.randn(len(utt['path']), n) * 3).astype(np.float32)
    x = np.full((len(utt['path']), n), -60., dtype=np.float32)
    x[range(len(utt['path'])), utt['path']] = 0.
    return x


class Job:
    def __init__(self, ctx, beer, job, d, kinds=None):
        self.job, self.d = job, d
        rng = ctx.rng
        rs = np.random.RandomState(rng.randrange(1 << 30))
        self.p = build(job, d, rng, prior=None)
        self.model = table_model(beer, job, self.p)
        self.names = self.p['names']
        self.mdl = dump(self.model, os.path.join(d, 'model.mdl'))
        self.utts = uttnames(rng, len(job['utts']))
        feats = {n: features(job, u, kinds or u['kind'], rs) for n, u in zip(self.utts, job['utts'])}
        self.ds = make_dataset(d, feats)
        self.trans = [(n, [self.names[x - 1] for x in u['labels']]) for n, u in zip(self.utts, job['utts']) if u['kind'] != 'plain']
        self.ali = None
        if job['alis'] and self.trans:
            self.alidir, self.ali, _ = make_alis(d, self.p, self.trans)

    def request_names(self):
        return [self.utts[k - 1] if k <= len(self.utts) else 'nosuch%d' % k for k in self.job['reqs']]
