'''The real commands that build phone loops, run on the cases of
spec/LoopBuild.tla (all files in a scratch directory).'''
import os
import pickle
import yaml
from vlib import cli

NAMES = ['b2', 'a10', 'sil', 'a9', 'zz', 'A', 'o', 'ph1', 'ph10', 'ph2', 'x']
GROUPS = ['speech', 'nonspeech', 'aa', 'noise']


def write_conf(case, d, rng, ncomp=1):
    conf = []
    cov = rng.choice(['diagonal', 'isotropic', 'full'])      # one family per model: the concatenated set shares the statistics
    for i, g in enumerate(case['groups']):
        conf.append(dict(group_name=GROUPS[i], n_normal_per_state=ncomp if ncomp else 1 + rng.randrange(3),
                         prior_strength=1.0, noise_std=0.1, cov_type=cov,
                         shared_cov=False,
                         topology=[dict(start_id=a[0], end_id=a[1], trans_prob=a[2] / a[3])
                                   for a in rng.sample(g['arcs'], len(g['arcs']))]))
    path = os.path.join(d, 'conf.yml')
    with open(path, 'w') as f:
        yaml.safe_dump(conf, f)
    return path, conf


def write_units(case, d, rng):
    n = len(case['units'])
    names = rng.sample(NAMES if n <= len(NAMES) else ['u%d' % i for i in range(1, n + 1)], n)
    path = os.path.join(d, 'units')
    with open(path, 'w') as f:
        for n, g in zip(names, case['units']):
            f.write('%s %s\n' % (n, GROUPS[g - 1]))
    return path, names


def load(path):
    with open(path, 'rb') as f:
        return pickle.load(f)


def dump(obj, path):
    with open(path, 'wb') as f:
        pickle.dump(obj, f)
    return path


def build(case, d, rng, ncomp=1, dim=2, prior='dirichlet', conc=None):
    os.makedirs(d, exist_ok=True)
    conf, confd = write_conf(case, d, rng, ncomp)
    units, names = write_units(case, d, rng)
    p = {k: os.path.join(d, k) for k in ('hmms.mdl', 'ploop.graph', 'decode.graph', 'model.mdl')}
    cli('hmm', 'mkphones', ['-D', dim, conf, units, p['hmms.mdl']])
    cli('hmm', 'mkphoneloopgraph', (['-s', GROUPS[case['boundary'] - 1]] if case['boundary'] else []) + [units, p['ploop.graph']])
    cli('hmm', 'mkdecodegraph', [p['ploop.graph'], p['hmms.mdl'], p['decode.graph']])
    if prior:
        cli('hmm', 'mkphoneloop', (['-c', conc] if conc else []) + ['--weights-prior', prior, p['decode.graph'], p['hmms.mdl'], p['model.mdl']])
    p.update(conf=confd, units=units, names=names)
    return p


def table_model(beer, case, p, categorical=None, cls=None):
    '''The phone loop of the case with table-driven emissions (the features of
    a frame are the log-likelihoods of the densities).'''
    import torch
    from stub import TableSet
    graph, start, end = load(p['decode.graph'])
    cls = cls or beer.PhoneLoop
    return cls.create(graph.compile(), start, end, TableSet(case['npdf'], torch.float32), categorical)


def make_dataset(d, feats):
    'features archive + data set through the real commands; feats: {utt: array}.'
    import numpy as np
    fd = os.path.join(d, 'fea')
    os.makedirs(fd, exist_ok=True)
    for f in os.listdir(fd):
        os.unlink(os.path.join(fd, f))
    for u, x in feats.items():
        np.save(os.path.join(fd, u + '.npy'), x)
    npz, ds = os.path.join(d, 'fea.npz'), os.path.join(d, 'dataset')
    cli('features', 'archive', [fd, npz])
    cli('dataset', 'create', [d, npz, ds])
    return ds


def make_alis(d, p, trans):
    '''mkaligraph + archive; trans: list of (utt, unit names). Returns (dir, npz, logger).'''
    ad = os.path.join(d, 'ali')
    os.makedirs(ad, exist_ok=True)
    for f in os.listdir(ad):
        os.unlink(os.path.join(ad, f))
    _, log = cli('hmm', 'mkaligraph', [p['hmms.mdl'], ad], stdin=''.join('%s %s\n' % (u, ' '.join(t)) for u, t in trans))
    npz = os.path.join(d, 'ali.npz')
    cli('features', 'archive', [ad, npz])
    return ad, npz, log
