'''A scratch copy of the recipe: the scripts of the code under test, a small
corpus, stand-ins for the grid engine, and runs that are interrupted.'''
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import time
import numpy as np
import torch
import yaml
import beerd
import vlib

CONF = [dict(group_name='non-speech-unit', n_normal_per_state=1, prior_strength=1., noise_std=.1, cov_type='diagonal', shared_cov=False,
             topology=[dict(start_id=a, end_id=b, trans_prob=w) for a, b, w in [(0, 1, 1.), (1, 1, .5), (1, 2, .5), (2, 2, .5), (2, 3, .5)]]),
        dict(group_name='speech-unit', n_normal_per_state=2, prior_strength=1., noise_std=.5, cov_type='diagonal', shared_cov=False,
             topology=[dict(start_id=a, end_id=b, trans_prob=w) for a, b, w in [(0, 1, 1.), (1, 1, .75), (1, 2, .25), (2, 2, .75), (2, 3, .25)]])]


def tensors(obj, seen=None, path=''):
    'All tensors of a model but the accumulated statistics.'
    seen = set() if seen is None else seen
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, torch.Tensor):
        yield path, obj.detach().double()
    elif isinstance(obj, dict):
        for k in sorted(obj, key=str):
            if k not in ('stats', 'training'):
                yield from tensors(obj[k], seen, path + '.' + str(k))
    elif isinstance(obj, (list, tuple)):
        for i, x in enumerate(obj):
            yield from tensors(x, seen, path + '[%d]' % i)
    elif hasattr(obj, '__dict__') and not isinstance(obj, type) and not callable(getattr(obj, '__code__', None)):
        yield from tensors(obj.__dict__, seen, path)


def differ(a, b, tol=2e-3):
    ta, tb = list(tensors(a)), list(tensors(b))
    if [(p, tuple(x.shape)) for p, x in ta] != [(p, tuple(x.shape)) for p, x in tb]:
        return 'other parameters'
    for (p, x), (_, y) in zip(ta, tb):
        if not torch.allclose(x, y, rtol=tol, atol=tol):
            return '%s: %s, expected %s' % (p, x.flatten()[:6].tolist(), y.flatten()[:6].tolist())
    return None


class Recipe:
    def __init__(self, root, repo=None, more=()):
        self.root = root
        self.repo = repo or vlib.REPO
        os.makedirs(root)
        self.dir = os.path.join(root, 'aud')
        src = os.path.join(self.repo, 'recipes', 'aud')
        os.makedirs(self.dir)
        for x in ('steps', 'utils'):
            shutil.copytree(os.path.join(src, x), os.path.join(self.dir, x))
        shutil.copy(os.path.join(src, 'path.sh'), self.dir)
        self.sock = os.path.join(root, 's')
        self.bin = os.path.join(root, 'bin')
        beerd.install(self.bin, self.sock, more)
        self.log = open(os.path.join(root, 'server.log'), 'w')
        self.server = subprocess.Popen([sys.executable, beerd.__file__, self.sock, self.repo], stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL)
        t = time.time()
        while not os.path.exists(self.sock):
            if self.server.poll() is not None or time.time() - t > 120:
                raise RuntimeError('the package cannot be imported: %s' % open(os.path.join(root, 'server.log')).read()[-500:])
            time.sleep(.05)
        self.runs = 0

    def close(self):
        self.server.kill()
        self.server.wait()
        self.log.close()
        shutil.rmtree(self.root, ignore_errors=True)

    def env(self, run=''):
        return dict(PATH=self.bin + ':/usr/local/bin:/usr/bin:/bin', HOME=self.root, LANG='C.UTF-8', BEERD_RUN=run, TMPDIR=self.root)

    def beer(self, *argv, stdin=''):
        p = subprocess.run([os.path.join(self.bin, 'beer')] + [str(a) for a in argv], input=stdin.encode(), cwd=self.dir, env=self.env(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise RuntimeError('beer %s: %s' % (' '.join(map(str, argv)), p.stderr.decode()[-400:]))
        return p.stdout.decode()

    def corpus(self, rng, n, nunits=2, dim=2):
        'n utterances with data, features, dataset, units and configuration.'
        d = os.path.join(self.root, 'data')
        os.makedirs(d)
        gen = np.random.RandomState(rng.randrange(1 << 30))
        ids = rng.sample(['u%d' % i for i in range(10)] + ['speaker_%d-long-name' % i for i in range(10)], n)
        self.fea = {u: (gen.randn(gen.randint(6, 14), dim) + 2 * k).astype(np.float32) for k, u in enumerate(ids)}
        np.savez(os.path.join(d, 'fea.npz'), **self.fea)
        with open(os.path.join(d, 'uttids'), 'w') as f:
            f.write(''.join(u + '\n' for u in ids))
        with open(os.path.join(d, 'units'), 'w') as f:
            f.write('sil non-speech-unit\n' + ''.join('au%d speech-unit\n' % i for i in range(1, nunits + 1)))
        with open(os.path.join(d, 'hmm.yml'), 'w') as f:
            yaml.safe_dump(CONF, f)
        self.data, self.ids = d, ids
        self.ds = os.path.join(d, 'set.pkl')
        self.beer('dataset', 'create', d, os.path.join(d, 'fea.npz'), self.ds)

    # ------------------------------------------------------------------ running
    def quiet(self):
        'Commands of an interrupted run die with it.'
        path = '/proc/%d/task/%d/children' % (self.server.pid, self.server.pid)
        while True:
            with open(path) as f:
                pids = f.read().split()
            if not pids:
                return
            for pid in pids:
                try:
                    os.kill(int(pid), signal.SIGKILL)
                except ProcessLookupError:
                    pass
            time.sleep(.002)

    def run(self, step, argv, plan=(), timeout=None, stopafter=None):
        '''bash steps/<step>.sh argv...; returns (status, fired): status None
        when it was interrupted, fired the point of the plan that was met.'''
        self.runs += 1
        run = os.path.join(self.root, 'run%d' % self.runs)
        os.makedirs(run)
        with open(os.path.join(run, 'plan.json'), 'w') as f:
            json.dump(list(plan), f)
        with open(os.path.join(run, 'out'), 'w') as out:
            p = subprocess.Popen(['bash', 'steps/%s.sh' % step] + [str(a) for a in argv], cwd=self.dir, env=self.env(run), stdout=out,
                                 stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
            killed = False
            try:
                rc = p.wait(timeout=stopafter or timeout or 300)
            except subprocess.TimeoutExpired:
                if not stopafter:
                    rc = 'timeout'
                killed = True
            try:
                os.killpg(p.pid, signal.SIGKILL)        # also what it left behind
            except ProcessLookupError:
                pass
            p.wait()
            self.quiet()
        fired = os.path.join(run, 'fired')
        point = json.load(open(fired)) if os.path.exists(fired) else None
        with open(os.path.join(run, 'out')) as f:
            self.output = f.read()[-600:]
        if killed or (point and point['mode'] == 'crash'):
            return ('timeout' if killed and not stopafter else None), point
        return rc, point


def load(path):
    with open(path, 'rb') as f:
        return pickle.load(f)
