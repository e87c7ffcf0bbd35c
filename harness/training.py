'''Replay of spec/Training.tla behaviours with the real objectives, parameters
and optimisers.'''
import functools
import pickle
from math import lgamma
import torch
from conj import fl
from stub import Multi
from vlib import rat

F = torch.float64


@functools.lru_cache(None)
def psi(x):
    return float(torch.digamma(torch.tensor(float(x), dtype=F)))


def value_of(case, ev, with_w):
    v = 0.
    for i in ev:
        e = case['evals'][i - 1]
        scale = e['ds'] / e['nf']
        for p in range(case['np']):
            if (p + 1) not in e['view']:
                continue
            a, b = fl(e['post'][p])
            c, d = fl(case['prior'][p])
            n1, n2 = e['ones'][p], e['nf'] - e['ones'][p]
            v += scale * (n1 * (psi(a) - psi(a + b)) + n2 * (psi(b) - psi(a + b)))
            kl = lgamma(a + b) - lgamma(a) - lgamma(b) - lgamma(c + d) + lgamma(c) + lgamma(d) \
                + (a - c) * (psi(a) - psi(a + b)) + (b - d) * (psi(b) - psi(a + b))
            v -= kl
        if with_w:
            v += e['ds'] * float(rat(e['w']))
    return v


class Replay:
    def __init__(self, ctx, beer, case, with_w, wrap, clause):
        self.ctx, self.beer, self.case, self.with_w, self.wrap, self.clause = ctx, beer, case, with_w, wrap, clause
        self.model = Multi(fl(case['prior']), case['groups'], with_w)
        self.regs, self.saved = [], None
        self.post, self.stats = fl(case['prior']), [[0., 0.]] * case['np']
        self.w = 0.
        self.optim = self.make_optim(1. / case['lr0'], True)

    def make_optim(self, lr, first=False):
        o = self.beer.VBConjugateOptimizer(self.model.conjugate_bayesian_parameters(keepgroups=True), lrate=lr)
        self.cjg = o
        if self.wrap:
            s = torch.optim.SGD([self.model.w], lr=1. if first else .125, momentum=.5 if first else .25) if self.with_w else None
            return self.beer.VBOptimizer(o, s)
        return o

    def bad(self, what, detail):
        ops = [{k: v for k, v in h.items() if k not in ('post', 'stats')} for h in self.case['hist']]
        self.ctx.violation('%s-%s' % (self.clause, what), 'groups=%s ops=%s: %s' % (self.case['groups'], ops, detail), self.case)
        self.failed = True

    def check(self, where):
        for p, cat in enumerate(self.model.cats):
            c = cat.weights.posterior.params.concentrations.tolist()
            if any(abs(x - y) > 1e-7 * (1 + abs(y)) for x, y in zip(c, self.post[p])):
                self.bad('posterior', 'after %s parameter %d has posterior %s, expected %s' % (where, p + 1, c, self.post[p]))
            s = cat.weights.stats.tolist()
            e = [self.stats[p][0], sum(self.stats[p])]
            if any(abs(x - y) > 1e-7 * (1 + abs(y)) for x, y in zip(s, e)):
                self.bad('stored-statistics', 'after %s parameter %d holds %s, expected %s' % (where, p + 1, s, e))
            q = cat.weights.prior.params.concentrations.tolist()
            if any(abs(x - y) > 1e-9 for x, y in zip(q, fl(self.case['prior'][p]))):
                self.bad('prior', 'after %s the prior of %d is %s' % (where, p + 1, q))
        if self.with_w and abs(float(self.model.w) - self.w) > 1e-7:
            self.bad('gradient-parameter', 'after %s w=%s expected %s' % (where, float(self.model.w), self.w))

    def run(self):
        beer, self.failed = self.beer, False
        # theorem IdleRound: whole rounds without statistics change nothing
        self.optim.init_step()
        for _ in range(max(self.case['groups']) * self.ctx.rng.choice([0, 0, 1, 5, 23, 80])):
            self.optim.step()
        self.check('idle rounds')
        for n, h in enumerate(self.case['hist']):
            op = h['op']
            if op == 'eval':
                data = torch.zeros(h['nf'], self.case['np'], dtype=F)
                for p, ones in enumerate(h['ones']):
                    data[ones:, p] = 1
                sub = [p - 1 for p in h['sub']]
                kw = {} if len(sub) == len(h['view']) else dict(sub=sub)
                model = self.model if len(h['view']) == self.case['np'] else self.model.part([p - 1 for p in h['view']])
                if h['ds'] != 0:
                    kw['datasize'] = h['ds']
                elif n % 2:
                    kw['datasize'] = (0, -1, -7)[n % 3]
                self.regs.append(beer.evidence_lower_bound(model, data, **kw))
            elif op == 'empty':
                self.regs.append(beer.evidence_lower_bound(datasize=h['ds']))
            elif op == 'add':
                a, b = self.regs[h['i'] - 1], self.regs[h['j'] - 1]
                try:
                    s = a + b
                    if not h['ok']:
                        self.bad('mismatch-accepted', 'registers %d + %d' % (h['i'], h['j']))
                        return
                    self.regs.append(s)
                except ValueError:
                    if h['ok']:
                        self.bad('add-refused', 'registers %d + %d' % (h['i'], h['j']))
                        return
            elif op == 'pickle':
                r = pickle.loads(pickle.dumps(self.regs[h['i'] - 1]))
                if h['sync']:
                    r.sync(self.model)
                self.regs[h['i'] - 1] = r
            elif op == 'backward':
                self.regs[h['i'] - 1].backward()
                self.stats = fl(h['stats'])
            elif op == 'init':
                self.optim.init_step()
                self.stats = fl(h['stats'])
            elif op == 'step':
                self.optim.step()
                self.post, self.w = fl(h['post']), float(rat(h['w']))
            elif op == 'rate':
                self.cjg.lrate = float(rat(h['lr']))
            elif op == 'savestate':
                self.saved = pickle.dumps(self.optim.state_dict())
            elif op == 'restore':
                if h['reload']:
                    self.model = pickle.loads(pickle.dumps(self.model))
                self.optim = self.make_optim(.25)
                self.optim.load_state_dict(pickle.loads(self.saved))
            self.check('%s (operation %d)' % (op, n + 1))
            if self.failed:
                return
        # values and pending statistics of every register
        for i, (r, e) in enumerate(zip(self.regs, self.case['regs'])):
            v = value_of(self.case, e['ev'], self.with_w)
            if abs(float(r) - v) > 1e-6 * (1 + abs(v)):
                self.bad('value', 'register %d (evaluations %s) has value %s, expected %s' % (i + 1, e['ev'], float(r), v))
            if e['nf'] > 0 and not self.with_w:
                for cat in self.model.cats:
                    cat.weights.stats = torch.full_like(cat.weights.stats, -5.)
                r.sync(self.model)
                r.backward()
                for p, cat in enumerate(self.model.cats):
                    got = cat.weights.stats.tolist()
                    s = e['ds'] / e['nf']
                    exp = [s * e['acc'][p][0], s * sum(e['acc'][p])] if (p + 1) in e['has'] else [-5., -5.]
                    if any(abs(x - y) > 1e-7 * (1 + abs(y)) for x, y in zip(got, exp)):
                        self.bad('statistics', 'register %d back-propagated: parameter %d holds %s, expected %s' % (i + 1, p + 1, got, exp))
            if self.failed:
                return
