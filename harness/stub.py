'''Emission densities given by a table: used with the real HMM / PhoneLoop /
modelset code so that likelihoods are exactly those of the specification.'''
import torch
import beer
from beer.models.modelset import ModelSet
from beer.models.parameters import ConjugateBayesianParameter
from beer.dists import Dirichlet


class TableSet(ModelSet):
    '''n densities; the "features" of a frame are the n log-likelihoods.
    Accumulated statistics: the total responsibility of each density and the
    responsibility-weighted sum of the features.'''

    def __init__(self, n, dtype=torch.float64, name='t'):
        super().__init__()
        self.n, self.name = n, name
        c = torch.ones(2, n, dtype=dtype)
        self.param = ConjugateBayesianParameter(Dirichlet.from_std_parameters(c),
                                                Dirichlet.from_std_parameters(c.clone()))

    def mean_field_factorization(self):
        return [[self.param]]

    def sufficient_statistics(self, data):
        return data

    def expected_log_likelihood(self, stats, **kwargs):
        return stats[:, :self.n]

    def accumulate(self, stats, resps):
        self.seen = resps
        return {self.param: torch.stack([resps.sum(dim=0), (resps * torch.arange(1, len(resps) + 1, dtype=resps.dtype)[:, None]).sum(dim=0)])}

    def __getitem__(self, key):
        return ('%s' % self.name, key)

    def __len__(self):
        return self.n


class LeafTable(TableSet):
    'Densities off..off+n-1 of a common table of features.'

    def __init__(self, off, n, dtype=torch.float64):
        super().__init__(n, dtype, 'd')
        self.off = off

    def expected_log_likelihood(self, stats, **kwargs):
        return stats[:, self.off:self.off + self.n]

    def __getitem__(self, key):
        return 'd', key + self.off


class WeightTable(ModelSet):
    'A set of categoricals with given (unnormalised) weights.'

    def __init__(self, weights, ident, dtype=torch.float64):
        super().__init__()
        self.w = torch.tensor(weights, dtype=dtype)
        self.ident = ident
        self.param = ConjugateBayesianParameter(Dirichlet.from_std_parameters(torch.ones_like(self.w)),
                                                Dirichlet.from_std_parameters(torch.ones_like(self.w)))

    def mean_field_factorization(self):
        return [[self.param]]

    def sufficient_statistics(self, data):
        return data

    def expected_log_likelihood(self, stats):
        return stats.to(self.w.dtype) @ self.w.log().t()

    def accumulate(self, stats, resps):
        return {self.param: resps.t() @ stats}

    def accumulate_from_jointresps(self, jointresps):
        return {self.param: jointresps.sum(dim=0)}

    def __len__(self):
        return len(self.w)

    def __getitem__(self, key):
        return 'w', key


class Multi(beer.models.basemodel.Model):
    '''Several independent two-category Categoricals with a given mean-field
    grouping (a user model); column p of a frame is the category of parameter p.'''

    def __init__(self, priors, groups, with_w, dtype=torch.float64):
        super().__init__()
        cats = []
        for c in priors:
            c = torch.tensor(c, dtype=dtype)
            cats.append(beer.Categorical(ConjugateBayesianParameter(
                Dirichlet.from_std_parameters(c), Dirichlet.from_std_parameters(c.clone()))))
        self.cats = torch.nn.ModuleList(cats)
        self.groups = groups
        if with_w:
            self.w = torch.nn.Parameter(torch.zeros((), dtype=dtype))
        self.with_w = with_w
        self.cols = list(range(len(cats)))

    def part(self, cols):
        'A model of some of the parameters, which are shared.'
        m = Multi([], [], False)
        m.cats = torch.nn.ModuleList([self.cats[i] for i in cols])
        m.groups, m.cols, m.with_w = [self.groups[i] for i in cols], list(cols), self.with_w
        if self.with_w:
            m.w = self.w
        return m

    def mean_field_factorization(self):
        return [[c.weights for c, g in zip(self.cats, self.groups) if g == k] for k in sorted(set(self.groups))]

    def sufficient_statistics(self, data):
        eye = torch.eye(2, dtype=torch.float64)
        return torch.stack([c.sufficient_statistics(eye[data[:, i].long()]) for i, c in zip(self.cols, self.cats)])

    def expected_log_likelihood(self, stats, sub=None):
        self.cache['sub'] = sub
        llh = sum(c.expected_log_likelihood(s) for c, s in zip(self.cats, stats))
        return llh + self.w if self.with_w else llh

    def accumulate(self, stats, parent_msg=None):
        sub = self.cache['sub']
        out = {}
        for i, c, s in zip(self.cols, self.cats, stats):
            if sub is None or i in sub:
                out.update(c.accumulate(s))
        return out


class Composite(beer.models.basemodel.Model):
    'Independent models of the same data, one mean-field group each.'

    def __init__(self, parts):
        super().__init__()
        self.parts = torch.nn.ModuleList(parts)

    def mean_field_factorization(self):
        return [g for p in self.parts for g in p.mean_field_factorization()]

    def sufficient_statistics(self, data):
        return [p.sufficient_statistics(data) for p in self.parts]

    def expected_log_likelihood(self, stats, **kw):
        return sum(p.expected_log_likelihood(s) for p, s in zip(self.parts, stats))

    def accumulate(self, stats, parent_msg=None):
        out = {}
        for p, s in zip(self.parts, stats):
            out.update(p.accumulate(s))
        return out


class LogTable(TableSet):
    'Densities whose log-likelihood is the logarithm of the feature (not linear in the statistics).'

    def expected_log_likelihood(self, stats, **kwargs):
        return stats[:, :self.n].log()


class CountStub(Multi):
    '''The model of spec/CountModel.tla as the hmm commands use a model: the
    "inference graph" is the multiplicity its utterance is counted with.'''

    def sufficient_statistics(self, data):
        return super().sufficient_statistics(data.double())

    def expected_log_likelihood(self, stats, inference_graph=None, scale=1., **kw):
        self.cache['mult'] = scale * (1 if inference_graph is None else int(inference_graph))
        self.cache['extra'] = sorted(kw)
        return super().expected_log_likelihood(stats)

    def accumulate(self, stats, parent_msg=None):
        k = self.cache['mult']
        return {p: k * s for p, s in super().accumulate(stats).items()}


VISITS = []


class VisitStub(CountStub):
    'Records the last column of the first frame of every utterance it is evaluated on.'

    def sufficient_statistics(self, data):
        VISITS.append(int(data[0, -1]))
        return super().sufficient_statistics(data)


def ordered(dataset, orders):
    dataset.orders = [list(o) for o in orders]
    dataset.__class__ = OrderedDataset
    return dataset


from beer.cli.dataset import Dataset, UtteranceIterator     # noqa: E402


class OrderedDataset(Dataset):
    'A data set whose k-th iteration visits the utterances in a given order.'

    def utterances(self, *args, **kwargs):
        return UtteranceIterator(self.orders.pop(0), self.fea_dict)
