'''Reference values of the digamma and log-gamma functions and of expectations
under Dirichlet / Beta posteriors (double precision, no torch).'''
import math


def psi(x):
    r = 0.
    while x < 12.:
        r -= 1. / x
        x += 1.
    f = 1. / (x * x)
    return r + math.log(x) - .5 / x - f * (1 / 12. - f * (1 / 120. - f * (1 / 252. - f * (1 / 240. - f * (1 / 132.)))))


lgamma = math.lgamma


def dir_elog(c):
    s = psi(sum(c))
    return [psi(x) - s for x in c]


def sb_mean(ab, order):
    'Expected weights, original category order; order: category (0-based) of each rank.'
    out, rest = [0.] * len(ab), 1.
    for i in order:
        a, b = ab[i]
        out[i] = rest * a / (a + b)
        rest *= b / (a + b)
    return out


def sb_elog(ab, order):
    out, rest = [0.] * len(ab), 0.
    for i in order:
        a, b = ab[i]
        out[i] = rest + psi(a) - psi(a + b)
        rest += psi(b) - psi(a + b)
    return out
