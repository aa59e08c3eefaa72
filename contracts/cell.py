"""The contract of ndt_2d::Cell, shared by C01 and C02."""
from api import *
Q = 'ndt_2d::Cell'
V2 = 'Eigen::Matrix<double, 2, 1, 0>'
F = {'n': 'n', 'mx': 'mean.d_[0]', 'my': 'mean.d_[1]', 'c00': 'correlation.d_[0]', 'c01': 'correlation.d_[2]', 'c11': 'correlation.d_[3]',
     'v00': 'covariance.d_[0]', 'v10': 'covariance.d_[1]', 'v01': 'covariance.d_[2]', 'v11': 'covariance.d_[3]',
     'i00': 'information.d_[0]', 'i10': 'information.d_[1]', 'i01': 'information.d_[2]', 'i11': 'information.d_[3]'}
N = z3.Int('N')                          # ghost: how many points were added
GX, GY = z3.Function('gx', I, R), z3.Function('gy', I, R)   # ghost: the points added
def S(f, n=N): return SUMS.make(n, f)
SX = lambda n=N: S(lambda j: GX(j), n)
SY = lambda n=N: S(lambda j: GY(j), n)
SXX = lambda n=N: S(lambda j: GX(j) * GX(j), n)
SXY = lambda n=N: S(lambda j: GX(j) * GY(j), n)
SYY = lambda n=N: S(lambda j: GY(j) * GY(j), n)
def g(c, st, P, k): return zr(c.get(st, P, F[k]))
def moments(c, st, P, n):
    """mean and second moments are those of exactly the points added so far"""
    k = lambda x: g(c, st, P, x)
    nn = zr(n)
    return [('count', eqv(k('n'), nn)),
            ('mean x', eqv(k('mx') * nn, SX(n))), ('mean y', eqv(k('my') * nn, SY(n))),
            ('second moment xx', eqv(k('c00') * nn, SXX(n))), ('second moment xy', eqv(k('c01') * nn, SXY(n))),
            ('second moment yy', eqv(k('c11') * nn, SYY(n)))]
def sample_cov(n):
    """entries of the unbiased sample covariance of the ghost points, times n(n-1)"""
    nn = zr(n)
    return {'v00': nn * SXX(n) - SX(n) * SX(n), 'v01': nn * SXY(n) - SX(n) * SY(n), 'v10': nn * SXY(n) - SX(n) * SY(n), 'v11': nn * SYY(n) - SY(n) * SY(n)}
def cov_ok(c, st, P, n):
    nn = zr(n)
    return [(k, eqv(g(c, st, P, k) * nn * (nn - 1), e)) for k, e in sample_cov(n).items()]
def form(n, u, v):
    """n^2 times the variance of the points along (u, v)"""
    m = sample_cov(n)
    return m['v00'] * u * u + 2 * m['v01'] * u * v + m['v11'] * v * v
def lemma_spread(c, st, n=None):
    """by induction over the points: the spread along any direction is not negative
    (base: both sides are 0; step: see t_lemma)"""
    pass
