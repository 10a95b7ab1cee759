"""The univariate distributions: admissible parameters, points, textbook log densities and CDFs (written here or taken from scipy)."""
import math
from hypothesis import strategies as st
from scipy import stats, special
from ap import L, var

INF = float("inf")
lg = math.lgamma
POS = st.one_of(st.sampled_from([0.5, 1.0, 2.0, 3.0]), st.floats(0.05, 20).map(lambda x: round(x, 4)), st.floats(0.2, 4).map(lambda x: round(x, 6)))
MU = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.0]), st.floats(-30, 30).map(lambda x: round(x, 4)))
U01 = st.floats(0.0005, 0.9995).map(lambda x: round(x, 6))


def ln(x):
    return math.log(x) if x > 0 else -INF


def xlny(x, y):
    return 0.0 if x == 0 else x * ln(y)


class M:
    def __init__(self, c, params, point, ll, outside, dist, disc=False):
        self.c, self.params, self.point, self.ll, self.outside, self.dist, self.disc = c, params, point, ll, outside, dist, disc


def q(dist):
    """points spread over the distribution: quantiles"""
    def f(p):
        return U01.map(lambda u: float(dist(p).ppf(u)))
    return f


def norm_ll(x, p):
    return -(x - p[0]) ** 2 / (2 * p[1] ** 2) - math.log(p[1]) - .5 * math.log(2 * math.pi)


def t_ll(x, p):
    z, n = (x - p[0]) / p[1], p[2]
    return lg((n + 1) / 2) - lg(n / 2) - .5 * math.log(n * math.pi) - (n + 1) / 2 * math.log1p(z * z / n) - math.log(p[1])


def beta_ll(x, p):
    if not 0 <= x <= 1:
        return -INF
    return xlny(p[0] - 1, x) + xlny(p[1] - 1, 1 - x) - (lg(p[0]) + lg(p[1]) - lg(p[0] + p[1]))


def gamma_ll(x, p):
    return -INF if x < 0 else xlny(p[0] - 1, x) - x / p[1] - lg(p[0]) - p[0] * math.log(p[1])


def yule_ll(x, p):
    return -INF if x < 1 else math.log(p[0] - 1) + lg(p[0]) + lg(x) - lg(x + p[0])


def intlike(f):
    return lambda x, p: f(x, p)


NEG = st.sampled_from([-1.0, -0.25, -3.0])
ints = lambda lo, hi: st.integers(lo, hi).map(float)
MODELS = {
    "normal": M("apop_normal", st.tuples(MU, POS), lambda p: st.one_of(U01.map(lambda u: p[0] + p[1] * float(special.ndtri(u))), MU), norm_ll, None, lambda p: stats.norm(p[0], p[1])),
    "lognormal": M("apop_lognormal", st.tuples(st.floats(-3, 3).map(lambda x: round(x, 4)), st.floats(0.1, 3).map(lambda x: round(x, 4))),
                   lambda p: U01.map(lambda u: math.exp(p[0] + p[1] * float(special.ndtri(u)))),
                   lambda x, p: -INF if x <= 0 else norm_ll(math.log(x), p) - math.log(x), st.one_of(NEG, st.just(0.0)), lambda p: stats.lognorm(p[1], scale=math.exp(p[0]))),
    "exponential": M("apop_exponential", st.tuples(POS), lambda p: st.one_of(U01.map(lambda u: -p[0] * math.log1p(-u)), st.just(0.0)),
                     lambda x, p: -INF if x < 0 else -math.log(p[0]) - x / p[0], NEG, lambda p: stats.expon(scale=p[0])),
    "gamma": M("apop_gamma", st.tuples(POS, POS), lambda p: st.one_of(q(lambda p: stats.gamma(p[0], scale=p[1]))(p).filter(lambda x: x > 0), st.sampled_from([0.0, 1.0]) if p[0] >= 1 else st.just(1.0)),
               gamma_ll, NEG, lambda p: stats.gamma(p[0], scale=p[1])),
    "beta": M("apop_beta", st.tuples(POS, POS), lambda p: st.one_of(q(lambda p: stats.beta(p[0], p[1]))(p).filter(lambda x: 0 < x < 1), st.sampled_from([0.0, 1.0, 0.5]) if p[0] >= 1 and p[1] >= 1 else st.just(0.5)),
              beta_ll, st.sampled_from([-0.5, 1.5, 2.0, -1.0]), lambda p: stats.beta(p[0], p[1])),
    "uniform": M("apop_uniform", st.tuples(MU, POS).map(lambda t: (t[0], t[0] + t[1])), lambda p: st.one_of(U01.map(lambda u: p[0] + u * (p[1] - p[0])), st.sampled_from(p)),
                 lambda x, p: -math.log(p[1] - p[0]) if p[0] <= x <= p[1] else -INF, None, lambda p: stats.uniform(p[0], p[1] - p[0])),
    "t": M("apop_t_distribution", st.tuples(MU, POS, st.one_of(ints(1, 40), st.floats(0.95, 30).map(lambda x: round(x, 3)))), lambda p: st.one_of(U01.map(lambda u: p[0] + p[1] * float(special.ndtri(u))), MU), t_ll, None,
           lambda p: stats.t(p[2], p[0], p[1])),
    "bernoulli": M("apop_bernoulli", st.tuples(st.one_of(U01, st.sampled_from([0.5, 0.25]))), lambda p: st.sampled_from([0.0, 1.0]), lambda x, p: ln(p[0]) if x else ln(1 - p[0]), None,
                   lambda p: stats.bernoulli(p[0]), True),
    "poisson": M("apop_poisson", st.tuples(st.one_of(POS, st.floats(20, 900).map(lambda x: round(x, 2)))), lambda p: st.one_of(U01.map(lambda u: float(stats.poisson.ppf(u, p[0]))), ints(0, 6)),
                 lambda x, p: -INF if x < 0 or x != math.floor(x) else x * math.log(p[0]) - p[0] - lg(x + 1), st.sampled_from([-1.0, -2.0, 0.5, 3.25, -0.5]), lambda p: stats.poisson(p[0]), True),
    "zipf": M("apop_zipf", st.tuples(st.floats(1.05, 6).map(lambda x: round(x, 4))), lambda p: st.one_of(ints(1, 8), ints(1, 5000)), lambda x, p: -INF if x < 1 else -p[0] * math.log(x) - math.log(special.zeta(p[0])),
              st.sampled_from([0.0, -1.0, -7.0]), lambda p: stats.zipf(p[0]), True),
    "yule": M("apop_yule", st.tuples(st.floats(1.05, 8).map(lambda x: round(x, 4))), lambda p: st.one_of(ints(1, 8), ints(1, 5000)), yule_ll, st.sampled_from([0.0, -1.0, -7.0]), lambda p: stats.yulesimon(p[0] - 1), True),
}


def model(name, p):
    return L.ppiP_sh_set_params(var(MODELS[name].c), len(p), list(p))
