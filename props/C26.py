"""Model transformations: fixed parameters, mixtures, cross products, data constraints, coordinate changes."""
import ctypes as C
import math
import numpy as np
from hypothesis import strategies as st
from scipy import special, stats
from engine import Facet, Bad
from ap import *
import models as MD
from models import MODELS, INF
import props.C20 as C20
from props.C20 import cmp, tol
from props.C22 import ks, take as take_draws

RULE = ("fix: a univariate, multivariate Normal or many-paged model with every pattern of free and fixed parameters, and five changes of the free ones. mixture: 1 to 4 components and any weights. em: the same, with free weights, for four steps that each evaluate the likelihood and the constraint. cross: 1 to 4 models, on one data set, on two pages, or on rows of draws, including models whose draws are several numbers. "
        "truncate: intervals holding 2% or more of the base model's density. change: affine and logarithmic maps. "
        "Non-trivial: at least one free and one fixed parameter; at least two components with different parameters; a finite likelihood. Distinct by the whole case.")
ASSUMPTIONS = ["a mixture's log likelihood is, as documented, that of the most likely component times its weight for each observation", "observations of truncated and transformed models are one number each",
               "estimates are compared where the maximum has a closed form or is found at a tolerance of 1e-8"]

KEEP = []
R3 = lambda x: round(x, 3)


def models(l):
    a = (C.c_void_p * (len(l) + 1))(*l)
    KEEP[:] = [a]
    return a


def mixture(l, w, find=0):
    return L.pipPi_sh_mixture(len(l), C.addressof(models(l)), w, find)


def cross(l, page=None):
    return L.pips_sh_cross(len(l), C.addressof(models(l)), page)


# ------------------------------------------------------------ fixed parameters
@st.composite
def fix_c(draw):
    kind = draw(st.sampled_from(["uni", "uni", "mvn", "pages", "pages"]))
    c = {"k": kind, "seed": draw(st.integers(1, 10**5)), "start": draw(st.booleans())}
    if kind == "uni":
        n = draw(st.sampled_from(["normal", "gamma", "beta", "t", "uniform", "lognormal"]))
        M = MODELS[n]
        c["n"], c["p"] = n, list(draw(M.params))
        c["x"] = [draw(M.point(c["p"])) for _ in range(draw(st.integers(1, 6)))]
        alts = [list(draw(M.params)) for _ in range(4)]
        size = len(c["p"])
    elif kind == "mvn":
        k = draw(st.integers(1, 3))
        mk1 = lambda: [draw(st.floats(-3, 3).map(R3)) for _ in range(k)]

        def mk2():
            A = np.array([[draw(st.floats(-1, 1)) for _ in range(k)] for _ in range(k)])
            S = np.round(A @ A.T + .5 * np.eye(k), 3)
            return [float(x) for i in range(k) for x in [y for p in [S[i]] for y in p]]
        c["kk"] = k
        c["p"] = mk1() + mk2()
        c["x"] = [[draw(st.floats(-4, 4).map(R3)) for _ in range(k)] for _ in range(draw(st.integers(1, 4)))]
        alts = [mk1() + mk2() for _ in range(3)]
        size = k + k * k
    else:
        shape = []
        for _ in range(draw(st.integers(1, 3))):
            s = (draw(st.integers(0, 3)), draw(st.integers(0, 2)), draw(st.integers(1, 2)))
            shape.append(s if s[0] or s[1] else (1, 0, 1))
        size = sum(a + b * d for a, b, d in shape)
        c["shape"] = shape
        c["p"] = [draw(st.floats(-3, 3).map(R3)) for _ in range(size)]
        alts = [[draw(st.floats(-3, 3).map(R3)) for _ in range(size)] for _ in range(4)]
        c["con"] = draw(st.booleans())
    c["free"] = draw(st.lists(st.booleans(), min_size=size, max_size=size))
    if draw(st.integers(0, 3)) and not any(c["free"]):
        c["free"][draw(st.integers(0, size - 1))] = True
    c["alt"] = alts
    return c


def pages_data(shape, p):
    out, at = None, 0
    l = []
    for a, b, d in shape:
        v = p[at:at + a]
        at += a
        m = [p[at + i * d:at + i * d + d] for i in range(b)]
        at += b * d
        l.append((v, m))
    for v, m in reversed(l):
        out = {"v": v or None, "m": m or None, "more": out}
        if l.index((v, m)) and out:
            out["title"] = "page"
    return out


def packed(d):
    o = []
    while d:
        o += list(d["v"] or []) + [x for r in d["m"] or [] for x in r]
        d = d["more"]
    return o


def run_fix(c):
    free, p, kind = c["free"], c["p"], c["k"]
    hole = [math.nan if f else x for f, x in zip(free, p)]
    if kind == "uni":
        M = MODELS[c["n"]]
        build = lambda q: L.ppiiiiiPP_sh_model(var(M.c), -1, -1, -1, 1, 0, q, [])
        data = lambda: C20.layout(c["x"], "v", 1)
        ll = lambda q: sum(M.ll(x, q) for x in c["x"])
    elif kind == "mvn":
        k = c["kk"]
        build = lambda q: L.ppiiiiiPP_sh_model(var("apop_multivariate_normal"), k, k, k, k, 0, q[:k], q[k:])
        data = lambda: mk({"m": c["x"]})

        def ll(q):
            S = np.array(q[k:]).reshape(k, k)
            if np.abs(S - S.T).max() > 1e-9 or np.linalg.eigvalsh(S).min() < .05:
                return None
            return float(stats.multivariate_normal(q[:k], S).logpdf(np.array(c["x"])).sum())
    else:
        build = lambda q: L.ppi_sh_pages_model(mk(pages_data(c["shape"], q)), int(c["con"]))
        data = lambda: mk({"v": [1.0]})
        ll = lambda q: -sum((i + 1) * (x - 1) ** 2 for i, x in enumerate(q))
    base = build(hole)
    if c["start"]:
        L.vpiPs_sh_fine_mle(base, len(p), p, "NM simplex")
    f = L.pp_sh_fix(base)
    check(f, "no model back")
    eq(L.ip_sh_get_dsize(f), L.ip_sh_get_dsize(base), "size of one draw")
    if not any(free):
        near(packed(dump(L.pp_sh_params(f))), p, "parameters where nothing was free", 1e-15)
        if ll(p) is not None:
            cmp(L.dpp_apop_log_likelihood(data(), f), ll(p), tol([ll(p)]), "log likelihood where nothing was free")
        return ["nothing free"]
    d = data()
    L.vpp_sh_prep(d, f)
    nf = sum(free)
    eq(len(packed(dump(L.pp_sh_params(f)))), nf, "number of parameters left free")
    nt = 0
    for q in [p] + c["alt"]:
        q = [y if fr else x for fr, x, y in zip(free, p, q)]
        if kind == "uni" and c["n"] == "uniform" and q[0] >= q[1]:
            continue
        want = ll(q)
        if want is None:
            continue
        L.vpiP_sh_fill(L.pp_sh_params(f), nf, [x for x, fr in zip(q, free) if fr])

        def by_ll():
            cmp(L.dpp_apop_log_likelihood(d, f), want, tol([want]) * (1e3 if kind == "mvn" else 1), "log likelihood with %s free of %s" % (free, q))

        def by_p():
            if math.isfinite(want) and want > -600:
                near(L.dpp_apop_p(d, f), math.exp(want), "probability with %s free of %s" % (free, q), 1e-6, 1e-290)

        def by_draw():
            if kind != "pages":
                w = c.get("kk", 1)
                a = arr(L.ppiii_sh_draws(f, 30, w, c["seed"]))
                b = arr(L.ppiii_sh_draws(build(q), 30, w, c["seed"]))
                eq(a.tolist(), b.tolist(), "draws with %s free of %s" % (free, q))
        go = [by_ll, by_p, by_draw]
        first = (c["seed"] + nt) % 3        # any of them may be the first to see the new parameters
        for g in go[first:] + go[:first]:
            g()
        near(packed(dump(L.pp_sh_params(f))), [x for x, fr in zip(q, free) if fr], "free parameters after evaluation", 1e-15)
        near(packed(dump(L.pp_sh_params(L.pp_sh_fix_base(f)))), q, "base model's parameters", 1e-15)
        nt += 1
        if kind == "pages" and c["con"]:
            L.vpiP_sh_fill(L.pp_sh_params(f), nf, [x for x, fr in zip(q, free) if fr])
            s = sum(q)
            near(L.dpp_sh_constraint(d, f), max(0.0, -s), "constraint on %s" % q, 1e-9, 1e-9)
            shift = -s / len(q) if s < 0 else 0
            near(packed(dump(L.pp_sh_params(f))), [x + shift for x, fr in zip(q, free) if fr], "free parameters after the constraint", 1e-9, 1e-9)
            near(packed(dump(L.pp_sh_params(L.pp_sh_fix_base(f)))), [x + shift if fr else x for x, fr in zip(q, free)], "all parameters after the constraint", 1e-9, 1e-9)
    return [kind] + (["nt"] if nt and not all(free) else [])


@st.composite
def fixest_c(draw):
    kind = draw(st.sampled_from(["mu", "sigma", "shape", "mean", "pages", "pages", "scale"]))
    n = draw(st.integers(3, 12))
    c = {"k": kind, "seed": draw(st.integers(1, 10**5)), "meth": draw(st.sampled_from(["NM simplex", "BFGS cg", "PR cg"]))}
    if kind in ("shape", "scale"):
        c["x"] = [draw(st.floats(.2, 9).map(R3)) for _ in range(n)]
        c["fix"] = draw(st.floats(.7, 4).map(R3))
    elif kind == "pages":
        c["shape"] = [(draw(st.integers(1, 2)), draw(st.integers(0, 1)), 2) for _ in range(draw(st.integers(1, 2)))]
        size = sum(a + b * d for a, b, d in c["shape"])
        c["p"] = [draw(st.floats(-3, 3).map(R3)) for _ in range(size)]
        c["free"] = draw(st.lists(st.booleans(), min_size=size, max_size=size).filter(any))
        c["start"] = [draw(st.floats(-2, 3).map(R3)) for _ in range(size)]
    elif kind == "mean":
        c["x"] = [[draw(st.floats(-4, 4).map(R3)) for _ in range(2)] for _ in range(n)]
    else:
        c["x"] = draw(st.lists(st.floats(-4, 6).map(R3), min_size=n, max_size=n, unique=True))
        c["fix"] = draw(st.floats(.7, 4).map(R3))
    return c


def run_fixest(c):
    kind = c["k"]
    NAN = math.nan
    if kind == "pages":
        base = L.ppi_sh_pages_model(mk(pages_data(c["shape"], [NAN if f else x for f, x in zip(c["free"], c["p"])])), 0)
        d = mk({"v": [1.0]})
        start = c["start"]
        want = [1.0 if f else x for f, x in zip(c["free"], c["p"])]
    elif kind == "mean":
        S = [1.0, .3, .3, 2.0]
        base = L.ppiiiiiPP_sh_model(var("apop_multivariate_normal"), 2, 2, 2, 2, 0, [NAN, NAN], S)
        d = mk({"m": c["x"]})
        start = [.1, -.1] + S
        want = [float(x) for x in np.mean(c["x"], axis=0)] + S
    else:
        x = np.array(c["x"])
        d = mk({"v": c["x"]})
        f = c["fix"]
        if kind in ("shape", "scale"):
            q = [f, NAN] if kind == "shape" else [NAN, f]
            base = L.ppiiiiiPP_sh_model(var("apop_gamma"), -1, -1, -1, 1, 0, q, [])
            if kind == "shape":
                want = [f, float(x.mean()) / f]
            else:   # digamma(k) = mean log x - log scale
                from scipy.optimize import brentq
                t = float(np.mean(np.log(x))) - math.log(f)
                want = [brentq(lambda k: special.digamma(k) - t, 1e-3, 1e4), f]
            if not all(.05 < v < 60 for v in want):
                return ["far"]
        elif kind == "mu":
            base = L.ppiiiiiPP_sh_model(var("apop_normal"), -1, -1, -1, 1, 0, [NAN, f], [])
            want = [float(x.mean()), f]
        else:
            base = L.ppiiiiiPP_sh_model(var("apop_normal"), -1, -1, -1, 1, 0, [f, NAN], [])
            want = [f, math.sqrt(float(((x - f) ** 2).mean()))]
        start = [w + .3 for w in want]
    L.vpiPs_sh_fine_mle(base, len(start), start, c["meth"])
    f = L.pp_sh_fix(base)
    e = L.ppp_apop_estimate(d, f)
    b = L.pp_sh_fix_base(e)
    near(packed(dump(L.pp_sh_params(b))), want, "estimates with the others fixed (%s)" % c["meth"], 2e-3, 2e-3)
    got = packed(dump(L.pp_sh_params(b)))
    fixed = [i for i, v in enumerate(want) if (kind == "pages" and not c["free"][i]) or (kind == "mean" and i > 1) or (kind in ("mu", "scale") and i == 1) or (kind in ("sigma", "shape") and i == 0)]
    near([got[i] for i in fixed], [want[i] for i in fixed], "fixed parameters after estimation", 1e-15)
    return [kind, "nt"]


# ------------------------------------------------------------ mixtures
@st.composite
def mix_c(draw):
    names = draw(st.lists(st.sampled_from(["normal", "normal", "gamma", "exponential", "t", "lognormal", "uniform", "poisson"]), min_size=1, max_size=4))
    if "poisson" in names:
        names = ["poisson"] * len(names)
    ps = [list(draw(MODELS[n].params)) for n in names]
    x = []
    for _ in range(draw(st.integers(1, 8))):
        i = draw(st.integers(0, len(names) - 1))
        x.append(draw(MODELS[names[i]].point(ps[i])))
    return {"n": names, "p": ps, "x": x, "w": draw(st.one_of(st.none(), st.lists(st.sampled_from([1.0, 2.0, .5, .25, 0.1, 3.0, 0.0]), min_size=len(names), max_size=len(names)).filter(any))),
            "w2": draw(st.lists(st.sampled_from([1.0, 2.0, .5, 3.0]), min_size=len(names), max_size=len(names))), "p2": [list(draw(MODELS[n].params)) for n in names],
            "prep": draw(st.booleans()), "copy": draw(st.booleans()), "seed": draw(st.integers(1, 10**6)), "how": draw(st.sampled_from("vVmM"))}


def odds(W, names, ps, t):
    l = [(math.log(a) if a else -INF) + MODELS[n].ll(t, p) if a else -INF for a, n, p in zip(W, names, ps)]
    if max(l) == -INF:
        return W
    e = [math.exp(v - max(l)) for v in l]
    return [v / math.fsum(e) for v in e]


def mix_check(m, names, ps, w, x, what, how="v"):
    W = [v / sum(w) for v in w]
    best = lambda t: max((math.log(a) if a else -INF) + MODELS[n].ll(t, p) if a else -INF for a, n, p in zip(W, names, ps))
    terms = [best(t) for t in x]
    d = C20.layout(x, how, 1)
    want = sum(terms) if all(t > -INF for t in terms) else -INF
    t = .03 if "poisson" in names else 1e-6       # the Poisson has no CDF of its own, so the library makes draws
    near(L.dpp_apop_cdf(C20.layout(x[:1], "v", 1), m), sum(a * float(MODELS[n].dist(p).cdf(x[0])) for a, n, p in zip(W, names, ps)), "CDF of a mixture of %s%s with weights %s at %s%s" % (names, ps, w, x[0], what), 0, t)
    cmp(L.dpp_apop_log_likelihood(d, m), want, tol(terms), "log likelihood of a mixture of %s%s with weights %s%s" % (names, ps, w, what))
    # as a side effect, the odds of each component
    lam = [odds(W, names, ps, t) for t in x]
    near(dvec(L.pp_sh_mix_next(m)), [math.fsum(l[i] for l in lam) / len(x) for i in range(len(W))], "odds of the components of a mixture of %s%s with weights %s at %s%s" % (names, ps, w, x, what), 1e-7, 1e-9)
    return math.isfinite(want)


def mix_draws(m, names, ps, w, seed, what):
    W = [v / sum(w) for v in w]
    x = take_draws(m, 700, 1, seed, "mixture")[:, 0]
    D = [MODELS[n].dist(p) for n, p in zip(names, ps)]
    ks(x, lambda u: sum(a * d.cdf(u) for a, d in zip(W, D)), "mixture of %s%s with weights %s%s" % (names, ps, w, what), "int" if MODELS[names[0]].disc else True)


def run_mix(c):
    names, ps, x = c["n"], c["p"], c["x"]
    k = len(names)
    if any(MODELS[n].ll(t, q) == INF for n, p, p2 in zip(names, ps, c["p2"]) for q in (p, p2) for t in x):
        return ["unbounded density"]
    comps = [MD.model(n, p) for n, p in zip(names, ps)]
    m = mixture(comps, c["w"])
    w = c["w"] or [1.0] * k
    if c["prep"]:
        L.vpp_sh_prep(None, m)
    ok = mix_check(m, names, ps, w, x, "", c["how"])
    mix_draws(m, names, ps, w, c["seed"], "")
    if c["copy"]:
        m2 = L.pp_apop_model_copy(m)
        mix_check(m2, names, ps, w, x, " (a copy)")
        L.vp_apop_model_free(m2 if c["seed"] % 2 else m)
        m = m if c["seed"] % 2 else m2
        mix_check(m, names, ps, w, x, " (after its copy was freed)")
    # other weights
    L.vpiP_sh_mix_weights(m, k, c["w2"])
    ok |= mix_check(m, names, ps, c["w2"], x, ", set later")
    mix_draws(m, names, ps, c["w2"], c["seed"], ", set later")
    # other parameters, through the one vector
    if c["prep"]:
        P = L.pp_sh_params(m)
        v = packed(dump(P))
        near(v[k:], [y for p in ps for y in p], "parameters of the mixture", 1e-15)
        L.vpiP_sh_fill(P, len(v), v[:k] + [y for p in c["p2"] for y in p])
        first = c["seed"] % 2
        if first:
            mix_check(m, names, c["p2"], c["w2"], x, ", parameters set later")
        mix_draws(m, names, c["p2"], c["w2"], c["seed"], ", parameters set later")
        if not first:
            mix_check(m, names, c["p2"], c["w2"], x, ", parameters set later")
    return (["nt"] if ok and k > 1 else []) + ["%i components" % k]


def run_em(c):
    """with the weights free, each evaluation and constraint check is a step of the EM algorithm's weights"""
    names, ps, x = c["n"], c["p"], c["x"]
    k = len(names)
    if any(MODELS[n].ll(t, p) == INF for n, p in zip(names, ps) for t in x):
        return ["unbounded density"]
    m = mixture([MD.model(n, p) for n, p in zip(names, ps)], c["w"], 1)
    w = c["w"] or [1.0 / k] * k
    d = C20.layout(x, c["how"], 1)
    L.vpp_sh_prep(None, m)
    moved = 0
    for step in range(4):
        W = [v / sum(w) for v in w]
        terms = [max((math.log(a) if a else -INF) + MODELS[n].ll(t, p) if a else -INF for a, n, p in zip(W, names, ps)) for t in x]
        what = "step %s of a mixture of %s%s, weights %s, at %s" % (step, names, ps, w, x)
        cmp(L.dpp_apop_log_likelihood(d, m), sum(terms) if all(t > -INF for t in terms) else -INF, tol(terms) + 1e-6, "log likelihood, " + what)
        lam = [odds(W, names, ps, t) for t in x]
        new = [math.fsum(l[i] for l in lam) / len(x) for i in range(k)]
        near(L.dpp_sh_constraint(d, m), math.sqrt(sum((a - b) ** 2 for a, b in zip(w, new))), "penalty, " + what, 1e-6, 1e-8)
        v = packed(dump(L.pp_sh_params(m)))
        near(v[:k], new, "weights after " + what, 1e-7, 1e-9)
        near(v[k:], [y for p in ps for y in p], "parameters after " + what, 1e-15)
        moved = max(moved, max(abs(a - b) for a, b in zip(W, new)))
        w = v[:k]
    return (["nt"] if moved > 1e-3 else []) + ["%i components" % k]


@st.composite
def mixest_c(draw):
    return {"gap": draw(st.floats(15, 60).map(R3)), "sd": [draw(st.sampled_from([1.0, 2.0])) for _ in range(2)], "at": draw(st.floats(-20, 20).map(R3)), "n": [draw(st.integers(8, 30)) for _ in range(2)], "seed": draw(st.integers(1, 10**6)), "find": draw(st.booleans())}


def run_mixest(c):
    r = np.random.RandomState(c["seed"])
    a, b = [r.normal(mu, s, n) for mu, s, n in zip([c["at"], c["at"] + c["gap"]], c["sd"], c["n"])]
    x = [float(v) for v in r.permutation(np.concatenate([a, b]))]
    m = mixture([L.pp_apop_model_copy(var("apop_normal")) for _ in range(2)], None, int(c["find"]))
    start = [.5, .5, c["at"] + 1, 2.0, c["at"] + c["gap"] - 1, 2.0]
    L.vpiPs_sh_fine_mle(m, 6, start, "NM simplex" if c["find"] else "BFGS cg")
    e = L.ppp_apop_estimate(mk({"v": x}), m)
    if c["find"]:      # the scale of the weights is free, so the search need not end at the maximum; but it never ends below its start
        v = packed(dump(L.pp_sh_params(e)))
        W = [y / sum(v[:2]) for y in v[:2]]
        ll = lambda W, q: sum(max(math.log(w) + MODELS["normal"].ll(t, z) if w > 0 else -INF for w, z in zip(W, (q[:2], q[2:]))) for t in x)
        cmp(L.dpp_apop_log_likelihood(mk({"v": x}), e), ll(W, v[2:]), 1e-6, "log likelihood at the estimates %s" % v)
        check(ll(W, v[2:]) >= ll([.5, .5], start[2:]) - 1e-9, "the estimates %s are less likely than the starting point", v)
        return ["nt", "found"]
    for i, z in enumerate([a, b]):
        near(dump(L.pp_sh_params(L.ppi_sh_mix_comp(e, i)))["v"], [float(z.mean()), float(z.std())], "component %i of two clusters of %s" % (i, c["n"]), 2e-2, 2e-2)
    near(dvec(L.pp_sh_mix_get_weights(e)), [.5, .5], "fixed weights", 1e-12)
    return ["nt", "fixed"]


# ------------------------------------------------------------ cross products
CR = ["normal", "gamma", "exponential", "poisson", "beta", "lognormal", "uniform"]


@st.composite
def cross_c(draw):
    k = draw(st.sampled_from([1, 2, 2, 2, 3, 4]))
    names = [draw(st.sampled_from(CR)) for _ in range(k)]
    how = draw(st.sampled_from(["same", "pages", "pages", "draws", "draws"])) if k == 2 else "same"
    if how == "same" and draw(st.booleans()):
        names = [draw(st.sampled_from(CR))] * k
    ps = [list(draw(MODELS[n].params)) for n in names]
    n = draw(st.integers(1, 6))
    xs = [[draw(MODELS[nm].point(p)) for _ in range(n)] for nm, p in zip(names, ps)]
    return {"n": names, "p": ps, "x": xs, "how": how, "mv": draw(st.sampled_from("vm")), "extra": draw(st.booleans()), "seed": draw(st.integers(1, 10**6)), "title": draw(st.sampled_from(["p2", "Second page", "two"])), "up": draw(st.booleans()), "n2": draw(st.integers(2, 9))}


def run_cross(c):
    names, ps, k = c["n"], c["p"], len(c["n"])
    comps = [MD.model(n, p) for n, p in zip(names, ps)]
    lls = lambda i, x: sum(MODELS[names[i]].ll(t, ps[i]) for t in x)
    if any(MODELS[nm].ll(t, p) == INF for nm, p in zip(names, ps) for t in sum(c["x"], [])):
        return ["unbounded density"]
    if c["how"] == "same":
        m = cross(comps)
        check(m, "no model back")
        x = c["x"][0]
        d = C20.layout(x, c["mv"], 1)
        terms = [lls(i, x) for i in range(k)]
    else:
        page = c["title"]
        m = cross(comps, page.upper() if c["up"] else page)
        if c["how"] == "pages":
            part = lambda x, **kw: dict({"v": x} if c["mv"] == "v" else {"m": [[t] for t in x]}, **kw)
            x1, x2 = c["x"]
            x2 = (x2 * 3)[:c["n2"]]      # the pages need not be of one length
            second = part(x2, title=page)
            if c["extra"]:
                second = part([1.0, 2.0], title="between", more=second)
            d = mk(part(x1, more=second))
        else:
            x1, x2 = c["x"]
            d = mk({"m": [list(r) for r in zip(x1, x2)]})
        terms = [lls(0, x1), lls(1, x2)]
    before = dump(d)
    want = sum(terms) if all(t > -INF for t in terms) else -INF
    for rep in range(2):
        cmp(L.dpp_apop_log_likelihood(d, m), want, tol(terms), "log likelihood of the cross product of %s%s, data %s" % (names, ps, c["how"]))
    if -600 < want < 600:
        near(L.dpp_apop_p(d, m), math.exp(want), "probability of the cross product of %s%s, data %s" % (names, ps, c["how"]), 1e-7, 1e-280)
    eq(dump(d), before, "data after evaluation")
    # draws: one from each, side by side
    a = take_draws(m, 40, k, c["seed"], "cross product")
    for i in range(k):
        D = MODELS[names[i]].dist(ps[i])
        lo, hi = D.support()
        check((a[:, i] >= lo - 1e-9).all() and (a[:, i] <= hi + 1e-9).all(), "column %s of draws from %s%s out of range: %s", i, names, ps, a[:, i].tolist())
    eq(L.ip_sh_get_dsize(m), k, "size of a draw from %s models" % k)
    if k > 1 and c["seed"] % 8 == 0:
        a = take_draws(m, 1500, k, c["seed"], "cross product")
        for i in range(k):
            if names[i] != "zipf":
                D = MODELS[names[i]].dist(ps[i])
                ks(a[:, i], D.cdf, "column %i of draws from the cross product of %s%s" % (i, names, ps), "int" if MODELS[names[i]].disc else True)
    labels = [c["how"]]
    # estimation: the same as each alone
    if c["how"] != "same" and all(n in ("normal", "exponential", "poisson", "lognormal") for n in names) and len(c["x"][0]) > 2:
        un = cross([L.pp_apop_model_copy(var(MODELS[n].c)) for n in names], page)
        if c["how"] == "draws":
            for i in range(2):
                L.vpi_sh_set_dsize(L.ppi_sh_cross_part(un, i), 1)
        e = L.ppp_apop_estimate(d, un)
        eq(dump(d), before, "data after estimation")
        for i, x in enumerate([x1, x2]):
            one = L.ppp_apop_estimate(mk({"v": x}), var(MODELS[names[i]].c))
            near(dump(L.pp_sh_params(L.ppi_sh_cross_part(e, i)))["v"], dump(L.pp_sh_params(one))["v"], "estimates of part %i of the cross product of %s" % (i, names), 1e-6, 1e-8)
        labels.append("estimated")
    if k > 1 and math.isfinite(want):
        labels.append("nt")
    return labels


# ------------------------------------------------------------ cross products of models whose draws are rows of several numbers
@st.composite
def wide_c(draw):
    k = draw(st.sampled_from([2, 2, 3]))
    parts = []
    for i in range(k):
        n = draw(st.integers(1, 3))
        kind = draw(st.sampled_from(["mvn", "mvn", "dirichlet"])) if n > 1 else draw(st.sampled_from(["normal", "mvn"]))
        parts.append([kind, n, [draw(st.integers(1, 9)) + 100.0 * (i + 1) * (j + 1) if kind != "dirichlet" else draw(st.sampled_from([20.0, 50.0, 100.0])) for j in range(n)]])
    return {"parts": parts, "rows": draw(st.integers(1, 6)), "seed": draw(st.integers(1, 10**5)), "page": draw(st.booleans()), "noise": [[draw(st.integers(-9, 9)) / 8 for _ in range(9)] for _ in range(6)]}


def run_wide(c):
    ms = []
    for kind, n, mu in c["parts"]:
        if kind == "normal":
            m = MD.model("normal", [mu[0], 1.0])
        elif kind == "dirichlet":
            m = L.ppiiiiiPP_sh_model(var("apop_dirichlet"), n, 0, 0, n, 0, mu, [])
        else:
            m = L.ppiiiiiPP_sh_model(var("apop_multivariate_normal"), n, n, n, n, 0, mu, [1.0 if i == j else 0.0 for i in range(n) for j in range(n)])
        L.vpi_sh_set_dsize(m, n)
        ms.append(m)
    tot = sum(p[1] for p in c["parts"])
    m = cross(ms, "elsewhere" if len(ms) == 2 and c["page"] else None)
    eq(L.ip_sh_get_dsize(m), tot, "size of a draw")
    a = take_draws(m, 30, tot, c["seed"], "cross product")
    at = 0
    for kind, n, mu in c["parts"]:
        b = a[:, at:at + n]
        if kind == "dirichlet":
            check((b >= 0).all() and (b <= 1).all() and (abs(b.sum(axis=1) - 1) < 1e-9).all(), "draws %s in the Dirichlet's place of %s", b.tolist(), c["parts"])
        else:
            check((abs(b - np.array(mu)) < 12).all(), "draws %s in the place of a Normal around %s", b.tolist(), mu)
        at += n
    if len(ms) == 2 and c["page"]:
        # rows that are draws of both
        rows, lls = [], 0.0
        for i in range(c["rows"]):
            row, j = [], 0
            for kind, n, mu in c["parts"]:
                if kind == "dirichlet":
                    e = np.exp(np.array(c["noise"][i][j:j + n]))
                    x = (e / e.sum()).tolist()
                    lls += float(stats.dirichlet.logpdf(np.array(x) / sum(x), mu))
                else:
                    x = [u + v for u, v in zip(mu, c["noise"][i][j:j + n])]
                    lls += float(stats.norm.logpdf(np.array(x) - np.array(mu)).sum())
                row += x
                j += n
            rows.append(row)
        d = mk({"m": rows})
        before = dump(d)
        near(L.dpp_apop_log_likelihood(d, m), lls, "log likelihood of rows %s under %s" % (rows, c["parts"]), 1e-7, 1e-7)
        if abs(lls) < 600:
            near(L.dpp_apop_p(d, m), math.exp(lls), "probability of rows %s under %s" % (rows, c["parts"]), 1e-6, 1e-280)
        eq(dump(d), before, "data after evaluation")
    return ["nt", "page" if c["page"] else "same"] + ["wide" if c["parts"][0][1] > 1 else "narrow"]


# ------------------------------------------------------------ data constraints
@st.composite
def dc_c(draw):
    n = draw(st.sampled_from(["normal", "normal", "gamma", "exponential", "uniform", "beta", "lognormal"]))
    M = MODELS[n]
    p = list(draw(M.params))
    u = sorted([draw(st.floats(0, .6)), draw(st.floats(.4, 1))])
    if u[1] - u[0] < .05:
        u = [0, .5]
    D = M.dist(p)
    q = lambda v: float(D.support()[0] if v < 1e-6 else D.support()[1] if v > 1 - 1e-6 else D.ppf(v))
    lo, hi = max(q(u[0]), -1e6), min(q(u[1]), 1e6)
    x = [q(u[0] + (u[1] - u[0]) * draw(st.floats(.01, .99))) for _ in range(draw(st.integers(1, 6)))]
    return {"n": n, "p": p, "lo": lo, "hi": hi, "x": x, "out": draw(st.integers(0, 4)), "exact": draw(st.sampled_from([1, 1, 0])), "draws": draw(st.sampled_from([2000, 5000])), "seed": draw(st.sampled_from([0, 5, 77])), "p2": list(draw(M.params)),
            "how": draw(st.sampled_from("vVmM")), "copy": draw(st.sampled_from(["", "", "copy", "freeorig", "freecopy"]))}


def run_dc(c):
    M, p, lo, hi, x = MODELS[c["n"]], c["p"], c["lo"], c["hi"], c["x"]
    base = MD.model(c["n"], p)
    m = L.ppddiii_sh_dconstrain(base, lo, hi, c["exact"], c["draws"], c["seed"])
    L.vpp_sh_prep(None, m)
    F = lambda q: float(M.dist(q).cdf(hi) - M.dist(q).cdf(lo))
    ltol = lambda q, k: 1e-7 * k / F(q) if c["exact"] else k * (7 * math.sqrt((1 - F(q)) / F(q) / c["draws"]) + 10 / c["draws"] / F(q))

    def verify(m, q, what):
        f = F(q)
        if f < .02:
            return False
        pts = [t for t in x if lo <= t <= hi and math.isfinite(M.ll(t, q))]
        if not pts:
            return False
        terms = [M.ll(t, q) for t in pts]
        d = C20.layout(pts, c["how"], 1)
        cmp(L.dpp_apop_log_likelihood(d, m), sum(terms) - len(pts) * math.log(f), tol(terms) + ltol(q, len(pts)), "log likelihood of %s%s held to %s..%s at %s%s" % (c["n"], q, lo, hi, pts, what))
        out = hi + 1.0 if c["out"] % 2 else lo - 1.0
        bad = pts[:1] + [out] + pts[1:]
        cmp(L.dpp_apop_log_likelihood(C20.layout(bad, c["how"], 1), m), -INF, 0, "log likelihood with an observation outside %s..%s%s" % (lo, hi, what))
        a = take_draws(m, 700, 1, 11 + c["out"], "truncated")[:, 0]
        check((a >= lo).all() and (a <= hi).all(), "a draw outside %s..%s: %s%s", lo, hi, [v for v in a if v < lo or v > hi][:3], what)
        ks(a, lambda u: (M.dist(q).cdf(u) - M.dist(q).cdf(lo)) / f, "%s%s held to %s..%s%s" % (c["n"], q, lo, hi, what))
        return True
    ok = verify(m, p, "")
    if c["copy"]:
        m2 = L.pp_apop_model_copy(m)
        if c["copy"] == "copy":
            verify(m2, p, " (a copy)")
            if len(c["p2"]) and F(c["p2"]) >= .02:
                L.vpiP_sh_fill(L.pp_sh_params(m2), len(c["p2"]), c["p2"])
                verify(m2, c["p2"], " (a copy with other parameters)")
        elif c["copy"] == "freecopy":
            L.vp_apop_model_free(m2)
            verify(m, p, " (after its copy was freed)")
        else:
            P = L.pp_apop_data_copy(L.pp_sh_params(m))
            L.vp_apop_model_free(m)     # with the parameters it shares with the base model
            L.vpp_sh_set_mparams(base, P)
            verify(m2, p, " (a copy after the original was freed)")
    else:
        L.vpiP_sh_fill(L.pp_sh_params(m), len(c["p2"]), c["p2"])
        if verify(m, c["p2"], " (with other parameters)"):
            L.vpiP_sh_fill(L.pp_sh_params(m), len(p), p)
            verify(m, p, " (with the first parameters again)")
    return (["nt"] if ok else []) + ["exact" if c["exact"] else "by draws"]


# ------------------------------------------------------------ coordinates
@st.composite
def ct_c(draw):
    lg = draw(st.integers(0, 1))
    n = draw(st.sampled_from(["normal", "t"] if lg else ["normal", "gamma", "exponential", "uniform", "beta", "t", "lognormal"]))
    M = MODELS[n]
    p = list(draw(M.params))
    a = draw(st.sampled_from([1.0, 2.0, -1.0, .5, -3.0, .1]))
    b = draw(st.floats(-5, 5).map(R3))
    y = [draw(M.point(p)) for _ in range(draw(st.integers(1, 6)))]
    if lg:
        y = [min(max(v, -40), 40) for v in y]
    return {"n": n, "p": p, "lg": lg, "a": a, "b": b, "y": y, "how": draw(st.sampled_from("vVmM")), "copy": draw(st.booleans()), "p2": list(draw(M.params)), "leave": draw(st.sampled_from([0] * 9 + [1, 2])), "prep": draw(st.booleans())}


def run_ct(c):
    M, p = MODELS[c["n"]], c["p"]
    x = [math.exp(v) if c["lg"] else c["a"] * v + c["b"] for v in c["y"]]
    inv = lambda t: math.log(t) if c["lg"] else (t - c["b"]) / c["a"]
    m = L.ppiddi_sh_ct(MD.model(c["n"], p), c["lg"], c["a"], c["b"], c["leave"])
    d = C20.layout(x, c["how"], 1)
    if c["leave"]:
        got = L.dpp_apop_log_likelihood(d, m)
        check(got != got, "log likelihood without the %s: %s", "Jacobian" if c["leave"] == 1 else "inverse map", got)
        return ["incomplete"]
    if c["prep"]:
        L.vpp_sh_prep(d, m)

    def verify(m, q, what):
        terms = [M.ll(inv(t), q) - (math.log(t) if c["lg"] else math.log(abs(c["a"]))) for t in x]
        if not all(map(math.isfinite, terms)):
            return False
        # rounding of the map matters near the edges of the support
        sens = sum(abs(M.ll(inv(t) * (1 + 4e-16), q) - M.ll(inv(t) * (1 - 4e-16), q)) for t in x)
        if not sens < 1e-7:
            return False
        before = dump(d)
        cmp(L.dpp_apop_log_likelihood(d, m), sum(terms), tol(terms) + 20 * sens, "log likelihood of a transformed %s%s at %s%s" % (c["n"], q, x, what))
        eq(dump(d), before, "data")
        return True
    ok = verify(m, p, "")
    verify(m, p, ", again")
    if c["prep"]:
        if c["copy"]:
            m = L.pp_apop_model_copy(m)
            verify(m, p, " (a copy)")
        L.vpiP_sh_fill(L.pp_sh_params(m), len(p), c["p2"])
        verify(m, c["p2"], " (parameters set later)")
    return ["log" if c["lg"] else "affine"] + (["nt"] if ok else [])


FACETS = [Facet("fix", lambda tier: fix_c(), run_fix, quick=700), Facet("fixest", lambda tier: fixest_c(), run_fixest, quick=240), Facet("mixture", lambda tier: mix_c(), run_mix, quick=400), Facet("em", lambda tier: mix_c(), run_em, quick=250), Facet("mixest", lambda tier: mixest_c(), run_mixest, quick=24),
          Facet("cross", lambda tier: cross_c(), run_cross, quick=600), Facet("cross_wide", lambda tier: wide_c(), run_wide, quick=300), Facet("truncate", lambda tier: dc_c(), run_dc, quick=320), Facet("change", lambda tier: ct_c(), run_ct, quick=500)]
