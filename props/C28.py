"""Bayesian updating: conjugate pairs, reweighted draws, Markov chains."""
import ctypes as C
import math
import numpy as np
from hypothesis import strategies as st
from scipy import special, stats
from engine import Facet, Bad
from ap import *
import models as MD
from models import MODELS, INF
import props.C20 as C20
from props.C22 import ks, dkw
from props.C26 import pages_data, packed, KEEP, R3

RULE = ("conjugate: the five pairs in the table, any parameters, data in vectors and matrices, with parameters of the likelihood in place of data where that is documented, and batches in turn. weights: priors known only by draws, or a list of points, and one- and two-parameter likelihoods. chain: every evaluation of a target over 1 to 6 parameters in vectors, matrices, weights and pages is logged and the chain recomputed from the log, for all three ways of blocking, plain and restricted targets, own proposals, continued chains. "
        "posterior: priors of one and two parameters with Normal posteriors in closed form. Non-trivial: at least one observation; at least ten accepted and ten refused steps. Distinct by the whole case.")
ASSUMPTIONS = ["with data, the spread of a Normal likelihood is taken from the data, as the code does; it needs two different observations", "the number of accepted steps is held to 5.5 standard deviations of its expectation given the logged odds", "moments of chains are compared with wide tolerances (0.35 standard deviations)"]


def pvec(m):
    return dump(L.pp_sh_params(m))["v"]


# ------------------------------------------------------------ conjugate pairs
@st.composite
def conj_c(draw):
    k = draw(st.sampled_from(["normnorm", "betabinom", "betabern", "gammaexp", "gammapois"]))
    if k == "normnorm":
        pr = [draw(st.floats(-20, 20).map(R3)), draw(st.floats(.1, 10).map(R3))]
    else:
        pr = [draw(st.floats(.2, 15).map(R3)), draw(st.floats(.2, 8).map(R3))]
    n = draw(st.one_of(st.integers(1, 9), st.sampled_from([6, 8, 12, 24])))
    el = {"betabern": st.sampled_from([0.0, 1.0, 0.0, 1.0, 2.0, -1.0]), "gammaexp": st.floats(0, 9).map(R3), "gammapois": st.integers(0, 12).map(float), "normnorm": st.floats(-30, 30).map(R3), "betabinom": st.integers(0, 9).map(float)}[k]
    rows = lambda n: [draw(el) for _ in range(n)]
    how, cols = draw(st.sampled_from("bMvm")), draw(st.sampled_from([2, 3, 1]))
    if how in "bM":
        n = draw(st.integers(1, 5)) * (cols + (how == "b"))
    c = {"k": k, "pr": pr, "how": how, "cols": cols, "seed": draw(st.integers(0, 99)), "split": draw(st.integers(0, 9)), "none": draw(st.integers(0, 7)) == 0}
    c["x"] = [rows(2) for _ in range(n)] if k == "betabinom" else rows(max(n, 2) if k == "normnorm" else n)
    c["par"] = [float(draw(st.integers(1, 60))), draw(st.floats(.05, .95).map(R3))] if k == "betabinom" else [draw(st.floats(-9, 9).map(R3)), draw(st.floats(.1, 9).map(R3))]
    return c


PAIR = {"betabinom": ("apop_beta", "apop_binomial"), "betabern": ("apop_beta", "apop_bernoulli"), "gammaexp": ("apop_gamma", "apop_exponential"), "gammapois": ("apop_gamma", "apop_poisson"), "normnorm": ("apop_normal", "apop_normal")}


def posterior(k, pr, x):
    a, b = pr
    if not len(x):
        return [a, b]
    if k == "betabinom":
        return [a + sum(r[1] for r in x), b + sum(r[0] for r in x)]
    if k == "betabern":
        return [a + sum(v != 0 for v in x), b + sum(v == 0 for v in x)]
    if k == "gammaexp":
        return [a + len(x), 1 / (1 / b + sum(x))]
    if k == "gammapois":
        return [a + sum(x), b / (b * len(x) + 1)]
    n, mu, v = len(x), float(np.mean(x)), float(np.var(x))
    pv = b * b
    return [(a / pv + n * mu / v) / (1 / pv + n / v), (1 / pv + n / v) ** -.5]


def shape_data(c, x):
    if c["k"] == "betabinom":
        return {"m": x}
    n = c["cols"]
    if c["how"] == "v":
        return {"v": x}
    if c["how"] == "m" or len(x) % (n + (c["how"] == "b")):
        return {"m": [[t] for t in x]}
    if c["how"] == "M":
        return {"m": [x[i:i + n] for i in range(0, len(x), n)]}
    r = len(x) // (n + 1)
    return {"v": x[:r], "m": [x[r + i:r + i + n] for i in range(0, len(x) - r, n)]}


def run_conj(c):
    k, pr, x = c["k"], c["pr"], c["x"]
    prior, lik = [var(v) for v in PAIR[k]]
    prior = L.ppiiiiiPP_sh_model(prior, -1, -1, -1, 1, 0, pr, [])
    up = lambda d, p, l: L.pppppi_sh_update(d, p, l, 0) if 0 else L.ppppi_sh_update(d, p, l, c["seed"])
    ok = lambda m, what: check(m and not L.ip_sh_merror(m), "%s: error", what)
    if c["none"]:
        if k in ("betabinom", "normnorm"):
            q = c["par"]
            l = L.ppiiiiiPP_sh_model(lik, -1, -1, -1, 1, 0, q, [])
            m = up(None, prior, l)
            want = [pr[0] + q[0] * q[1], pr[1] + q[0] * (1 - q[1])] if k == "betabinom" else [(pr[0] / pr[1] ** 2 + q[0] / q[1] ** 2) / (1 / pr[1] ** 2 + 1 / q[1] ** 2), (1 / pr[1] ** 2 + 1 / q[1] ** 2) ** -.5]
            near(pvec(m), want, "posterior of %s%s and a likelihood of parameters %s" % (k, pr, q), 1e-9)
            near(pvec(l), q, "the likelihood's parameters", 0)
            return [k, "parameters"]
        m = up(None, prior, lik)
        near(pvec(m), pr, "posterior of %s%s and no data" % (k, pr), 1e-12)
        return [k, "no data"]
    if k == "normnorm" and np.std(x) < 1e-3 * (1 + abs(np.mean(x))):
        return ["flat"]
    d = mk(shape_data(c, x))
    before = dump(d)
    m = up(d, prior, lik)
    ok(m, k)
    want = posterior(k, pr, x)
    near(pvec(m), want, "posterior of %s%s and data %s" % (k, pr, shape_data(c, x)), 1e-8)
    eq(dump(d), before, "the data")
    near(pvec(prior), pr, "the prior's parameters", 0)
    # the posterior is a model of the prior's kind, usable as one
    at = .37 if k.startswith("beta") else 1.3
    p2 = L.ppiiiiiPP_sh_model(var(PAIR[k][0]), -1, -1, -1, 1, 0, want, [])
    near(L.dpp_apop_log_likelihood(mk({"v": [at]}), m), L.dpp_apop_log_likelihood(mk({"v": [at]}), p2), "log density of the posterior", 1e-6, 1e-6)
    if k != "normnorm":
        s = c["split"] % (len(x) + 1)
        p = prior
        for part in (x[:s], x[s:]):
            if len(part):
                p = up(mk(shape_data(c, part)), p, lik)
        near(pvec(p), want, "posterior of %s%s in two batches, split after %i of %s" % (k, pr, s, x), 1e-8)
    return [k, "nt"]


# ------------------------------------------------------------ draws of the prior, reweighted
@st.composite
def wt_c(draw):
    lik = draw(st.sampled_from(["poisson", "normalmu", "exponential", "normal2"]))
    c = {"lik": lik, "n": draw(st.integers(1, 4)), "kind": draw(st.sampled_from(["draws", "points"])), "periods": draw(st.sampled_from([1, 20, 300, 2000])), "seed": draw(st.integers(1, 10**6)), "bad": draw(st.integers(0, 11)) == 0}
    c["x"] = [float(draw(st.integers(0, 5))) for _ in range(c["n"])]
    k = 2 if lik == "normal2" else 1
    c["pts"] = [[draw(st.floats(.2, 6).map(R3)) for _ in range(k)] for _ in range(draw(st.integers(1, 8)))]
    c["w"] = [draw(st.sampled_from([1.0, 2.0, .5, 0.0])) for _ in c["pts"]]
    if not any(c["w"]):
        c["w"][0] = 1.0
    c["again"] = draw(st.booleans())
    c["pr"] = [draw(st.floats(1, 6).map(R3)), draw(st.floats(.3, 2).map(R3))]
    return c


def run_wt(c):
    lik, x, N = c["lik"], c["x"], c["periods"]
    d = mk({"v": x})
    if lik == "normalmu":
        l = L.pp_sh_fix(L.ppiiiiiPP_sh_model(var("apop_normal"), -1, -1, -1, 1, 0, [math.nan, 1.5], []))
    else:
        l = L.pp_apop_model_copy(var({"normal2": "apop_normal"}.get(lik, "apop_" + lik)))
    ll = lambda q: sum({"poisson": lambda t: MODELS["poisson"].ll(t, q), "exponential": lambda t: MODELS["exponential"].ll(t, q), "normalmu": lambda t: MODELS["normal"].ll(t, [q[0], 1.5]), "normal2": lambda t: MODELS["normal"].ll(t, q)}[lik](t) for t in x)
    k = 2 if lik == "normal2" else 1
    if c["kind"] == "points":
        pr = L.ppp_apop_estimate(mk({"m": c["pts"], "w": c["w"]}), var("apop_pmf"))
    elif k == 2:
        pr = L.ppiiiiiPP_sh_model(var("apop_multivariate_normal"), 2, 2, 2, 2, 0, [9.0, 9.0], [1.0, .2, .2, 1.0])
        L.vp_sh_only_draws(pr)
    else:
        pr = MD.model("gamma", c["pr"])
        L.vp_sh_only_draws(pr)
    L.vpidccid_sh_mc_settings(pr, N, .05, b"b", b"1", 0, 0.0)
    if c["bad"]:
        wrong = L.ppiiiiiPP_sh_model(var("apop_multivariate_normal"), 3, 3, 3, 3, 0, [9.0] * 3, [1.0, 0, 0, 0, 1, 0, 0, 0, 1])
        m = L.ppppi_sh_update(d, wrong, l, c["seed"])
        check(m and L.ip_sh_merror(m) == ord("d"), "no error for a prior of another size than the parameters")
        return ["sizes"]
    m = L.ppppi_sh_update(d, pr, l, c["seed"])
    check(m and not L.ip_sh_merror(m), "update failed")
    o = dump(L.pp_sh_mdata(m))
    eq(len(o["m"]), N, "number of points in the posterior")
    a = np.array(o["m"])
    for r, w in zip(o["m"], o["w"]):
        e = math.exp(ll(r)) if ll(r) > -700 else 0
        check(abs(w - e) <= 1e-6 * e + 1e-290, "weight of %s: %s, likelihood %s", r, w, e)
    labels = [c["kind"]]
    if c["kind"] == "points":
        pos = [tuple(p) for p, w in zip(c["pts"], c["w"]) if w]
        for r in o["m"]:
            check(tuple(r) in pos, "a point not in the prior: %s", r)
        W = {}
        for p, w in zip(c["pts"], c["w"]):
            W[tuple(p)] = W.get(tuple(p), 0) + w / sum(c["w"])
        if N >= 300:
            for p, w in W.items():
                f = sum(tuple(r) == p for r in o["m"]) / N
                check(abs(f - w) <= 6 * math.sqrt(w * (1 - w) / N) + 6 / N, "point %s drawn with frequency %s of %s, prior %s", p, f, N, w)
    elif N >= 300:
        if k == 1:
            ks(a[:, 0], MODELS["gamma"].dist(c["pr"]).cdf, "draws from the prior")
        else:
            for i in range(2):
                ks(a[:, i], stats.norm(9, 1).cdf, "draws from the prior, column %i" % i)
    if c["again"] and any(o["w"]) and sum(o["w"]) > 1e-200:       # the posterior as the next prior
        m2 = L.ppppi_sh_update(d, m, l, c["seed"] + 1)
        check(m2 and not L.ip_sh_merror(m2), "second update failed")
        o2 = dump(L.pp_sh_mdata(m2))
        rows = set(tuple(r) for r, w in zip(o["m"], o["w"]) if w)
        for r, w in zip(o2["m"], o2["w"]):
            check(tuple(r) in rows, "a point not in the first posterior: %s", r)
            e = math.exp(ll(r)) if ll(r) > -700 else 0
            check(abs(w - e) <= 1e-6 * e + 1e-290, "weight of %s: %s, likelihood %s", r, w, e)
        labels.append("again")
    return labels + (["nt"] if N > 1 and any(o["w"]) else [])


# ------------------------------------------------------------ chains
@st.composite
def ch_c(draw, long=False):
    shape = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        s = (draw(st.integers(0, 3)), draw(st.integers(0, 2)), draw(st.integers(1, 2)))
        shape.append(s if s[0] or s[1] else (1, 0, 1))
    size = sum(a + b * d for a, b, d in shape)
    kind = draw(st.sampled_from([0, 0, 1, 2, 3, 4]))
    f = lambda a, b: [draw(st.floats(a, b).map(R3)) for _ in range(size)]
    N = 15000 if long else draw(st.sampled_from([10, 60, 300, 1500]))
    return {"shape": shape, "kind": kind, "N": N, "p": f(-3, 3), "center": f(-2, 3), "sd": f(.3, 4), "lo": draw(st.floats(-2, .9).map(R3)), "chunks": draw(st.sampled_from("abi1")), "start": draw(st.sampled_from("1p")), "burn": draw(st.sampled_from([0.0, .05, .3, 1 / 3])),
            "still": draw(st.booleans()), "seed": draw(st.integers(1, 10**6)), "more": draw(st.integers(0, 6)), "info": draw(st.booleans()), "second": draw(st.integers(0, 3)) == 0, "own": draw(st.sampled_from([0, 0, 0, 1, 2, 3]))}


class Chain:
    """recompute a chain from the log of evaluations"""
    def __init__(s, blocks, cur, what, center=None):
        s.center = list(center or cur)
        s.blocks, s.cur, s.ll, s.what, s.at = blocks, list(cur), -INF, what, 0
        s.acc = s.rej = 0
        s.z = s.var = 0.0
        s.steps = []

    def feed(s, log, rows, burn=0):
        """rows: the reported states after each step, from step number burn on"""
        i, n = 0, len(rows) + burn
        for step in range(n):
            lo, hi = s.blocks[s.at % len(s.blocks)]
            while True:
                check(i < len(log), "%s: step %s of %s has no evaluation", s.what, step, n)
                failed, ll, prop = log[i]
                i += 1
                check(prop[:lo] == s.cur[:lo] and prop[hi:] == s.cur[hi:], "%s: step %s changed more than elements %s to %s: from %s to %s", s.what, step, lo, hi - 1, s.cur, prop)
                s.steps += [q - e for q, e in zip(prop[lo:hi], s.center[lo:hi])]
                if not failed and math.isfinite(ll):
                    break
            row = rows[step - burn] if step >= burn else None
            nxt = log[i] if i < len(log) else None
            r = ll - s.ll
            # what happened next
            if row is not None:
                took = row == prop
                check(took or row == s.cur, "%s: step %s reported %s, neither the proposal %s nor the last point %s", s.what, step, row, prop, s.cur)
            elif nxt is not None and len(s.blocks) > 1:    # the part that the next step leaves alone shows it
                l2, h2 = s.blocks[(s.at + 1) % len(s.blocks)]
                took = nxt[2][lo:hi] == prop[lo:hi]
            else:
                took = None
            if took is None:
                # in the burn-in with one block the state does not show until it is reported; certain cases only
                took = True if r >= 0 else False if r < -60 else None
                if took is None:
                    return False, i, step
            if r >= 0:
                check(took, "%s: step %s refused a proposal %s more likely by %s", s.what, step, prop, r)
            elif r < -60:
                check(not took, "%s: step %s took a proposal less likely by %s", s.what, step, -r)
            else:
                p = math.exp(r)
                s.z += took - p
                s.var += p * (1 - p)
            if took:
                s.center[lo:hi] = prop[lo:hi]
                s.cur, s.ll = prop, ll
                s.acc += 1
            else:
                s.rej += 1
            s.at += 1
        return True, i, n

    def verify(s):
        check(abs(s.z) <= 5.5 * math.sqrt(s.var) + 5, "%s: %s steps taken, more by %s than expected from the odds (standard deviation %s)", s.what, s.acc, s.z, math.sqrt(s.var))


def read_log(n):
    p = L.p_sh_mc_log()
    v = dvec(p) if p else []
    w = n + 2
    out = [(v[i], v[i + 1], v[i + 2:i + w]) for i in range(0, len(v), w)]
    L.v_sh_mc_reset()
    return out


def run_chain(c):
    shape, N = c["shape"], c["N"]
    n = sum(a + b * d for a, b, d in shape)
    spec = pages_data(shape, c["p"])
    if c["info"] and not c["own"]:
        e = spec
        while e["more"]:
            e = e["more"]
        e["more"] = {"m": [[1.0, 2.0], [3.0, 4.0]], "title": "<Info>"}
    pd = mk(spec)
    start = [1.0] * n if c["start"] == "1" else list(c["p"])
    lo = c["lo"]
    if c["start"] == "p" and c["kind"] >= 2:
        lo = c["p"][0] - .5
    own = c["own"]
    m = L.ppiiPPd_sh_mc_model(pd, c["kind"], n, c["center"], c["sd"], lo)
    L.vpidccid_sh_mc_settings(m, N, c["burn"], c["chunks"].encode(), c["start"].encode(), int(c["still"]), 0.0)
    if own:
        L.vpidi_sh_mc_own(m, n, 1.3, own - 1)
    L.v_sh_mc_reset()
    chunks = "i" if own else c["chunks"]
    if chunks == "a":
        blocks = [(0, n)]
    elif chunks == "b":
        blocks, at = [], 0
        for a, b, d in shape:
            for w in (a, b * d):
                if w:
                    blocks.append((at, at + w))
                    at += w
    else:
        blocks = [(i, i + 1) for i in range(n)]
    what = "chain of %s steps over %s in blocks %s" % (N, shape, chunks)
    out = L.pppi_sh_metropolis(None, m, c["seed"])
    check(out, "%s: nothing back", what)
    log = read_log(n)
    burn = int(N * c["burn"])
    o = dump(L.pp_sh_mdata(out))
    rows = o["m"] or []
    eq(len(rows), N - burn, what + ": points reported")
    if rows:
        near(o["w"], [1.0] * len(rows), what + ": weights", 0)
    fails = sum(1 for f, ll, p in log if f)
    eq(L.ip_sh_merror(out), ord("c") if fails else 0, what + ": error mark after %s failed proposals" % fails)
    near(packed_noinfo(dump(L.pp_sh_params(m))), rows[-1], what + ": the model's parameters", 0)
    ch = Chain(blocks, start, what, [1.0] * n if own else start)
    ch.known = True
    done, used, at = ch.feed(log, rows, burn)
    if not done:      # the first row reported fixes the state; start over from the row before
        ch = None
        # find the evaluations of the reported part: work back from the end
        evs, last, i = [], 0, 0
        good = [j for j, (f, ll, p) in enumerate(log) if not f and math.isfinite(ll)]
        check(len(good) == N, "%s: %s usable evaluations", what, len(good))
        cut = good[burn]              # the evaluation of the first reported step
        ch = Chain(blocks, rows[0], what)
        ch.at = burn + 1
        ll0 = [ll for f, ll, p in log[:cut + 1] if p == rows[0] and not f]
        check(ll0, "%s: the first point reported, %s, was never proposed", what, rows[0])
        ch.ll = ll0[-1]
        ch.known = len(blocks) == 1
        done, used, at = ch.feed(log[cut + 1:], rows[1:], 0)
        used += cut + 1
    else:
        eq(L.ip_sh_mc_accepts(m), ch.acc, what + ": number of accepted steps")
    eq(used, len(log), what + ": evaluations")
    # proposals: Normal around the last point taken
    if (c["still"] or own) and ch.known:
        sd = 1.3 if own else 1.0
        z = [v / sd for v in ch.steps]
        if len(z) > 50:
            ks(np.array(z), stats.norm.cdf, what + ": proposals less the last point")
    ch.verify()
    labels = ["%i blocks" % min(len(blocks), 3), "kind %i" % c["kind"]] + (["own"] if own else [])
    # more steps, one cycle through the blocks at a time
    for k in range(c["more"]):
        buf = (C.c_double * n)()
        KEEP.append(buf)
        before = dump(L.pp_sh_mdata(out))["m"]
        if k == 0:
            ch.at = 0
        rc = L.ipipi_sh_one_draw(out, n, C.addressof(buf), c["seed"] + k + 1)
        got = list(buf)
        log = read_log(n)
        after = dump(L.pp_sh_mdata(out))
        eq(len(after["m"]), len(before) + len(blocks), what + ": points after another draw")
        eq(after["m"][:len(before)], before, what + ": earlier points")
        near(after["w"], [1.0] * len(after["m"]), what + ": weights after another draw", 0)
        near(got, after["m"][-1], what + ": the draw", 0)
        done, used, at = ch.feed(log, after["m"][len(before):])
        check(done and used == len(log), "%s: evaluations of another draw", what)
        eq(rc, int(any(f for f, ll, p in log)), what + ": return value of a draw")
        labels.append("more")
    ch.verify()
    if c["second"]:
        L.v_sh_mc_reset()
        first = dump(L.pp_sh_mdata(out))
        st0 = [1.0] * n if c["start"] == "1" else packed_noinfo(dump(L.pp_sh_params(m)))
        out2 = L.pppi_sh_metropolis(None, m, c["seed"] + 50)
        log = read_log(n)
        rows = dump(L.pp_sh_mdata(out2))["m"]
        eq(len(rows), N - burn, what + ": points reported by a second run")
        eq(dump(L.pp_sh_mdata(out)), first, what + ": points of the first run")
        c2 = Chain(blocks, st0, what + ", second run")
        done, used, at = c2.feed(log, rows, burn)
        if done:
            eq(used, len(log), what + ": evaluations in a second run")
            c2.verify()
        labels.append("second")
    return labels + (["nt"] if ch.acc > 9 and ch.rej > 9 else [])


def packed_noinfo(d):
    o = []
    while d:
        if not (d["n"]["title"] or "").startswith("<"):
            o += list(d["v"] or []) + [x for r in d["m"] or [] for x in r]
        d = d["more"]
    return o


# ------------------------------------------------------------ posteriors by search
@st.composite
def post_c(draw):
    k = draw(st.sampled_from([1, 1, 2]))
    return {"k": k, "mu": [draw(st.floats(-1, 3).map(R3)) for _ in range(k)], "s": [draw(st.floats(.5, 3).map(R3)) for _ in range(k)], "r": draw(st.floats(-.6, .6).map(R3)), "sig": draw(st.floats(.5, 3).map(R3)), "x": [draw(st.floats(-2, 4).map(R3)) for _ in range(draw(st.integers(1, 6)))],
            "c": [draw(st.floats(-1, 3).map(R3)) for _ in range(k)], "d": [draw(st.floats(.5, 3).map(R3)) for _ in range(k)], "seed": draw(st.integers(1, 10**6)), "ab": draw(st.sampled_from("ab")), "lik": draw(st.sampled_from(["normal", "quad"])), "set": draw(st.booleans()), "cross": draw(st.booleans())}


def run_post(c):
    k, mu, s = c["k"], np.array(c["mu"]), np.array(c["s"])
    if k == 1:
        pr = MD.model("normal", [c["mu"][0], c["s"][0]])
        V = np.array([[s[0] ** 2]])
    elif c["cross"]:
        a = (C.c_void_p * 3)(MD.model("normal", [c["mu"][0], c["s"][0]]), MD.model("normal", [c["mu"][1], c["s"][1]]))
        KEEP[:] = [a]
        pr = L.pips_sh_cross(2, C.addressof(a), "second")
        V = np.diag(s ** 2)
    else:
        V = np.array([[s[0] ** 2, c["r"] * s[0] * s[1]], [c["r"] * s[0] * s[1], s[1] ** 2]])
        pr = L.ppiiiiiPP_sh_model(var("apop_multivariate_normal"), 2, 2, 2, 2, 0, c["mu"], [float(v) for v in V.flatten()])
    x = np.array(c["x"])
    if k == 1 and c["lik"] == "normal":
        l = L.pp_sh_fix(L.ppiiiiiPP_sh_model(var("apop_normal"), -1, -1, -1, 1, 0, [math.nan, c["sig"]], []))
        P = np.array([[len(x) / c["sig"] ** 2]])
        h = np.array([x.sum() / c["sig"] ** 2])
    else:
        l = L.ppiiPPd_sh_mc_model(mk({"v": [1.0] * k}), 0, k, c["c"], c["d"], 0.0)
        P = np.diag(1 / np.array(c["d"]) ** 2)
        h = P @ np.array(c["c"])
    N = 6000
    if c["set"]:
        N = 8000
        L.vpidccid_sh_mc_settings(pr, N, .05, c["ab"].encode(), b"1", 0, 0.0)
    L.v_sh_mc_reset()
    m = L.ppppi_sh_update(mk({"v": c["x"]}), pr, l, c["seed"])
    L.v_sh_mc_reset()
    check(m, "nothing back")
    a = arr(L.pp_sh_mdata(m))
    eq(a.shape, (N - int(N * .05), k), "shape of the posterior")
    Vp = np.linalg.inv(np.linalg.inv(V) + P)
    mp = Vp @ (np.linalg.inv(V) @ mu + h)
    for i in range(k):
        sd = math.sqrt(Vp[i, i])
        check(abs(a[:, i].mean() - mp[i]) <= .35 * sd, "posterior mean of parameter %s: %s, expected %s (standard deviation %s)", i, a[:, i].mean(), mp[i], sd)
        check(.6 <= a[:, i].std() / sd <= 1.5, "posterior standard deviation of parameter %s: %s, expected %s", i, a[:, i].std(), sd)
    ar = L.ip_sh_mc_accepts(m) / N
    check(.15 <= ar <= .6, "acceptance rate %s, where the target is .35", ar)
    return ["%i parameters" % k, "nt", "ar %.1f" % ar]


FACETS = [Facet("long chain", lambda tier: ch_c(True), run_chain, quick=24, thorough=400), Facet("conjugate", lambda tier: conj_c(), run_conj, quick=600), Facet("weights", lambda tier: wt_c(), run_wt, quick=300), Facet("chain", lambda tier: ch_c(), run_chain, quick=400), Facet("posterior", lambda tier: post_c(), run_post, quick=96)]
