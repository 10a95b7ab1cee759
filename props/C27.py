"""Models, their settings groups and copies, and registries: histories against dictionaries."""
import ctypes as C
import itertools
import re
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G
import models as MD

RULE = ("history: up to 25 (thorough: 60) operations - new, copy, free, add, set, get, remove and copy settings groups of nine kinds, set parameters, info and private data, clear - over a growing list of models; after each, all models are compared with their dictionaries. "
        "names: up to 25 such operations on groups with arbitrary names, many differing in one letter or in case. parameters: copies with parameters filled in. registry: up to 40 operations on raw tables. print: models with set or estimated parameters, with and without names and covariances, mixtures, cross products (to two levels) and models with fixed parameters, printed to a file and to standard output. typed: the six registries of the library over stand-in models that share methods or differ in one. threads: 2 to 8 threads using shared tables at once. "
        "Non-trivial: at least two models and two settings operations; two entries in a table; two threads. Distinct by the whole case.")
ASSUMPTIONS = ["names of settings groups have at most 100 bytes", "zero in a new settings group means the default, as documented for designated initialisers", "a model that wraps another (cross, constrained, transformed) shares the wrapped model with its copies by design, so such groups are in C26",
               "what apop_settings_copy_group marks when the source never had any group is not specified"]

MLE = [1e-5, 5000, .05, 0, 0, 0, 5, 1.0, 50, None]
Y, N = float(ord("y")), float(ord("n"))
ch = st.sampled_from([Y, N, float(ord("a"))])
fl = st.sampled_from([.5, 2.25, 1e-3, -3.0, 17.0])
it = st.integers(1, 300).map(float)
GROUPS = [  # defaults, strategies of the fields
    (MLE, [fl, it, fl, fl, st.integers(1, 3).map(float), it, it, fl, fl, fl]),
    ([N, N, N, N], [ch, ch, ch, ch]),
    ([6000, .05, 0, .35, float(ord("b")), float(ord("1"))], [it, fl, it, fl, ch, ch]),
    ([1e4], [it]),
    ([0, 1e4], [it, it]),
    ([Y, Y, 0], [ch, ch, it]),
    ([0, 10, float(ord("q")), 2], [fl, it, ch, fl]),
    ([0, 0], [fl, fl]),
    ([N], [ch]),
]


# ------------------------------------------------------------ histories
@st.composite
def op(draw):
    o = draw(st.sampled_from(["new", "copy", "copy", "free", "add", "add", "add", "set", "set", "set", "rm", "cpg", "cpg", "copyset", "par", "info", "blob", "clear", "nullset", "hand"]))
    i, j = draw(st.integers(0, 7)), draw(st.integers(0, 7))
    g = draw(st.integers(0, 8)) if o != "copyset" else draw(st.sampled_from([0, 1, 6, 7]))
    F = GROUPS[g][1]
    if o in ("add", "copyset"):
        x = [draw(st.one_of(st.just(0.0), f)) for f in F]
    elif o == "set":
        k = draw(st.integers(0, len(F) - 1)) if g != 7 else 0
        x = [k, draw(F[k])]
    elif o == "new":
        x = [draw(st.sampled_from([0, 0, 1, 3, -1])), *draw(st.sampled_from([[0, 0], [0, 0], [2, 2], [2, -1], [-1, 3], [-1, -1]])), draw(st.sampled_from([0, 0, 1, 9])), draw(st.sampled_from(["", "a", "Model", "n" * 100]))]
    elif o in ("par", "info"):
        x = [draw(st.integers(0, 20)), draw(fl)]
    elif o == "blob":
        x = [draw(st.integers(0, 20)), draw(st.integers(1, 100))]
    elif o == "hand":
        x = draw(st.sampled_from([[[1.5, -2.0], None], [[3.0], None], [None, [[1.0, 2.0]]], [[1.0], [[4.0, 5.0], [6.0, 7.0]]]]))
    elif o == "clear":
        x = draw(st.sampled_from(["none", "v2", "m3", "v2m4"]))
    else:
        x = None
    return [o, i, j, g, x]


@st.composite
def hist_c(draw, tier):
    n = draw(st.integers(2, 60 if tier == "thorough" else 25))
    return {"ops": [["new", 0, 0, 0, draw(st.sampled_from([[2, 0, 0, 4, "m"], [0, 2, 2, 0, "m"], [1, 0, 0, 0, "m"], [2, 1, 2, 2, ""]]))]] + [draw(op()) for _ in range(n)]}


def view(p, sizes):
    """everything the library holds for a model"""
    x = (C.c_double * 6)()
    L.vpp_sh_msizes(p, C.addressof(x))
    out = {"sizes": [int(v) for v in x], "name": L.sp_sh_mname(p)}
    par = L.pp_sh_params(p)
    out["par"] = dump(par) if par else None
    if out["par"]:
        out["par"] = [out["par"]["v"], out["par"]["m"]]
    inf = L.pp_sh_info(p)
    if inf:
        d = dump(inf)
        out["info"] = [list(t) for t in zip(d["n"]["r"], (d["v"] or []))]
    else:
        out["info"] = []
    out["blob"] = [L.ipi_sh_blob_get(p, i) for i in range(out["sizes"][4])]
    gs = {}
    for g, (dflt, _) in enumerate(GROUPS):
        x = (C.c_double * 12)()
        if not L.ipciip_sh_sg(p, "g", g, 0, C.addressof(x)):
            gs[g] = [x[i] for i in range(len(dflt))]
    out["groups"] = gs
    return out


DATA = {"none": None, "v2": {"v": [1.0, 2.0]}, "m3": {"m": [[1.0, 2.0, 3.0]]}, "v2m4": {"v": [1.0, 2.0], "m": [[1.0, 2.0, 3.0, 4.0]] * 2}}


def run_hist(c):
    models, free0 = [], (C.c_int * 2)()
    fn("vp", "sh_sg_live")(C.addressof(free0))
    sets = n_models = 0
    delta = None

    def fresh(g, x):
        d = list(GROUPS[g][0])
        for i, v in enumerate(x):
            if g == 6 and i == 3 or g == 7 and i == 1:
                continue
            if v:
                d[i] = v
            elif d[i] is None:
                d[i] = DEF[0]
        if g == 7:
            d[1] = [1]
        return d

    def clone(m):
        o = {k: ([list(x) if x else x for x in v] if isinstance(v, list) and k in ("par", "info") else list(v) if isinstance(v, list) else v) for k, v in m.items() if k not in ("p", "groups")}
        o["par"] = None if m["par"] is None else [None if m["par"][0] is None else list(m["par"][0]), None if m["par"][1] is None else [list(r) for r in m["par"][1]]]
        o["groups"] = {}
        for g, v in m["groups"].items():
            o["groups"][g] = cpg(g, v)
        return o

    def cpg(g, v):
        v = list(v)
        if g == 7:
            v[1][0] += 1
        return v

    def drop(m, g):
        v = m["groups"].pop(g, None)
        if v is not None and g == 7:
            v[1][0] -= 1

    def same(step):
        for k, m in enumerate(models):
            w = view(m["p"], None)
            what = "after %s, model %i of %i: " % (c["ops"][:step + 1], k, len(models))
            eq(w["name"], m["name"], what + "name")
            e = w["sizes"].pop()
            eq(w["sizes"], m["sizes"], what + "sizes")
            check((chr(e) if e else "") in m["err"], what + "error mark '%s', not %s", chr(e), m["err"])
            eq(w["par"], m["par"], what + "parameters")
            eq(w["info"], m["info"], what + "info")
            eq(w["blob"], m["blob"], what + "private data")
            eq(sorted(w["groups"]), sorted(m["groups"]), what + "groups present")
            for g, v in m["groups"].items():
                v = list(v)
                if g == 7:
                    v[1] = v[1][0]
                eq(w["groups"][g], [float(x) for x in v], what + "group %s" % g)

    for step, (o, i, j, g, x) in enumerate(c["ops"]):
        if o == "new" and len(models) < 8:
            vs, m1, m2, sz, name = x
            p = L.psiiii_sh_blob_model(name, vs, m1, m2, sz)
            models.append({"p": p, "name": name, "sizes": [vs, m1, m2, 0, sz], "err": [""], "par": None, "info": [], "blob": [0] * sz, "groups": {}, "info?": False})
            n_models += 1
        elif models and o != "new":
            m, s = models[i % len(models)], models[j % len(models)]
            if o == "copy" and len(models) < 8:
                k = clone(m)
                k["p"] = L.pp_sh_model_copy(m["p"])
                models.append(k)
                n_models += 1
            elif o == "copyset" and len(models) < 8:
                k = clone(m)
                drop(k, g)
                k["p"] = L.ppiP_sh_copy_set(m["p"], g, x)
                k["groups"][g] = fresh(g, x)
                models.append(k)
                n_models += 1
            elif o == "free":
                L.vp_sh_model_free(m["p"])
                for h in list(m["groups"]):
                    drop(m, h)
                models.remove(m)
            elif o == "add":
                drop(m, g)
                L.ipciiP_sh_sg(m["p"], "a", g, 0, x)
                m["groups"][g] = fresh(g, x)
                sets += 1
            elif o == "set":
                y = [0.0] * 12
                y[x[0]] = x[1]
                L.ipciiP_sh_sg(m["p"], "s", g, x[0], y)
                if g in m["groups"]:
                    m["groups"][g][x[0]] = x[1]
                    sets += 1
                elif not (g == 6 and x[0] == 3):
                    m["err"] = ["s"]
            elif o == "nullset":
                L.ipciiP_sh_sg(None, "s", g, 0, [1.0] * 12)
            elif o == "rm":
                L.ipciiP_sh_sg(m["p"], "r", g, 0, [0.0] * 12)
                drop(m, g)
                sets += 1
            elif o == "cpg":
                L.vppi_sh_sg_copy(m["p"], s["p"], g)
                if g in s["groups"]:
                    v = cpg(g, s["groups"][g])
                    drop(m, g)
                    m["groups"][g] = v
                    sets += 1
                elif s["groups"]:
                    m["err"] = ["s"]
                else:
                    m["err"] = m["err"] + ["s"]
            elif o == "par" and m["par"]:
                k, v = x
                if m["par"][0]:
                    k %= len(m["par"][0])
                    m["par"][0][k] = v
                    L.ipiidsss_sh_set(L.pp_sh_params(m["p"]), k, -1, v, None, None, None)
                elif m["par"][1]:
                    r, q = divmod(k % (len(m["par"][1]) * len(m["par"][1][0])), len(m["par"][1][0]))
                    m["par"][1][r][q] = v
                    L.ipiidsss_sh_set(L.pp_sh_params(m["p"]), r, q, v, None, None, None)
            elif o == "hand" and m["par"] is None:
                L.vpp_sh_hand(m["p"], mk({k: v for k, v in zip("vm", x) if v}))
                m["par"] = [x[0] and list(x[0]), x[1] and [list(r) for r in x[1]]]
            elif o == "info":
                L.vpsd_sh_add_info(m["p"], "i%i" % x[0], x[1])
                m["info"] = m["info"] + [["i%i" % x[0], x[1]]]
            elif o == "blob" and m["blob"]:
                k = x[0] % len(m["blob"])
                L.vpii_sh_blob_set(m["p"], k, x[1])
                m["blob"] = m["blob"][:k] + [x[1]] + m["blob"][k + 1:]
            elif o == "clear":
                d = DATA[x]
                dp = mk(d) if d else None
                w = 0 if d is None else len(d["m"][0]) if d.get("m") else 1
                L.ppp_sh_model_clear(dp, m["p"])
                sz = m["sizes"]
                if -1 in sz[:4] and not w and m["par"] is None:
                    check(view(m["p"], None)["sizes"][5] == ord("d"), "after %s: no error for a size that nothing gives", c["ops"][:step + 1])
                    L.vp_sh_model_free(m["p"])
                    for h in list(m["groups"]):
                        drop(m, h)
                    models.remove(m)
                    same(step)
                    continue
                if -1 in sz[:4] and not w:
                    m["err"] = ["d"]
                vs, m1, m2 = [w if v == -1 else v for v in sz[:3]]
                if m["par"] is None and (vs or m1 * m2) and not (0 in (m1, m2) and m1 + m2):
                    par = L.pp_sh_params(m["p"])
                    check(par, "no parameters after a clear")
                    q = dump(par)
                    eq([len(q["v"] or []), len(q["m"] or []) if m2 else 0, len(q["m"][0]) if q["m"] else 0], [vs, m1 if m1 * m2 else 0, m2 if m1 * m2 else 0], "after %s: size of the parameters" % c["ops"][:step + 1])
                    vals = [.5 + k for k in range(vs + m1 * m2)]
                    L.vpiP_sh_fill(par, len(vals), vals)
                    q = dump(par)
                    m["par"] = [q["v"], q["m"]]
        same(step)
    for m in models:
        L.vp_sh_model_free(m["p"])
    now = (C.c_int * 2)()
    fn("vp", "sh_sg_live")(C.addressof(now))
    eq(list(now), list(free0), "settings groups still held after all models are freed, %s" % c["ops"])
    return [o[0] for o in c["ops"][1:3]] + (["nt"] if n_models > 1 and sets > 1 else [])


DEF = [None]


def hist(c):
    if DEF[0] is None:
        p = L.psiiii_sh_blob_model("d", 1, 0, 0, 0)
        L.ipciiP_sh_sg(p, "a", 0, 0, [0.0] * 12)
        x = (C.c_double * 12)()
        L.ipciip_sh_sg(p, "g", 0, 0, C.addressof(x))
        DEF[0] = x[9]
        L.vp_sh_model_free(p)
    return run_hist(c)


# ------------------------------------------------------------ names of groups
LETTER = st.sampled_from("abAB_1")
gname = st.one_of(st.text(LETTER, min_size=1, max_size=4), st.text(LETTER, min_size=1, max_size=2).map(lambda t: t + "mle"), st.sampled_from(["ab", "bA", "aab", "abA", "apop_mle", "apop_Mle", "apop_ml", "apop_mle_", "x" * 99, "x" * 100]), st.text(st.characters(min_codepoint=33, max_codepoint=0xff), min_size=1, max_size=6))


@st.composite
def name_c(draw):
    names = draw(st.lists(gname, min_size=2, max_size=6, unique=True))
    names += [n.swapcase() for n in names[:2] if n.swapcase() not in names and max(map(ord, n)) < 128]
    return {"names": names, "ops": [[draw(st.sampled_from("aaasrcCf")), draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(st.integers(0, len(names) - 1)), draw(st.integers(0, 99))] for _ in range(draw(st.integers(3, 25)))]}


def run_name(c):
    live = L.i_sh_ng_live()
    ms = [[L.psiiii_sh_blob_model("m", 1, 0, 0, 0), {}]]
    most = 0
    for step, (o, i, j, k, v) in enumerate(c["ops"]):
        m, s, n = ms[i % len(ms)], ms[j % len(ms)], c["names"][k]
        if o == "a":
            L.vpsi_sh_ng_add(m[0], n, v)
            m[1][n] = v
        elif o == "s":
            L.vpsi_sh_ng_set(m[0], n, v)
            if n in m[1]:
                m[1][n] = v
        elif o == "r":
            L.vps_apop_settings_remove_group(m[0], n)
            m[1].pop(n, None)
        elif o == "c":
            L.vpps_apop_settings_copy_group(m[0], s[0], n)
            if n in s[1]:
                m[1][n] = s[1][n]
        elif o == "C" and len(ms) < 5:
            ms.append([L.pp_sh_model_copy(m[0]), dict(m[1])])
        elif o == "f" and len(ms) > 1:
            L.vp_sh_model_free(m[0])
            ms.remove(m)
        for q, m in enumerate(ms):
            eq([L.ips_sh_ng_get(m[0], n) for n in c["names"]], [m[1].get(n, -1) for n in c["names"]], "groups %s of model %i after %s" % (c["names"], q, c["ops"][:step + 1]))
            most = max(most, len(m[1]))
    for m in ms:
        L.vp_sh_model_free(m[0])
    eq(L.i_sh_ng_live(), live, "settings groups still held after all models are freed, %s" % c["ops"])
    return ["nt"] if most > 1 else []


# ------------------------------------------------------------ parameters
NAMES = {"apop_normal": 2, "apop_poisson": 1, "apop_gamma": 2, "apop_beta": 2, "apop_uniform": 2, "apop_exponential": 1, "apop_multivariate_normal": -1, "apop_t_distribution": 3, "apop_ols": -1, "apop_multinomial": -1}


@st.composite
def par_c(draw):
    n = draw(st.sampled_from(sorted(NAMES)))
    k = NAMES[n] if NAMES[n] > 0 else 2
    return {"n": n, "x": [draw(fl) for _ in range(k)], "again": [draw(fl) for _ in range(k)], "size": draw(st.booleans())}


def run_par(c):
    base = var(c["n"])
    before = view(base, None)
    m = L.ppPi_sh_set_parameters(base, c["x"], len(c["x"]))
    if NAMES[c["n"]] < 0:
        check(view(m, None)["sizes"][5] == ord("d"), "no error for %s, whose parameters depend on data", c["n"])
        eq(view(base, None), before, "the model copied")
        return ["data dependent"]
    eq(view(m, None)["par"][0], c["x"], "parameters of %s" % c["n"])
    eq(view(base, None), before, "the model copied")
    k = L.ppPi_sh_set_parameters(m, c["again"], len(c["again"]))
    eq(view(k, None)["par"][0], c["again"], "parameters of a copy")
    eq(view(m, None)["par"][0], c["x"], "parameters of %s after a copy was made" % c["n"])
    e = L.pp_sh_model_copy(k)
    L.vp_sh_model_free(k)
    eq(view(e, None)["par"][0], c["again"], "parameters of the copy after the source is freed")
    for p in (m, e):
        L.vp_sh_model_free(p)
    return ["nt"]


# ------------------------------------------------------------ registries
_tab = itertools.count()
KEEP = []


@st.composite
def reg_c(draw, tier):
    n = draw(st.integers(2, 100 if tier == "thorough" else 40))
    return {"ops": [[draw(st.sampled_from(["a", "a", "a", "g", "d"])), draw(st.integers(0, 3)), draw(st.integers(1, 7)), draw(st.integers(0, 5))] for _ in range(n)]}


def run_reg(c):
    k = next(_tab)
    names = [("t%i_%i_%i" % (os.getpid(), k, i)).encode() for i in range(4)]
    KEEP.extend(C.create_string_buffer(n) for n in names)
    names = [C.addressof(b) for b in KEEP[-4:]]
    ref = {}
    add, get, drop = fn("ipll", "sh_vt_add"), fn("lpl", "sh_vt_get"), fn("ipl", "sh_vt_drop")
    for n, (o, t, h, v) in enumerate(c["ops"]):
        what = "after %s: " % c["ops"][:n + 1]
        if o == "a":
            eq(add(names[t], v * 16, h), 0, what + "result of adding")
            ref.setdefault((t, h), v * 16)
        elif o == "d":
            eq(drop(names[t], h), 0 if (t, h) in ref else 1, what + "result of dropping")
            ref.pop((t, h), None)
        else:
            eq(get(names[t], h), ref.get((t, h), 0), what + "entry %s of table %s" % (h, t))
        for t in range(4):
            for h in range(1, 8):
                eq(get(names[t], h), ref.get((t, h), 0), what + "entry %s of table %s" % (h, t))
    return ["nt"] if len(ref) > 1 else []


# typed registries
_addr = itertools.count(1)


@st.composite
def typed_c(draw):
    # methods: log likelihood, p, draw, estimate, cdf; zero is none, others index made-up addresses
    el = draw(st.sampled_from([st.integers(0, 2), st.sampled_from([0, 0, 0, 0, 1, 2])]))
    models = [[draw(el) for _ in range(5)] for _ in range(4)]
    models[1] = list(models[0])
    models[1][draw(st.integers(0, 4))] = draw(el)
    return {"m": models, "k": draw(st.integers(0, 5)), "ops": [[draw(st.sampled_from("aaagd")), draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(st.integers(0, 4))] for _ in range(draw(st.integers(2, 15)))]}


def key(k, m):
    """what a registry tells models apart by, as documented"""
    ll, p, dr, est, cdf = m
    first = ("ll", ll) if ll else ("p", p)
    if k == 0:
        return ("ll", ll) if ll else ("p", p) if p else ("draw", dr) if dr else None
    if k == 1:
        return (ll, p, dr)
    if k == 2:
        return ll or p
    if k in (3, 4):
        return (ll or p, est)
    return ("ll", ll) if ll else ("p", p) if p else ("est", est) if est else ("draw", dr) if dr else ("cdf", cdf) if cdf else None


def run_typed(c):
    n = next(_addr)
    k = c["k"]
    # stand-ins' addresses are new in every case; entries are dropped at the end
    ad = lambda kind, i: 0 if not i else (((n * 3 + i) * 5 + kind) * 7919 + 1000003) * 64 if k not in (2, 3, 4) or kind > 1 else ((n * 3 + i) * 7919 + 1000003) * 64 * 5
    ms = [L.plllll_sh_fake(*[ad(q, i) for q, i in enumerate(m)]) for m in c["m"]]
    ref = {}
    pair = lambda i, j: (key(k, c["m"][i]), key(k, c["m"][j]) if k == 0 else 0)
    drop_all = lambda: [L.licppl_sh_tv(k, "d", a, b, 0) for a in ms for b in (ms if k == 0 else ms[:1])]
    drop_all()  # a model without any method has the same key in every case
    for s, (o, i, j, v) in enumerate(c["ops"]):
        q = pair(i, j)
        what = "after %s over %s: " % (c["ops"][:s + 1], c["m"])
        r = L.licppl_sh_tv(k, o, ms[i], ms[j], v * 16)
        if o == "a":
            ref.setdefault(q, v * 16)
        elif o == "g":
            eq(r, ref.get(q, 0), what + "entry")
        else:
            eq(r, 0 if q in ref else 1, what + "result of dropping")
            ref.pop(q, None)
        for a in range(4):
            for b in range(4) if k == 0 else [0]:
                eq(L.licppl_sh_tv(k, "g", ms[a], ms[b], 0), ref.get(pair(a, b), 0), what + "registry %s, models %s and %s" % (k, a, b))
    drop_all()
    for m in ms:
        L.vp_sh_free(m)
    for x, want in ((0, -6), (1, 77), (2, -6)):
        near(L.did_sh_vt_score(x, 3.0), want, "score with entry added and dropped (%s)" % x, 1e-3)
    return ["nt"] if len(ref) > 1 else []


@st.composite
def thr_c(draw):
    return {"threads": draw(st.integers(2, 8)), "tables": draw(st.integers(1, 9)), "per": draw(st.integers(1, 12))}


def run_thr(c):
    KEEP.append(None)
    bad = L.iiiis_sh_vt_threads(c["threads"], c["tables"], c["per"], "th%i_%i_" % (os.getpid(), next(_tab)))
    eq(bad, 0, "wrong answers from registries shared by %s threads" % c["threads"])
    return ["nt"]


# ------------------------------------------------------------ printing
UNI = ["normal", "uniform", "exponential", "poisson", "gamma", "beta", "bernoulli"]
ESTS = ["normal", "poisson", "exponential", "multinomial", "bernoulli", "pmf", "ols", "mvn", "improper"]


@st.composite
def pm_c(draw, depth=2):
    k = draw(st.sampled_from(["set", "est", "est"] + (["mixture", "cross", "fix"] if depth else [])))
    c = {"k": k}
    if k == "set":
        c["n"] = draw(st.sampled_from(UNI + ["nothing"]))
        c["p"] = list(draw(MD.MODELS[c["n"]].params)) if c["n"] != "nothing" else []
    elif k == "est":
        c["n"] = draw(st.sampled_from(ESTS))
        n, w = draw(st.integers(4, 8)), draw(st.integers(1, 3))
        el = {"poisson": st.integers(0, 9), "exponential": st.integers(1, 9), "multinomial": st.integers(0, 6), "bernoulli": st.sampled_from([0, 1])}.get(c["n"], st.integers(-9, 9))
        c["m"] = [[float(draw(el)) + (j if c["n"] == "multinomial" else 0) for j in range(w + 1)] for _ in range(n)]
        c["names"] = draw(st.booleans())
        c["cov"] = draw(st.sampled_from("yn"))
    elif k == "fix":
        c["n"] = draw(st.sampled_from(["normal", "gamma", "beta", "uniform"]))
        c["p"] = list(draw(MD.MODELS[c["n"]].params))
        c["free"] = draw(st.integers(0, 1))
        c["now"] = draw(st.sampled_from([None, .25, 2.0]))
    else:
        c["of"] = [draw(pm_c(depth - 1)) for _ in range(draw(st.integers(2, 3)))]
        c["w"] = [draw(st.sampled_from([.5, 1.0, 2.0])) for _ in c["of"]]
        c["par"] = draw(st.booleans())
    c["name"] = draw(st.sampled_from([None, None, None, "", "my model %s%n", "x" * 100]))
    return c


ALIVE = []


def build(c):
    """(model, function that writes down what is to be printed)"""
    k = c["k"]
    special = None
    tdata = lambda p: (L.vpsc_sh_print_pipe(p, "piece.txt", b"w"), open("piece.txt", "rb").read())[1]
    tvec = lambda v: (L.vps_sh_vector_pipe(v, "piece.txt"), open("piece.txt", "rb").read())[1]
    nm = lambda m: C.string_at(m)
    if k == "set":
        n = c["n"]
        if n == "bernoulli":
            L.vp_apop_model_free(L.ppp_apop_estimate(mk({"v": [1.0, 0.0]}), var("apop_bernoulli")))   # registers its routines
        m = MD.model(n, c["p"]) if n != "nothing" else L.pp_apop_model_copy(var("apop_normal"))
        if n == "bernoulli":
            special = lambda: b"Bernoulli distribution with p = %s.\n" % (b"%g" % c["p"][0])
    elif k == "est":
        n = c["n"]
        M = c["m"]
        d = {"v": [r[0] for r in M]} if n in ("normal", "poisson", "exponential", "bernoulli") else {"m": M}
        if c["names"] and "m" in d:
            d["c"] = ["c%i" % i for i in range(len(M[0]))]
        base = L.pp_apop_model_copy(var({"mvn": "apop_multivariate_normal", "improper": "apop_improper_uniform"}.get(n, "apop_" + n)))
        if n == "ols" and len(M) > 5:
            d["w"] = [1.0 + i % 3 for i in range(len(M))]
        data = mk(d)
        L.vpc_sh_want_cov(base, c["cov"])
        m = L.ppp_apop_estimate(data, base)
        if n == "bernoulli":
            special = lambda: b"Bernoulli distribution with p = %s.\n" % (b"%g" % dump(L.pp_sh_params(m))["v"][0])
        elif n == "pmf":
            special = lambda: tdata(L.pp_sh_model_data(m))
        elif n == "multinomial":
            def special():
                v = list(dump(L.pp_sh_params(m))["v"])
                N = v[0]
                v[0] = 1 - sum(v[1:])
                return b"%s, with %d draws.\nBin odds:\n" % (nm(m), N) + tvec(L.pp_sh_v(mk({"v": v})))
        elif n == "ols":
            def special():
                inf = L.pp_apop_data_copy(L.pp_sh_info(m))
                L.ppsc_sh_rm_page(inf, "<Predicted>", b"y")
                return b"Parameters:\n" + tdata(L.pp_sh_params(m)) + tdata(inf)
    elif k == "fix":
        p = c["p"]
        whole = MD.model(c["n"], p)
        blank = MD.model(c["n"], [float("nan") if i == c["free"] else x for i, x in enumerate(p)])
        m = L.pp_sh_fix(blank)
        L.vpp_apop_prep(None, m)
        if c["now"] is not None:
            L.vpiP_sh_fill(L.pp_sh_params(m), 1, [c["now"]])
        now = dump(L.pp_sh_params(m))["v"][0]

        def special():
            L.vpiP_sh_fill(L.pp_sh_params(whole), 2, [now if i == c["free"] else x for i, x in enumerate(p)])
            return b"The fill-in table:\n" + b"\0" + b"The base model, after unpacking:\n" + nm(L.pp_sh_fix_base(m)) + b"\n\n" + tdata(L.pp_sh_params(whole))
    else:
        parts = [build(x) for x in c["of"]]
        a = (C.c_void_p * (len(parts) + 1))(*[x[0] for x in parts])
        ALIVE.append(a)
        if k == "mixture":
            L.vpp_apop_prep(None, L.pipPi_sh_mixture(len(parts), C.addressof(a), c["w"], 0))    # registers its routines
            m = L.pipPi_sh_mixture(len(parts), C.addressof(a), c["w"], 0)
            if c["par"]:
                L.vpp_apop_prep(None, m)

            def special():
                has = bool(L.pp_sh_params(m))
                s = b"Mixture of %i models, with %sweights%s\n" % (len(parts), b"" if has else b"unspecified ", b":" if has else b"")
                return s + (tvec(L.pp_sh_mix_get_weights(m)) if has else b"") + b"".join(b"\n" + x[1]() for x in parts)
        else:
            m = L.pips_sh_cross(len(parts), C.addressof(a), None)

            def special():
                # a cross of three is the first crossed with the cross of the others
                def tell(l, x):
                    head = b"Cross product of %s and %s models:\n" % (nm(L.ppi_sh_cross_part(x, 0)), nm(L.ppi_sh_cross_part(x, 1)))
                    return head + l[0]() + (l[1]() if len(l) == 2 else tell(l[1:], L.ppi_sh_cross_part(x, 1)))
                return tell([x[1] for x in parts], m)
    if c["name"] is not None and k != "fix":
        L.vps_sh_name_model(m, c["name"])
    if special is None:
        def special():
            s = nm(m) + b"\n\n"
            if L.pp_sh_params(m):
                s += tdata(L.pp_sh_params(m))
            inf = L.pp_sh_info(m)
            A = dump(inf) if inf else None
            if A and (A["v"] or A["m"] or A["t"]):
                s += tdata(inf)
            return s
    return m, special


def run_pm(c):
    """What is printed of a model is its name, parameters and information as they are printed alone, or the form of its own."""
    ALIVE.clear()
    m, tell = build(c)
    what = lambda: [dump(p, 1) if p else None for p in (L.pp_sh_params(m), L.pp_sh_info(m), L.pp_sh_model_data(m))]
    before = what()
    want = tell()
    for how in "fsd":
        L.vpsc_sh_model_print(m, "model.txt", how.encode())
        got = open("model.txt", "rb").read()
        if not re.fullmatch(b"(?s:.*?)".join(re.escape(x) for x in want.split(b"\0")), got):    # the table of fixed parameters is in a form of its own
            eq(got.decode("latin1"), want.decode("latin1"), "printed (%s)" % how)
        eq(what(), before, "the model after it is printed")
    for how in "fsd":
        L.vpsc_sh_model_print(None, "model.txt", how.encode())
        eq(open("model.txt", "rb").read(), b"NULL\n", "printed of no model")
    return [c["k"] + (" " + c["n"] if "n" in c else "")] + (["nt"] if c["k"] != "set" else [])


FACETS = [Facet("history", lambda tier: hist_c(tier), hist, quick=2500), Facet("names", lambda t: name_c(), run_name, quick=1000), Facet("parameters", lambda tier: par_c(), run_par, quick=300), Facet("registry", lambda tier: reg_c(tier), run_reg, quick=600),
          Facet("typed", lambda tier: typed_c(), run_typed, quick=6000), Facet("print", lambda t: pm_c(), run_pm, quick=500, thorough=8000), Facet("threads", lambda tier: thr_c(), run_thr, quick=200, threads=8)]
