"""Raking: the table returned is the limit of iterative proportional fitting, over the cells that can be nonzero."""
import ctypes as C
import itertools
import json
import numpy as np
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("rake: tables of 1 to 4 variables (sometimes 7 to 9) with up to 14 rows, counted or one observation per row; none to four contrasts of any width, overlapping; starting tables given, by the count or by a column, or all ones; structural zeros; nudges; missing categories; variable lists given or read from the table. "
        "The result is compared, cell by cell, with iterative proportional fitting of the full array. limits: few iterations, loose tolerances, and input that is wrong. threads: up to 4 threads raking at once. Non-trivial: at least two contrasts or a starting table, and at least three cells. Distinct by the whole case.")
ASSUMPTIONS = ["cells are compared where the requested margins are feasible and the fit converges in the iterations allowed; elsewhere only that no cell is negative or missing, that structural and starting zeros stay zero, and that the error mark is set",
               "categories are numbers, as the result holds them in a matrix", "a variable with missing categories is in at most one contrast, as SQL joins do not match missing values"]

NAMES = ["a", "b", "cc", "d", "e", "f", "g", "h", "i"]


@st.composite
def table(draw, k, n, counts, vals):
    return [[draw(vals) for _ in range(k)] + [draw(counts)] for _ in range(n)]


@st.composite
def rake_c(draw):
    k = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4, 7, 9]))
    vals = draw(st.sampled_from([st.integers(0, 1), st.integers(0, 2), st.integers(1, 3), st.sampled_from([-1, 0.5, 2]), st.sampled_from([10, 2, 33, 4])])) if k < 7 else st.integers(0, 1)
    count = draw(st.booleans())
    counts = draw(st.sampled_from([st.integers(1, 9), st.integers(0, 9), st.sampled_from([.5, 1.25, 3, 20])])) if count else st.just(1)
    rows = draw(table(k, draw(st.integers(1, 14 if k < 7 else 4)), counts, vals))
    nc = draw(st.sampled_from([0, 1, 2, 2, 3, 4]))
    if k >= 7:
        nc = draw(st.integers(1, 3))
    cons = [draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=min(k, 3) if k < 7 else k, unique=True)) for _ in range(nc)]
    if k >= 7:
        cons.append(list(range(k)) if draw(st.booleans()) else list(range(1, k)))
    init = draw(st.sampled_from([None, None, "other", "other", "self", "col"]))
    it = None
    if init == "other":
        it = draw(table(k, draw(st.integers(1, 14)), draw(st.sampled_from([st.integers(1, 5), st.integers(0, 5), st.sampled_from([.5, 2, 30])])), vals))
        if draw(st.integers(0, 2)):
            it = [r for r in it if not any(r[:k] == q[:k] for q in rows)] + [q[:k] + [draw(st.integers(1, 5))] for q in rows]
    zero = draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, k - 1), vals).map(list)))
    if zero and draw(st.integers(0, 3)):
        rows = [r for r in rows if r[zero[0]] != zero[1]] or rows
    alt = None
    if zero and draw(st.integers(0, 2)) == 0:
        alt = [draw(st.integers(0, k - 1)), draw(vals)]
        if draw(st.integers(0, 3)):
            rows = [r for r in rows if r[alt[0]] != alt[1]] or rows
    if k < 7 and zero is None and draw(st.integers(0, 3)) == 0:  # a category that is missing, in a variable of at most one contrast (a natural join does not match NULLs)
        i = draw(st.integers(0, k - 1))
        if sum(i in con for con in cons) <= 1:
            v = draw(st.sampled_from(rows))[i]
            rows, it = [[[None if j == i and x == v else x for j, x in enumerate(r)] for r in t] if t else t for t in (rows, it)]
    return {"k": k, "rows": rows, "count": count, "cons": cons, "init": init, "it": it, "zero": zero, "alt": alt, "nudge": draw(st.sampled_from([0, 0, 0, .25, 1e-3])), "vars": draw(st.booleans()), "perm": draw(st.permutations(range(k))),
            "space": draw(st.booleans()), "cfirst": draw(st.booleans()), "icount": draw(st.booleans())}


def make(name, k, rows, counted, cname, first):
    cols = NAMES[:k]
    if counted:
        cols = [cname] + cols if first else cols + [cname]
    L.is_sh_query("create table %s(%s)" % (name, ", ".join(cols)))
    for r in rows:
        v = list(r[:k])
        if counted:
            v = [r[k]] + v if first else v + [r[k]]
        L.is_sh_query("insert into %s values(%s)" % (name, ", ".join("NULL" if x is None else repr(x) for x in v)))


def sql(q):
    return json.loads(L.ss_sh_sql(q))


def state():
    t = sql("select name, sql from sqlite_master order by 1")["rows"]
    return t, [sql("select * from %s order by rowid" % n)["rows"] for n, _ in t]


def arr(lst):
    lst = [enc(x) for x in lst]
    return (C.c_char_p * max(len(lst), 1))(*lst)


def ipf(init, targets, rounds, tol=0):
    x = dict(init)
    change = 1e300
    for r in range(rounds):
        old = dict(x)
        for key, t in targets:
            s = {}
            for c, v in x.items():
                q = tuple(c[i] for i in key)
                s[q] = s.get(q, 0) + v
            for c in x:
                q = tuple(c[i] for i in key)
                if s[q]:
                    x[c] *= t.get(q, 0) / s[q]
        change = max([abs(x[c] - old[c]) for c in x] or [0])
        if change <= tol:
            break
    return x, change, r + 1


def setup(c):
    k, rows = c["k"], c["rows"]
    L.i_sh_db_close()
    L.is_sh_db_open(None)
    make("marg", k, rows, c["count"], "n", c["cfirst"])
    T = {}
    for r in rows:
        T[tuple(r[:k])] = T.get(tuple(r[:k]), 0) + r[k]
    order = c["perm"] if c["vars"] else range(k)
    # support and starting values
    cats = [{r[i] for r in rows} for i in range(k)]
    marg = []
    for con in c["cons"]:
        t = {}
        for cell, v in T.items():
            q = tuple(cell[i] for i in con)
            t[q] = t.get(q, 0) + v
        marg.append((tuple(con), t))
    free = [i for i in range(k) if not any(i in con for con in c["cons"])]
    zero = lambda cell: c["zero"] is not None and (cell[c["zero"][0]] == c["zero"][1] or c["alt"] is not None and cell[c["alt"][0]] == c["alt"][1])
    possible = set()
    if c["init"] is None or c["nudge"]:
        # cells of the join of the margins' supports
        part = [{}]
        for key, t in marg + [((i,), {(v,): 1 for v in cats[i]}) for i in free]:
            new = []
            for p in part:
                for q in t:
                    if all(p.get(i, v) == v for i, v in zip(key, q)):
                        new.append({**p, **dict(zip(key, q))})
            part = new
        possible = {tuple(p[i] for i in range(k)) for p in part}
        possible = {p for p in possible if not zero(p)}
    it = None
    if c["init"] is None:
        init = {p: 1.0 for p in possible}
    else:
        if c["init"] == "other":
            make("init", k, c["it"], c["icount"], "w", not c["cfirst"])
            src, it, ic = c["it"], "init", "w" if c["icount"] else None
        elif c["init"] == "self":
            src, it, ic = rows, "marg", None
        else:
            src, it, ic = rows, None, "n" if c["count"] else None
            if not c["count"]:
                it = "marg"
        init = {}
        for r in src:
            cell = tuple(r[:k])
            if not zero(cell):
                init[cell] = init.get(cell, 0) + (r[k] if ic else 1)
        if c["nudge"]:
            for p in possible:
                init.setdefault(p, 0)
            for p in init:
                if not init[p]:
                    init[p] = c["nudge"]
    return T, marg, init, zero, it, (ic if c["init"] else None), order


def call(c, it, ic, order, maxit=0, tol=0, zeros=True):
    sep = " | " if c["space"] else "|"
    cons = [sep.join(NAMES[i] for i in con) for con in c["cons"]]
    names = [NAMES[i] for i in order]
    z = " or ".join("%s = %r" % (NAMES[i], v) for i, v in (c["zero"], c["alt"])) if c["zero"] and c["alt"] else "%s = %r" % (NAMES[c["zero"][0]], c["zero"][1]) if c["zero"] else None
    va, ca = arr(names), arr(cons)
    return L.pspipisidsssd_sh_rake("marg", C.addressof(va) if c["vars"] else None, len(names) if c["vars"] else 0, C.addressof(ca) if cons else None, len(cons), z, maxit, tol, "n" if c["count"] else None, it, ic, float(c["nudge"]))


def run_rake(c):
    k = c["k"]
    T, marg, init, zero, it, ic, order = setup(c)
    total = float(sum(T.values()))
    if not total or not sum(init.values()):
        return ["empty"]
    before = state()
    o = call(c, it, ic, order, 3000, 1e-10)
    eq(state(), before, "the database after raking")
    check(o, "no result")
    d = dump(o)
    what = "raking %s: " % c["rows"]
    eq(sorted(d["n"]["c"]), sorted(NAMES[:k]), what + "columns")
    eq(d["n"]["c"], [NAMES[i] for i in order], what + "order of the variables")
    pos = [d["n"]["c"].index(NAMES[i]) for i in range(k)]
    got = {}
    for row, w in zip(d["m"], d["w"]):
        cell = tuple(None if row[p] != row[p] else row[p] for p in pos)
        check(cell not in got, what + "cell %s is given twice", cell)
        check(w >= 0, what + "cell %s is %s", cell, w)
        check(not zero(cell) , what + "cell %s is a structural zero, given as %s", cell, w)
        check(init.get(cell, 0) > 0 or w == 0, what + "cell %s started at zero and is %s", cell, w)
        got[cell] = w
    x0 = sum(init.values())
    ref, change, n = ipf({p: v * total / x0 for p, v in init.items()}, marg, 400, 1e-12 * total)
    fits = all(abs(sum(ref[p] for p in ref if tuple(p[i] for i in key) == q) - v) < 1e-9 * total for key, t in marg for q, v in t.items())
    extra = all(not ref[p] or tuple(p[i] for i in key) in t for p in ref for key, t in marg)
    if not fits or not extra or change > 1e-11 * total:
        return ["infeasible or slow"]
    check(not L.ip_sh_error(o), what + "error mark %s where the fit converges in %i rounds", chr(L.ip_sh_error(o)), n)
    for p in set(ref) | set(got):
        near(got.get(p, 0), ref.get(p, 0), what + "contrasts %s, start %s: cell %s" % (c["cons"], c["init"], p), 1e-5, 1e-6 * total)
    for p in init:
        if init[p] and p not in got:
            check(ref[p] < 1e-9 * total, what + "cell %s is missing", p)
    return [str(c["init"]), "%i contrasts" % len(c["cons"])] + (["zeros"] if c["zero"] else []) + (["nudge"] if c["nudge"] else []) + (["missing"] if any(None in r for r in c["rows"]) else []) + (["nt"] if len(ref) > 2 and (len(marg) > 1 or c["init"]) else [])


# ------------------------------------------------------------ limits and errors
@st.composite
def lim_c(draw):
    c = draw(rake_c().filter(lambda c: c["k"] < 7))
    c["wrong"] = draw(st.sampled_from(["iter", "iter", "iter", "tol", "tol", "margin", "init", "contrast", "blank", "count", "null", "countcol", "zero"]))
    c["it_n"] = draw(st.integers(1, 4))
    c["t"] = draw(st.sampled_from([.5, 1e-2, 1e-4]))
    return c


def run_lim(c):
    T, marg, init, zero, it, ic, order = setup(c)
    total = float(sum(T.values()))
    if not total or not sum(init.values()):
        return ["empty"]
    before = state()
    w = c["wrong"]
    if w in ("iter", "tol"):
        o = call(c, it, ic, order, c["it_n"] if w == "iter" else 0, 1e-9 if w == "iter" else c["t"])
        eq(state(), before, "the database after raking")
        x0 = sum(init.values())
        start = {p: v * total / x0 for p, v in init.items()}
        d = dump(o)
        pos = [d["n"]["c"].index(NAMES[i]) for i in range(c["k"])]
        got = {tuple(None if r[p] != r[p] else r[p] for p in pos): v for r, v in zip(d["m"], d["w"])}
        off = max([abs(sum(got[p] for p in got if tuple(p[i] for i in key) == q) - v) for key, t in marg for q, v in t.items()] or [0])
        if w == "iter":
            ref, change, n = ipf(start, marg, c["it_n"])
            _, next_change, _ = ipf(start, marg, c["it_n"] + 1)
            for p in set(ref) | set(got):
                near(got.get(p, 0), ref.get(p, 0), "%i rounds for %s, contrasts %s: cell %s" % (c["it_n"], c["rows"], c["cons"], p), 1e-6, 1e-7 * total)
            if off > 1e-6 * total and change > 1e-6 * total:
                eq(L.ip_sh_error(o), ord("c"), "%i rounds for %s leave a margin %s off: error mark" % (c["it_n"], c["rows"], off))
                return ["stopped", "nt"]
            if next_change == 0 and change == 0 and off < 1e-6 * total:
                eq(L.ip_sh_error(o), 0, "error mark after converging")
                return ["converged", "nt"]
            return ["close"]
        final, change, n = ipf(start, marg, 400, 1e-12 * total)
        fits = all(abs(sum(final[p] for p in final if tuple(p[i] for i in key) == q) - v) < 1e-9 * total for key, t in marg for q, v in t.items())
        if not fits:
            return ["infeasible"]
        check(not L.ip_sh_error(o) , "error mark where the fit converges, tolerance %s", c["t"])
        check(off <= c["t"] * (1 + 1e-9) * 20, "with tolerance %s a margin is off by %s", c["t"], off)
        return ["tolerance", "nt"]
    names, cons = arr([NAMES[i] for i in order]), arr(["nosuch"] if w == "contrast" else [""] if w == "blank" else [NAMES[0]])
    z = {"zero": "no such (", None: None}.get(w)
    o = L.pspipisidsssd_sh_rake(None if w == "null" else "nosuch" if w == "margin" else "marg", C.addressof(names) if c["vars"] else None, c["k"] if c["vars"] else 0, C.addressof(cons), 0 if w == "count" else 1, z, 0, 0.0,
                                "nosuch" if w == "countcol" else "n" if c["count"] else None, "nosuch" if w == "init" else it if w != "countcol" else None, ic if w not in ("init", "countcol") else None, 0.0)
    check(o and L.ip_sh_error(o), "no error mark for wrong input (%s)", w)
    if w in ("margin", "init", "count", "null", "contrast"):
        eq(chr(L.ip_sh_error(o)), "i", "error mark for wrong input (%s)" % w)
    eq(state(), before, "the database after wrong input (%s)" % w)
    return [w, "nt"]


# ------------------------------------------------------------ threads
@st.composite
def thr_c(draw):
    n = draw(st.integers(2, 4))
    return {"t": [draw(table(2, draw(st.integers(2, 10)), st.integers(1, 9), st.integers(0, 3))) for _ in range(n)]}


def run_thr(c):
    L.i_sh_db_close()
    L.is_sh_db_open(None)
    for i, r in enumerate(c["t"]):
        make("m%i" % i, 2, r, True, "n", False)
    before = state()
    n = len(c["t"])
    out = (C.c_void_p * n)()
    cons = arr(["a", "b"])
    L.vippi_sh_rake_threads(n, C.addressof(out), C.addressof(cons), 2)
    eq(state(), before, "the database after raking in %i threads" % n)
    for i, rows in enumerate(c["t"]):
        check(out[i] and not L.ip_sh_error(out[i]), "error in thread %i", i)
        d = dump(out[i])
        tot = sum(r[2] for r in rows)
        m = lambda j, v: sum(r[2] for r in rows if r[j] == v)
        want = {(a, b): m(0, a) * m(1, b) / tot for a in {r[0] for r in rows} for b in {r[1] for r in rows}}
        got = {tuple(r): w for r, w in zip(d["m"], d["w"])}
        eq(sorted(got), sorted(want), "cells of the table raked in thread %i of %i" % (i, n))
        for p in want:
            near(got[p], want[p], "table %i of %i raked at once: cell %s" % (i, n, p), 1e-6, 1e-6)
    return ["nt"]


FACETS = [Facet("rake", lambda tier: rake_c(), run_rake, quick=500), Facet("limits", lambda tier: lim_c(), run_lim, quick=300), Facet("threads", lambda tier: thr_c(), run_thr, quick=100, threads=4)]
