"""Data sets survive a trip through the database."""
import os, subprocess
from hypothesis import strategies as st
from engine import Facet, Bad
import ap
from ap import *
import gens as G

RULE = ("Data sets over every combination of vector, matrix, text, weights and (odd) names, with missing and infinite numbers, written once or twice (appended or written over) with and without a row-name column, "
        "then read straight from the engine and by the library's own queries; data sets of more than 999 columns; sets of (row, column, value) triples, with repeats, NULLs, and text, integer or real categories, "
        "cross-tabulated by value or aggregate and turned back; the crosstab program. Non-trivial: at least two rows with two different parts (crosstabs: at least two row and two column categories). Distinct by the whole case.")
ASSUMPTIONS = ["a blank text cell is missing, and missing text reads back as the missing-value marker", "column names are distinct ignoring case, as SQL needs", "the row-name column's name is not a column of the data",
               "queries give numbers to the 15 digits SQLite prints"]
NAN = float("nan")


def sql(q):
    r = J(L.ss_sh_sql(q))
    eq(r["err"], None, "engine's answer to " + q)
    return r


NM = ["alpha", "b b", "C.c", "d-1", "select", "x1", "Group", "caf\xe9", "it's", "50%", "%s", "from"]


@st.composite
def uniq(draw, n, pre=""):
    more = ["%s%d" % (NM[i % len(NM)], i) for i in range(len(NM), n)]
    return [pre + x for x in draw(st.permutations(NM))[:n] + more]


@st.composite
def dset(draw, colct=(0, 4)):
    e = st.one_of(G.small, G.real, st.integers(-10**14, 10**14).map(float), st.sampled_from([NAN, float("inf"), float("-inf"), 1 / 3, 1e-300, 1e300, 0.1]))
    d = draw(G.data(rows=(1, 5), cols=colct, names=False, e=e, text=(0, 3)))
    if d.get("w") and draw(st.booleans()):
        d["w"] = draw(G.vector(len(d["w"]), e))
    n = max(len(d.get(k) or []) for k in "vmt")
    if d.get("m") and draw(st.booleans()):
        d["cn"] = draw(uniq(len(d["m"][0]), "c"))
    if d.get("t") and draw(st.booleans()):
        d["tn"] = draw(uniq(len(d["t"][0]), "t"))
    if d.get("v") is not None and draw(st.booleans()):
        d["vn"] = "v" + draw(st.sampled_from(NM))
    if draw(st.booleans()):
        d["rn"] = draw(G.vector(n, G.words))
    return d


@st.composite
def trip(draw):
    d = draw(dset())
    return {"d": d, "second": draw(st.sampled_from([None, "a", "w"])), "nc": draw(st.sampled_from(["", "row_names", "id"])), "nan": draw(st.sampled_from(["NaN", "NaN", "NA", "."])),
            "uneven": draw(st.sampled_from([None, None, None, "v", "t", "w", "rn"]))}


def cells(d, nc, nan):
    """the expected table: column names (None if the library chooses) and rows"""
    n = max([len(d.get(k) or []) for k in "vmt"])
    cols, rows = [], [[] for _ in range(n)]

    def add(name, xs):
        cols.append(name)
        xs = list(xs) + [None] * (n - len(xs))
        for r, x in zip(rows, xs):
            r.append(x)
    num = lambda x: None if x != x else x
    tx = lambda s: None if s is None or s == "" or lo(s) == lo(nan) else s
    if nc and d.get("rn"):
        add(nc, [s if s != "" else None for s in d["rn"][:n]])
    if d.get("v"):
        add(d.get("vn"), [num(x) for x in d["v"]])
    for j in range(len(d["m"][0]) if d.get("m") else 0):
        add(d["cn"][j] if d.get("cn") else None, [num(r[j]) for r in d["m"]])
    for j in range(len(d["t"][0]) if d.get("t") else 0):
        add(d["tn"][j] if d.get("tn") else None, [tx(r[j]) for r in d["t"]])
    if d.get("w"):
        add("weights", [num(x) for x in d["w"]])
    return cols, rows


def cmp_table(D, cols, rows, what):
    eq(len(D["cols"]), len(cols), "number of columns " + what)
    for a, b in zip(D["cols"], cols):
        if b is not None:
            eq(a, b, "column name " + what)
    if not (len(D["rows"]) == len(rows) and all(len(g) == len(w) and all(same(x, y) and isinstance(x, str) == isinstance(y, str) for x, y in zip(g, w)) for g, w in zip(D["rows"], rows))):
        raise Bad("rows %s: got %s, expected %s" % (what, short(D["rows"]), short(rows)))


def run_trip(c):
    d = dict(c["d"])
    L.vs_sh_opts_name_column(c["nc"])
    L.vs_sh_opts_nan_string(c["nan"])
    u = c["uneven"]
    full = max(len(d.get(k) or []) for k in "vmt")
    if u and d.get(u) and len(d[u]) > 1 and (u in ("w", "rn") or sum(1 for k in "vmt" if d.get(k)) > 1):
        d[u] = d[u][:-1]
    else:
        u = None
    p = mk(d)
    A = dump(p)
    cols, rows = cells(d, c["nc"], c["nan"])
    L.vpsc_sh_print_db(p, "tab", "w")
    cmp_table(sql("select * from tab"), cols, rows, "written")
    if c["second"]:
        L.vpsc_sh_print_db(p, "tab", c["second"])
        if c["second"] == "a":
            rows = rows * 2
        cmp_table(sql("select * from tab"), cols, rows, "after a second writing (%s)" % c["second"])
    eq(dump(p), A, "data set after it was written")
    # the library's own reading
    n = len(rows)
    rn = bool(c["nc"] and d.get("rn"))
    types = ("n" if rn else "") + ("v" if d.get("v") else "") + "m" * (len(d["m"][0]) if d.get("m") else 0) + "t" * (len(d["t"][0]) if d.get("t") else 0) + ("w" if d.get("w") else "")
    q = L.pss_sh_mixed(types, "select * from tab")
    D = dump(q)
    eq(D["err"], "", "error flag of the query")
    k = 0
    col = lambda: [r[k] for r in rows]
    fl = lambda xs: [NAN if x is None else x for x in xs]
    if rn:
        eq(D["n"]["r"], [x if x is not None else "NaN" for x in col()], "row names queried")
        k += 1
    if d.get("v"):
        near(D["v"], fl(col()), "vector queried", rel=1e-14, ab=0)
        if d.get("vn"):
            eq(D["n"]["v"], d["vn"], "vector name queried")
        k += 1
    if d.get("m"):
        for j in range(len(d["m"][0])):
            near([r[j] for r in D["m"]], fl(col()), "matrix queried", rel=1e-14, ab=0)
            k += 1
        if d.get("cn"):
            eq(D["n"]["c"], d["cn"], "column names queried")
    if d.get("t"):
        for j in range(len(d["t"][0])):
            eq([r[j] for r in D["t"]], [x if x is not None else "NaN" for x in col()], "text queried")
            k += 1
        if d.get("tn"):
            eq(D["n"]["t"], d["tn"], "text names queried")
    if d.get("w"):
        near(D["w"], fl(col()), "weights queried", rel=1e-14, ab=0)
    free(q)
    if not d.get("t"):
        q = L.ps_sh_qdata("select * from tab")
        D = dump(q)
        k = int(rn)
        if D["m"]:
            near(D["m"], [fl(r[k:]) for r in rows], "query_to_data", rel=1e-14, ab=0)
        if rn and None not in [r[0] for r in rows]:
            eq(D["n"]["r"], [r[0] for r in rows], "row names of query_to_data")
        free(q)
    if not any(d.get(x) for x in "vmw"):
        q = L.ps_sh_qtext("select * from tab")
        D = dump(q)
        eq(D["t"], [[x if x is not None else c["nan"] for x in r[int(rn):]] for r in rows], "query_to_text")
        free(q)
    free(p)
    # a matrix or a vector on its own
    if d.get("m"):
        m = mat(d["m"])
        L.vpsc_sh_print_db_matrix(m, "mtab", "w")
        near([fl(r) for r in sql("select * from mtab")["rows"]], d["m"], "matrix written", rel=0, ab=0)
        L.vp_sh_matrix_free(m)
    if d.get("v"):
        v = vec(d["v"])
        L.vpsc_sh_print_db_vector(v, "vtab", "w")
        g = [x for r in sql("select * from vtab")["rows"] for x in r]
        near(fl(g), d["v"], "vector written", rel=0, ab=0)
        L.vp_sh_vector_free(v)
    return ["nt" if n > 1 and sum(1 for x in "vmtw" if d.get(x)) > 1 else "plain", "uneven" if u else "even"]


# ------------------------------------------------------------------ many columns
@st.composite
def wide(draw):
    d = draw(dset(colct=(0, 0)))
    n = max(len(d.get(k) or []) for k in "vt")
    nc = draw(st.sampled_from([990, 998, 999, 1000, 1001, 1010]))
    base = draw(st.lists(st.one_of(G.real, st.sampled_from([NAN, float("inf"), 1 / 3, 1e300])), min_size=7, max_size=7))
    word = st.sampled_from(["ab", "it's", 'q"x', "", "NaN", "a b", "x%sy", "back\\"])
    if d.get("t"):
        d["t"] = [[draw(word) for _ in r] for r in d["t"]]
    if d.get("rn"):
        d["rn"] = [draw(word) for _ in d["rn"]]
    return {"d": d, "n": n, "nc": nc, "base": base, "namecol": draw(st.sampled_from(["", "row_names"])), "second": draw(st.booleans())}


def run_wide(c):
    d = dict(c["d"])
    d["m"] = [[c["base"][(i * 3 + j) % 7] for j in range(c["nc"])] for i in range(c["n"])]
    L.vs_sh_opts_name_column(c["namecol"])
    p = mk(d)
    L.vpsc_sh_print_db(p, "tab", "w")
    cols, rows = cells(d, c["namecol"], "NaN")
    if c["namecol"] and d.get("rn"):
        for r, s in zip(rows, d["rn"]):
            r[0] = r[0] if s != "NaN" else None
    if c["second"]:
        L.vpsc_sh_print_db(p, "tab", "a")
        rows = rows * 2
    D = sql("select * from tab")
    if c["namecol"] and d.get("rn"):
        for r in D["rows"]:
            r[0] = r[0] if r[0] != "NaN" else None
    cmp_table(D, cols, rows, "of %d columns" % len(cols))
    free(p)
    return ["nt"] if c["n"] > 1 else []


# ------------------------------------------------------------------ crosstabs
@st.composite
def tab(draw):
    ints = draw(st.sampled_from(["int", "text", "real", "odd"]))
    cat = {"int": st.integers(-3, 12), "text": st.sampled_from(["a", "b", "cc", "A", "B b", "z"]), "real": st.sampled_from([0.5, 1.25, -2.0, 10.0, 0.1]),
           "odd": st.sampled_from(["it's", "%s", "", "x,y", "\xe9t\xe9", "10", "9", "r0"])}
    ca, cb = cat[ints], cat[draw(st.sampled_from(["int", "text", "text", "odd"]))]
    val = st.one_of(st.integers(-5, 50), st.integers(-5, 50), st.floats(-1e6, 1e6), st.sampled_from([None, 1e15, 1 / 3]))
    n = draw(st.integers(1, 12))
    rows = [[draw(ca), draw(cb), draw(val)] for _ in range(n)]
    if draw(st.booleans()):
        seen = set()
        rows = [r for r in rows if not ((repr(r[0]), repr(r[1])) in seen or seen.add((repr(r[0]), repr(r[1]))))]
    return {"rows": rows, "how": draw(st.sampled_from(["value", "value", "count", "sum(z)", "max(z)", "avg(z)"])), "rc": draw(st.sampled_from(["xy", "xy", "xy", "x", "y", ""])),
            "nan": draw(st.sampled_from(["NaN", "NaN", "NA"])), "nc": draw(st.sampled_from(["", "row_names", "x", "y"])), "agg": draw(st.booleans()), "null": draw(st.integers(0, 4)) == 0}


def lit(x):
    return "NULL" if x is None else repr(x) if not isinstance(x, str) else "'" + x.replace("'", "''") + "'"


def run_tab(c):
    L.i_sh_db_close()
    L.is_sh_db_open(None)
    L.vs_sh_opts_name_column(c["nc"])
    L.vs_sh_opts_nan_string(c["nan"])
    L.is_sh_query("create table t(x, y, z numeric)")
    rows = [list(r) for r in c["rows"]]
    if c["null"]:
        rows[-1][0] = None
    for r in rows:
        L.is_sh_query("insert into t values(%s)" % ", ".join(lit(x) for x in r))
    x, y = ("x" if "x" in c["rc"] else None), ("y" if "y" in c["rc"] else None)
    how = c["how"]
    agg = how != "value"
    if not agg and (not x or not y):
        how, agg = "sum(z)", True
    data = {"value": "z", "count": None}.get(how, how)
    flag = ("y" if agg else "n") if c["agg"] else "\0"
    r = L.pssssc_sh_crosstab("t", x, y, data, flag)
    D = dump(r)
    eq(L.s_sh_opts_get_name_column(), c["nc"], "row-name column setting afterwards")
    eq(D["err"], "", "error flag")
    txt = lambda q: J(L.ss_sh_sql_text(q))["rows"]
    nn = lambda s: c["nan"] if s is None else s
    X, Y = x or "1", y or "1"
    want_r = [nn(a[0]) for a in txt("select distinct %s from t order by %s" % (X, X))]
    want_c = [nn(a[0]) for a in txt("select distinct %s from t order by %s" % (Y, Y))]
    if len(set(want_r)) < len(want_r) or len(set(want_c)) < len(want_c):
        free(r)
        return ["same-text"]
    eq(D["n"]["r"], want_r, "row names")
    eq(D["n"]["c"], want_c, "column names")
    M = [[0.0] * len(want_c) for _ in want_r]
    q = "select %s, %s, %s from t" % (X, Y, data or "count(*)")
    for a, b, v in txt(q + (" group by %s, %s" % (X, Y) if agg else "")):
        M[want_r.index(nn(a))][want_c.index(nn(b))] = NAN if v is None else float(v)
    near(D["m"], M, "crosstab of %s by %s, %s" % (data, x, y), rel=1e-14, ab=0)
    # and back again
    L.vpssss_apop_crosstab_to_db(r, "back", "rr", "cc", "vv")
    eq(dump(r), D, "crosstab after it was written")
    T = txt("select rr, cc from back")
    V = [a[0] for a in sql("select vv from back")["rows"]]
    want = [[a, b, None if v != v else v] for a, rw in zip(want_r, M) for b, v in zip(want_c, rw)]
    eq([a + [v if v is not None else None] for a, v in zip(T, V)], [[a, b, v] for a, b, v in want], "triples from the crosstab")
    r2 = L.pssssc_sh_crosstab("back", "rr", "cc", "vv", "\0")
    D2 = dump(r2)
    for i, a in enumerate(want_r):
        for j, b in enumerate(want_c):
            near(D2["m"][D2["n"]["r"].index(a)][D2["n"]["c"].index(b)], M[i][j], "cell (%s, %s) of the crosstab of the triples" % (a, b), rel=1e-14, ab=0)
    eq(sorted(D2["n"]["r"]), sorted(want_r), "rows of the crosstab of the triples")
    eq(sorted(D2["n"]["c"]), sorted(want_c), "columns of the crosstab of the triples")
    free(r), free(r2)
    # an empty table, and one that is not there
    r = L.pssssc_sh_crosstab("(select * from t where 1=2)", x or "x", y or "y", "z", "n")
    eq(r, None, "crosstab of an empty table")
    eq(L.s_sh_opts_get_name_column(), c["nc"], "row-name column setting after an empty table")
    r = L.pssssc_sh_crosstab("no_such_table", "a", "b", None, "\0")
    D = dump(r)
    check(D is None or D["err"], "no error for a table that is not there: %s", D)
    eq(L.s_sh_opts_get_name_column(), c["nc"], "row-name column setting after a failed query")
    free(r)
    return ["nt"] if len(want_r) > 1 and len(want_c) > 1 else []


@st.composite
def ctab(draw):
    d = draw(dset(colct=(0, 12)))
    if draw(st.integers(0, 3)) == 0 and d.get("m"):
        d["m"] = d["m"] * 4
        d.pop("rn", None), d.pop("t", None), d.pop("v", None), d.pop("w", None), d.pop("tn", None)
    d.pop("v", None), d.pop("vn", None)
    if d.get("cn"):
        d["cn"] = d["cn"][:draw(st.integers(0, len(d["cn"])))]
    if d.get("rn"):
        d["rn"] = [s + str(i) for i, s in enumerate(d["rn"])][:draw(st.integers(0, len(d["rn"])))]
    return {"d": d}


def run_ctab(c):
    d = c["d"]
    if not d.get("m") and not d.get("t"):
        return []
    p = mk(d)
    A = dump(p)
    L.vpssss_apop_crosstab_to_db(p, "ct", "r", "c", "val")
    eq(dump(p), A, "data set after it was written")
    want = []
    rn = lambda i: (d.get("rn") or [])[i] if i < len(d.get("rn") or []) else "r%d" % i
    for i, r in enumerate(d.get("m") or []):
        for j, v in enumerate(r):
            want.append([rn(i), d["cn"][j] if j < len(d.get("cn") or []) else "c%d" % j, None if v != v else v])
    import props.C10 as C10
    for i, r in enumerate(d.get("t") or []):
        for j, s in enumerate(r):
            v = C10.num(s)
            want.append([rn(i), d["tn"][j] if j < len(d.get("tn") or []) else "t%d" % j, s if v is None else v])
    eq(sql("select * from ct")["rows"], want, "triples written")
    free(p)
    return ["nt"] if len(want) > 3 else []


def run_prog(c):
    for f in ("x.db",):
        if os.path.exists(f):
            os.unlink(f)
    L.is_sh_db_open("x.db")
    L.is_sh_query("pragma synchronous=off")
    L.is_sh_query("create table t(x, y, z numeric)")
    for r in c["rows"]:
        L.is_sh_query("insert into t values(%s)" % ", ".join(lit(v) for v in r))
    x = {"xy": ["x", "y"], "x": ["x"], "": [], "y": ["1", "y"]}[c["rc"]]
    data = None
    if len(x) == 2 and c["how"] != "count":
        data = c["how"] if c["how"] != "value" else "max(z)"
    r = L.pssssc_sh_crosstab("t", x[0] if x else None, x[1] if len(x) > 1 else None, data, "\0")
    delim = "|" if c["agg"] else None
    L.vss_sh_opts_delims(None, delim or "\t")
    L.vpsc_sh_print_name(r, "want.txt", "w")
    L.i_sh_db_close()
    exe = os.path.join(ap.LIBDIR, "apop_db_to_crosstab")
    args = [exe] + (["-d" + delim] if delim else []) + ["x.db", "t"] + x + ([data] if data else [])
    p = subprocess.run(args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, env=dict(os.environ, LD_LIBRARY_PATH=ap.LIBDIR))
    check(p.returncode == 0, "the program ended with status %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:]))
    want = open("want.txt", "rb").read()
    if p.stdout != want:
        raise Bad("the program printed %r, the library %r" % (p.stdout.decode("latin1"), want.decode("latin1")))
    free(r)
    return ["nt"] if len(c["rows"]) > 2 and len(x) == 2 else []


FACETS = [Facet("round", lambda t: trip(), run_trip, quick=4000),
          Facet("large round", lambda t: G.large(trip), run_trip, quick=60),
          Facet("wide", lambda t: wide(), run_wide, quick=160),
          Facet("crosstab", lambda t: tab(), run_tab, quick=2400),
          Facet("to_db", lambda t: ctab(), run_ctab, quick=1200),
          Facet("program", lambda t: tab().filter(lambda c: all(r[2] is None or abs(r[2]) < 1e7 for r in c["rows"])), run_prog, quick=160)]
