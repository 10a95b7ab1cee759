"""Queries return what the database engine returns."""
import os, subprocess
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G
from props.C09 import strtod

RULE = ("Tables of up to 6 rows over integer, real, text and untyped columns with NULLs, infinities, marker strings and printf directives; queries from a grammar of columns, expressions, aliases, aggregates, "
        "conditions, orders, limits, groups and unions, with the row-name column in any position or absent; every form of result, each with right and wrong column specifications; histories of creating, filling, "
        "dropping, closing and reopening (in memory and on disk), with invalid statements in between; the plotting program in all its forms. Non-trivial: a result of at least two rows and two columns. Distinct by the whole case.")
ASSUMPTIONS = ["text that is not a number has no promised numeric value", "the engine's own text form of each value is the reference"]
NAN = float("nan")

COLS = ["k", "a", "b", "c", "d", "nm"]
cell = {"k": None, "a": st.one_of(st.integers(-9, 99), st.none()), "b": st.one_of(G.real, st.none(), st.sampled_from([1e300, 1 / 3, -0.5, 1e-7])),
        "c": st.one_of(st.none(), st.sampled_from(["x", "yy", "%s", "%d%n", "it's", "", "NaN", "nan", "NULL", "null", "X", "Na", "3", "-2.5", "caf\xe9", "NA", " 7", "1e3x"])),
        "d": st.one_of(st.none(), st.integers(-5, 5), st.sampled_from(["t", "12", "inf", 9e999, -9e999, 2.5])), "nm": st.one_of(st.none(), st.sampled_from(["r1", "r2", "%s", "", "Ro w", "r1", "7"]))}
item = st.one_of(st.sampled_from(COLS), st.sampled_from(COLS), st.sampled_from(["a+1", "b*2 as dbl", "a as nm", "c || 'z' as cz", "k*0.5", "null as nil", "1", "'%s' as pc", "*", "a, b", "count(*)", "max(b) as mb", "nm as Nm", "length(c)"]))


def lit(x):
    if x is None:
        return "NULL"
    if isinstance(x, str):
        return "'" + x.replace("'", "''") + "'"
    if isinstance(x, float) and x in (float("inf"), float("-inf")):
        return "9e999" if x > 0 else "-9e999"
    return repr(x)


@st.composite
def table(draw, n=(0, 6)):
    n = draw(G.size(*n))
    return [list(r) for r in zip(range(n), *[draw(G.vector(n, cell[c])) for c in COLS[1:]])]


@st.composite
def query(draw):
    items = draw(st.lists(item, min_size=1, max_size=5))
    agg = any("(" in i for i in items)
    q = "select %s from t" % ", ".join(items)
    w = draw(st.sampled_from(["", "", "", "where a > 3", "where b is not null", "where c = 'x' or k < 3", "where 1 = 2", "where nm like 'r%'", "where k % 2 = 0"]))
    q += " " + w
    if agg and draw(st.booleans()):
        q += " group by " + draw(st.sampled_from(["a", "c", "k % 2", "nm"]))
    u = draw(st.integers(0, 5))
    if u == 0 and "*" not in items:
        q += " union all select %s from t where k = 0" % ", ".join(items)
    q += " " + draw(st.sampled_from(["", "order by 1", "order by 1 desc", "limit 1", "limit 3", "order by 1 limit 2", "limit 0"]))
    return q


@st.composite
def one(draw):
    return {"rows": draw(table()), "q": draw(query()), "nc": draw(st.sampled_from(["", "nm", "nm", "NM", "row_names", "a", None])), "nan": draw(st.sampled_from(["NaN", "NaN", "NA", "x", "%d", "-", "1", ".", None])),
            "types": draw(st.text(alphabet="nvmtwmtMT", min_size=1, max_size=8)), "fit": draw(st.integers(0, 3)) > 0}


def fill(rows, tab="t"):
    eq(L.is_sh_query("create table %s(k integer, a integer, b real, c text, d, nm text)" % tab), 0, "result of creating a table")
    for r in rows:
        eq(L.is_sh_query("insert into %s values(%s)" % (tab, ", ".join(lit(x) for x in r))), 0, "result of an insertion")


def tonum(s, nan):
    """expected number (None: nothing promised)"""
    if s is None or s == "NULL" or (nan and lo(s) == lo(nan)):
        return NAN
    import re
    x = strtod(s)
    if x != x and lo(s.strip())[:3] != "nan":
        return None
    return x


def num_ok(got, s, nan):
    w = tonum(s, nan)
    return True if w is None else same(got, w)


def namecol(cols, nc):
    return next((i for i, c in enumerate(cols) if nc and lo(c) == lo(nc)), -1)


def check_data(D, ref, nc, nan, what):
    cols, rows = ref["cols"], ref["rows"]
    k = namecol(cols, nc)
    keep = [i for i in range(len(cols)) if i != k]
    if D is None:
        eq([], rows, "no data set, but the engine's rows, " + what)
        return
    eq(D["err"], "", "error flag " + what)
    check(len(rows) > 0, "a data set where the engine gives no rows, " + what)
    eq(D["n"]["c"], [cols[i] for i in keep], "column names " + what)
    if keep:
        ok = D["m"] is not None and len(D["m"]) == len(rows) and all(len(g) == len(keep) and all(num_ok(x, r[i], nan) for x, i in zip(g, keep)) for g, r in zip(D["m"], rows))
        if not ok:
            raise Bad("numbers %s: got %s, the engine's %s" % (what, short(D["m"]), short([[r[i] for i in keep] for r in rows])))
    if k >= 0:
        eq(len(D["n"]["r"]), len(rows), "number of row names " + what)
        for g, r in zip(D["n"]["r"], rows):
            check(g == r[k] or r[k] is None, "row name %r, the engine's %r, " + what.replace("%", "%%"), g, r[k])
    else:
        eq(D["n"]["r"], [], "row names " + what)


def check_text(D, ref, nc, nan, what):
    cols, rows = ref["cols"], ref["rows"]
    k = namecol(cols, nc)
    keep = [i for i in range(len(cols)) if i != k]
    if D is None:
        if keep:
            eq([], rows, "no data set, but the engine's rows, " + what)
        return
    eq(D["err"], "", "error flag " + what)
    if keep:
        eq(D["t"], [[(nan or "") if r[i] is None else r[i] for i in keep] for r in rows], "text " + what)
    eq(D["n"]["t"], [cols[i] for i in keep], "text names " + what)
    if k >= 0:
        eq(len(D["n"]["r"]), len(rows), "number of row names " + what)
        for g, r in zip(D["n"]["r"], rows):
            check(g == r[k] or r[k] is None, "row name %r, the engine's %r, " + what.replace("%", "%%"), g, r[k])
    else:
        eq(D["n"]["r"], [], "row names " + what)


def check_mixed(D, types, ref, what):
    cols, rows = ref["cols"], ref["rows"]
    if D is None:
        eq([], rows, "no data set, but the engine's rows, " + what)
        return
    if len(types) != len(cols):
        eq(D["err"], "d", "error flag, %d types for %d columns " % (len(types), len(cols)) + what)
        return
    eq(D["err"], "", "error flag " + what)
    ty = types.lower()
    col = lambda i: [r[i] for r in rows]
    for letter, got in (("v", D["v"]), ("w", D["w"])):
        ix = [i for i, t in enumerate(ty) if t == letter]
        if not ix:
            eq(got, None, letter + " " + what)
        elif len(ix) == 1:
            check(got is not None and len(got) == len(rows) and all(s == "NULL" or num_ok(g, s, "NaN") for g, s in zip(got, col(ix[0]))), letter + " %s, the engine's %s " + what.replace("%", "%%"), got, col(ix[0]))
            if letter == "v":
                eq(D["n"]["v"], cols[ix[0]], "vector name " + what)
    ix = [i for i, t in enumerate(ty) if t == "m"]
    if ix:
        check(D["m"] is not None and len(D["m"]) == len(rows) and all(len(g) == len(ix) and all(r[i] == "NULL" or num_ok(x, r[i], "NaN") for x, i in zip(g, ix)) for g, r in zip(D["m"], rows)), "matrix %s, the engine's %s " + what.replace("%", "%%"), D["m"], rows)
        eq(D["n"]["c"], [cols[i] for i in ix], "column names " + what)
    else:
        eq(D["m"], None, "matrix " + what)
    ix = [i for i, t in enumerate(ty) if t == "t"]
    if ix:
        eq(D["t"], [["NaN" if r[i] is None else r[i] for i in ix] for r in rows], "text " + what)
        eq(D["n"]["t"], [cols[i] for i in ix], "text names " + what)
    ix = [i for i, t in enumerate(ty) if t == "n"]
    if len(ix) == 1:
        eq(D["n"]["r"], ["NaN" if r[ix[0]] is None else r[ix[0]] for r in rows], "row names " + what)
    elif not ix:
        eq(D["n"]["r"], [], "row names " + what)


def set_opts(c):
    if c["nc"] is None:
        L.v_sh_name_column_null()
    else:
        L.vs_sh_opts_name_column(c["nc"])
    if c["nan"] is None:
        L.v_sh_nan_string_null()
    else:
        L.vs_sh_opts_nan_string(c["nan"])


def run_one(c):
    set_opts(c)
    nc, nan, q = c["nc"], c["nan"], c["q"]
    fill(c["rows"])
    ref = J(L.ss_sh_sql_text(q))
    what = "of %s" % q
    r = L.ps_sh_qdata(q)
    D = dump(r)
    if ref["err"]:
        check(D is not None and D["err"] == "q", "error flag of a wrong query, got %s " + what.replace("%", "%%"), D)
        free(r)
        D = dump(L.ps_sh_qtext(q))
        check(D is not None and D["err"] == "q", "error flag of a wrong text query, got %s", D)
        check(L.ds_sh_qfloat(q) != 0.5, "-")
        L.ps_sh_qvector(q)
        D = dump(L.pss_sh_mixed("m", q))
        check(D is not None and D["err"] == "q", "error flag of a wrong mixed query, got %s", D)
        return ["wrong"]
    check_data(D, ref, nc, nan, "(data) " + what)
    free(r)
    r = L.ps_sh_qtext(q)
    check_text(dump(r), ref, nc, nan, "(text) " + what)
    free(r)
    k = namecol(ref["cols"], nc)
    keep = [i for i in range(len(ref["cols"])) if i != k]
    v = L.ps_sh_qvector(q)
    g = dvec(v)
    if not ref["rows"] or not keep:
        eq(g, None, "vector " + what)
    else:
        check(g is not None and len(g) == len(ref["rows"]) and all(num_ok(x, r[keep[0]], nan) for x, r in zip(g, ref["rows"])), "vector %s, the engine's %s " + what.replace("%", "%%"), g, ref["rows"])
    x = L.ds_sh_qfloat(q)
    if not ref["rows"] or not keep:
        eq(x, NAN, "float " + what)
    else:
        check(num_ok(x, ref["rows"][0][keep[0]], nan), "float %s, the engine's %s " + what.replace("%", "%%"), x, ref["rows"][0][keep[0]])
    types = c["types"]
    if c["fit"]:
        types = (types * 9)[:len(ref["cols"])]
    r = L.pss_sh_mixed(types, q)
    check_mixed(dump(r), types, ref, "(mixed %s) " % types + what)
    free(r)
    # nothing changed in the tables
    eq(len(J(L.ss_sh_sql("select * from t"))["rows"]), len(c["rows"]), "rows in the table afterwards")
    return ["nt" if len(ref["rows"]) > 1 and len(ref["cols"]) > 1 else "small"] + (["none"] if not ref["rows"] else []) + (["namecol"] if k >= 0 else [])


# ------------------------------------------------------------------ queries as formats
def run_fmt(c):
    set_opts(dict(c, nc=""))
    fill(c["rows"])
    for k in range(len(c["rows"])):
        ref = J(L.ss_sh_sql_text("select b from t where k = %d" % k))
        check(num_ok(L.dssid_sh_qfloat_fmt("b", "t", k, c["x"]), ref["rows"][0][0], c["nan"]), "float by format")
    for k in (0, 1, 3):
        ref = J(L.ss_sh_sql_text("select * from t where k >= %d" % k))
        r = L.psi_sh_qdata_fmt("t", k)
        check_data(dump(r), ref, "", c["nan"], "(data by format)")
        free(r)
        r = L.psi_sh_qtext_fmt("t", k)
        check_text(dump(r), ref, "", c["nan"], "(text by format)")
        free(r)
        r = L.pssi_sh_mixed_fmt("mmmttn", "t", k)
        check_mixed(dump(r), "mmmttn", ref, "(mixed by format)")
        free(r)
        g = dvec(L.psi_sh_qvector_fmt("t", k))
        if ref["rows"]:
            eq(g, [float(r[0]) for r in ref["rows"]], "vector by format")
        else:
            eq(g, None, "vector by format")
    L.is_sh_query("create table u(k, s)")
    s = "x" * c["long"]
    eq(L.isis_sh_query_fmt("u", 5, s), 0, "insertion by format")
    eq(J(L.ss_sh_sql("select k, s from u"))["rows"], [[5, s]], "row inserted by format")
    return ["nt"] if len(c["rows"]) > 1 else []


# ------------------------------------------------------------------ histories
TABS = ["t", "u", "v", "T2", "with_underscore"]
op = st.one_of(st.tuples(st.just("create"), st.sampled_from(TABS), st.lists(st.integers(-9, 99), max_size=4)), st.tuples(st.just("insert"), st.sampled_from(TABS), st.integers(-9, 99)),
               st.tuples(st.just("exists"), st.sampled_from(TABS + ["nothing"]), st.sampled_from(["", "n", "d", "d", "\1"])), st.tuples(st.just("view"), st.sampled_from(TABS), st.sampled_from(TABS)),
               st.tuples(st.just("bad"), st.sampled_from(["selec", "select * from nowhere", "insert into nowhere values(1)", "select nosuch from t", "'", "create table"])),
               st.tuples(st.just("close"), st.sampled_from(["", "q", "v", "\1"])), st.tuples(st.just("read"), st.sampled_from(TABS)), st.tuples(st.just("drop"), st.sampled_from(TABS)),
               st.tuples(st.just("empty"), st.sampled_from(TABS)))


@st.composite
def hist(draw):
    return {"disk": draw(st.booleans()), "ops": draw(st.lists(op, min_size=1, max_size=16)), "open": draw(st.booleans())}


def run_hist(c):
    import sqlite3
    f = "hist.db"
    for x in (f, f + "-journal"):
        if os.path.exists(x):
            os.unlink(x)
    model = {}
    views = {}

    def opened():
        if not L.i_sh_db_is_open():
            if c["disk"] or c["open"]:
                eq(L.is_sh_db_open(f if c["disk"] else None), 0, "result of opening")
                L.is_sh_query("pragma synchronous=off")
    valof = lambda t: model.get(t) if t in model else (model.get(views[t]) if views.get(t) in model else None)
    for o in c["ops"]:
        o = list(o)
        opened()
        if o[0] == "create":
            r = L.is_sh_query("create table %s(a)" % o[1])
            clash = any(lo(o[1]) == lo(x) for x in list(model) + list(views))
            eq(bool(r), clash, "failure of %s" % o)
            if not clash:
                model[o[1]] = []
                for x in o[2]:
                    eq(L.is_sh_query("insert into %s values(%d)" % (o[1], x)), 0, "insertion")
                    model[o[1]].append(float(x))
        elif o[0] == "insert":
            r = L.is_sh_query("insert into %s values(%d)" % (o[1], o[2]))
            eq(bool(r), o[1] not in model, "failure of %s" % o)
            if o[1] in model:
                model[o[1]].append(float(o[2]))
        elif o[0] == "drop":
            eq(bool(L.is_sh_query("drop table %s" % o[1])), o[1] not in model, "failure of %s" % o)
            model.pop(o[1], None)
        elif o[0] == "exists":
            r = L.isc_sh_table_exists(o[1], o[2] or "\0")
            eq(r, int(o[1] in model or o[1] in views), "existence of %s" % o[1])
            if o[2] in ("d", "\1"):
                model.pop(o[1], None)
                views.pop(o[1], None)
        elif o[0] == "view":
            if not any(lo(o[1]) == lo(x) for x in list(model) + list(views)) and o[2] in model:
                eq(L.is_sh_query("create view %s as select * from %s" % (o[1], o[2])), 0, "creating a view")
                views[o[1]] = o[2]
        elif o[0] == "bad":
            r = L.is_sh_query(o[1])
            if o[1] != "select nosuch from t":
                eq(bool(r), True, "failure of %r" % o[1])
            D = dump(L.ps_sh_qdata(o[1]))
            if not (o[1].startswith("select") and "t" in model):
                check(D and D["err"] == "q", "error flag for %r: %s", o[1], D)
            eq(L.ds_sh_qfloat(o[1]), NAN, "float for %r" % o[1])
            L.ps_sh_qvector(o[1])
        elif o[0] == "close":
            eq(L.ic_sh_db_closev(o[1] or "\0"), 0, "result of closing")
            eq(L.i_sh_db_is_open(), 0, "still open")
            if not c["disk"]:
                model, views = {}, {}
            else:
                con = sqlite3.connect(f)
                got = {n: [r[0] for r in con.execute("select a from " + n)] for (n,) in con.execute("select name from sqlite_master where type='table'")}
                con.close()
                eq(got, model, "tables on disk after closing")
        elif o[0] == "empty":
            if o[1] in model:
                L.is_sh_query("delete from " + o[1])
                model[o[1]] = []
        want = None if valof(o[1]) is None else list(valof(o[1]))
        if o[0] in ("read", "create", "insert", "exists", "view"):
            r = L.ps_sh_qdata("select * from " + o[1])
            D = dump(r)
            if want is None:
                check(D and D["err"] == "q", "error flag for a table that is not there: %s", D)
            elif not want:
                eq(D, None, "an empty table")
            else:
                eq([x[0] for x in D["m"]], want, "contents of " + o[1])
                eq(dvec(L.ps_sh_qvector("select * from " + o[1])), want, "vector of " + o[1])
                eq(L.ds_sh_qfloat("select sum(a) from " + o[1]), sum(want), "sum of " + o[1])
            free(r)
    L.i_sh_db_close()
    return ["nt"] if len(c["ops"]) > 5 else []


# ------------------------------------------------------------ the plotting program
@st.composite
def plot_c(draw):
    kind = draw(st.sampled_from(["n", "plot", "plot", "hist", "hist"]))
    rows = draw(table(n=(2, 9)))
    if kind == "hist":
        vals = draw(st.lists(st.one_of(st.integers(-40, 40), st.integers(-9, 9)).map(lambda x: x / 4), min_size=3, max_size=12))
        rows = [[i, None, v, None, None, None] for i, v in enumerate(vals)]
        q = "select b, k from t"
    else:
        q = draw(query())
        if "'" in q and "%" in q:
            q = "select a, b, k from t"
    return {"rows": rows, "q": q, "kind": kind, "bins": draw(st.sampled_from([0, 1, 3, 10])), "type": draw(st.sampled_from([None, "points", "boxes linetype 3", "%s"])),
            "out": draw(st.sampled_from(["-", "o.txt"])), "form": draw(st.sampled_from(["args", "-q", "-Q", "-d"])), "nl": draw(st.booleans())}


def run_plot(c):
    for f in ("x.db", "o.txt", "w.txt"):
        if os.path.exists(f):
            os.unlink(f)
    L.is_sh_db_open("x.db")
    L.is_sh_query("pragma synchronous=off")
    L.is_sh_query("create table t(k integer, a integer, b real, c text, d, nm text)")
    for r in c["rows"]:
        L.is_sh_query("insert into t values(%s)" % ", ".join(lit(v) for v in r))
    r = L.ps_sh_qdata(c["q"])
    D = dump(r)
    bad = D is None or D["err"]
    if not bad:
        m = mk({"m": D["m"]}) if D["m"] else None
        if c["kind"] == "n":
            L.vpsc_sh_shown(r, "w.txt", "d")
        elif c["kind"] == "plot":
            if m:
                L.vpsc_sh_print_pipe(m, "w.txt", "w")
            else:
                open("w.txt", "w").write("NULL\n")
        else:
            v = mk({"v": [x[0] for x in D["m"]]})
            b = L.pppic_sh_to_bins(v, None, c["bins"], "y")
            L.pp_sh_compress(b)
            L.pp_sh_sort0(b)
            L.vpp_sh_set_more(b, None)
            L.vpsc_sh_print_pipe(b, "w.txt", "w")
    free(r)
    L.i_sh_db_close()
    args = [os.path.join(LIBDIR, "apop_plot_query")]
    if c["kind"] == "n":
        args += ["-n"]
    if c["kind"] == "hist":
        args += ["-H%d" % c["bins"]]
    if c["type"]:
        args += ["-t", c["type"]]
    args += ["-f", c["out"]]
    if c["form"] == "args":
        args += ["x.db", c["q"]]
    elif c["form"] == "-d":
        args += ["-d", "x.db", c["q"]]
    elif c["form"] == "-q":
        args += ["-d", "x.db", "-q", c["q"]]
    else:
        open("q.sql", "w").write(c["q"].replace(" ", "\n" if c["nl"] else " ") + ("\n" if c["nl"] else ""))
        args += ["-d", "x.db", "-Q", "q.sql"]
    p = subprocess.run(args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, env=dict(os.environ, LD_LIBRARY_PATH=LIBDIR))
    if bad:
        check(p.returncode == 2, "status %d for a query without result", p.returncode)
        return ["no result"]
    check(p.returncode == 0, "the program ended with status %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:].replace("%", "%%")))
    want = open("w.txt", "rb").read()
    got = p.stdout
    if c["kind"] != "n":
        head = ("set key off\t;\nplot '-' with impulses\n" if c["kind"] == "hist" else "plot '-' with %s\n" % (c["type"] or "lines")).encode()
        want = head + want + (b"e\n" if c["kind"] == "hist" else b"")
        if c["out"] != "-":
            eq(got, b"", "printed next to the output file")
            got = open("o.txt", "rb").read()
    if got != want:
        raise Bad("the program printed %r, the library %r" % (got.decode("latin1"), want.decode("latin1")))
    return ["nt", c["kind"]] if len(c["rows"]) > 2 else []


FACETS = [Facet("forms", lambda t: one(), run_one, quick=6000),
          Facet("large forms", lambda t: G.large(one), run_one, quick=160),
          Facet("format", lambda t: st.builds(lambda r, n, x, l: {"rows": r, "nan": n, "nc": "", "x": x, "long": l}, table(n=(0, 4)), st.sampled_from(["NaN", "NA"]), G.small, st.sampled_from([0, 3, 90, 5000])), run_fmt, quick=600),
          Facet("history", lambda t: hist(), run_hist, quick=2000),
          Facet("plot", lambda t: plot_c(), run_plot, quick=240)]
