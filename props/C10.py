"""A text file read into the database holds the file's cells."""
import os, subprocess, sqlite3
from hypothesis import strategies as st
from engine import Facet, Bad
import ap
from ap import *
import gens as G
import textfile as T
import props.C09 as C09

RULE = ("Files built from known cells (numbers, text with quotes, delimiters and newlines, missing-value markers) in every rendering, with and without headers and row names, with given names, column types and "
        "table constraints; histories of two loads into one table under the four modes; files of more than 999 columns; fixed-width files; token soups compared with a plain splitter; the command-line loader "
        "with each of its options, against a database file, and with fixed field widths; tables named after their files. Non-trivial: at least two lines and two fields and one text, quoted or missing cell (histories: a table that existed). Distinct by the whole case.")
ASSUMPTIONS = ["the table holds what SQLite's column affinity makes of each field", "the missing-value marker is matched in whole, ignoring case"]


def put(s, name="in.txt"):
    with open(name, "wb") as f:
        f.write(enc(s))


def sql(q):
    return J(L.ss_sh_sql(q))


def num(s):
    """the number SQLite's numeric affinity makes of a string, or None"""
    t = s.strip(" \t\n\r\v\f")
    if not t or any(c not in "0123456789+-.eE" for c in t):
        return None
    try:
        return float(t)
    except ValueError:
        return None


def want_cell(s, nan, affinity=True):
    if s is None or s == "" or (nan and lo(s) == lo(nan)):
        return None
    if affinity:
        try:
            x = float(s) if not any(c in s for c in "_") else None
        except ValueError:
            x = None
        if x is not None and s.strip() == s:
            return None if x != x else x
        x = num(s)
        if x is not None:
            return x
    return s


def cmp_rows(got, want, what):
    ok = len(got) == len(want) and all(len(a) == len(b) for a, b in zip(got, want))
    if ok:
        for a, b in zip(got, want):
            for x, y in zip(a, b):
                if isinstance(y, float) and isinstance(x, (int, float)):
                    ok = ok and close(float(x), y, 1e-14, 0)
                else:
                    ok = ok and type(x) is type(y) and x == y
    if not ok:
        raise Bad("%s: got %s, expected %s" % (what, short(got), short(want)))


def rows_of(c, nan):
    out = []
    for i, r in enumerate(c["cells"]):
        out.append(([want_cell(c["rn"][i], nan, False)] if c["hr"] else []) + [want_cell(x, nan) for x in r])
    return out


def load(f, tab, c, names=None, fp=None, tp=None, mode="n", ends=None):
    return L.issiiSIipssc_sh_text_to_db(
        f, tab, 1 if c["hr"] else ord("n"), ord("y") if c["hc"] else ord("n"), names, ends, len(ends) if ends else 0, fp, tp, c["delims"], mode)


# ------------------------------------------------------------------ one load
@st.composite
def one(draw):
    c = draw(T.textfile(kind="text"))
    nc = len(c["cells"][0])
    c["given"] = None
    if draw(st.integers(0, 3)) == 0 and not c["hc"]:
        c["given"] = ["g%d" % i for i in range(nc)]
    c["nan"] = draw(st.sampled_from(["NaN", "NaN", "NaN", "NA", ".", "bb", "-9", "%s"]))
    c["types"] = draw(st.sampled_from([None, None, [["0$", "text"]], [["1", "text"], [".*", "integer"]], [["zzz", "text"], ["[0-2]", "text not null"]]]))
    c["tp"] = draw(st.sampled_from([None, None, None, "unique(%s)" % "c0"]))
    return c


def col_names(c):
    nc = len(c["cells"][0])
    return (["row_names"] if c["hr"] else []) + (c["given"] or (c["cn"] if c["hc"] else ["col_%d" % i for i in range(nc)]))


def run_one(c):
    import re
    put(c["file"])
    L.vs_sh_opts_nan_string(c["nan"])
    fp = None
    if c["types"]:
        fp = mk({"t": c["types"]})
    names = c["given"] + [None] if c["given"] else None
    cols = col_names(c)
    aff = []
    for n in cols[int(c["hr"]):]:
        t = "numeric"
        for k, v in c["types"] or []:
            if re.search(k, n, re.I):
                t = v
                break
        aff.append(t)
    want = []
    skip = False
    for i, r in enumerate(c["cells"]):
        row = [want_cell(c["rn"][i], c["nan"], False)] if c["hr"] else []
        for x, t in zip(r, aff):
            w = want_cell(x, c["nan"], True)
            if t.startswith("text") and isinstance(w, float):
                w = {"inf": "9e9999999", "-inf": "-9e9999999"}.get(repr(w)) or ("0" + x if x[0] == "." else x)
            if w is None and "not null" in t:
                skip = True
            row.append(w)
        want.append(row)
    tp = None
    if c["tp"]:
        # the first column holds each value once
        k = int(c["hr"])
        tp = "unique('%s')" % cols[k]
        seen = [r[k] for r in want if r[k] is not None]
        if len(set(seen)) != len(seen):
            tp = None
    if skip:
        return []
    r = load("in.txt", "tab", c, names, fp, tp)
    eq(r, len(want), "rows reported for %r" % c["file"])
    D = sql("select * from tab")
    eq(D["err"], None, "reading the table back")
    eq(D["cols"], cols, "column names for %r" % c["file"])
    cmp_rows(D["rows"], want, "table read from %r, delimiters %r" % (c["file"], c["delims"]))
    if fp:
        eq(dump(fp)["t"], c["types"], "the type list")
    if tp and len(want) and want[0][int(c["hr"])] is not None:
        # the constraint is in force
        n0 = sql("select count(*) from tab")["rows"]
        L.is_sh_query("insert into tab select * from tab limit 1")
        eq(sql("select count(*) from tab")["rows"], n0, "rows after an insertion the table constraint forbids")
    return ["nt"] if len(want) > 1 and len(cols) > 1 and any(isinstance(x, (str, type(None))) for r in want for x in r[int(c["hr"]):]) else []


# ------------------------------------------------------------------ what is done with a table that exists
@st.composite
def two(draw):
    nc = draw(st.integers(1, 3))

    def part():
        n = draw(st.integers(1, 4))
        return [[draw(T.nums.filter(lambda s: s not in ("+4",))) for _ in range(nc)] for _ in range(n)]
    return {"nc": nc, "a": part(), "parts": [[draw(st.sampled_from("ndoa")), part(), draw(st.booleans())] for _ in range(draw(st.integers(1, 3)))], "hr": draw(st.booleans()),
            "wider": draw(st.booleans())}


def run_two(c):
    nc, hr = c["nc"], c["hr"]
    w = lambda rows, names: put("\n".join([",".join(names)] + [",".join((["r%d" % i] if hr else []) + r) for i, r in enumerate(rows)]) + "\n")
    cv = lambda rows: [(["r%d" % i] if hr else []) + [want_cell(x, "NaN") for x in r] for i, r in enumerate(rows)]
    cc = {"hr": hr, "hc": True, "delims": ","}
    names = ["x%d" % i for i in range(nc)]
    w(c["a"], names)
    eq(load("in.txt", "t", cc), len(c["a"]), "rows of the first load")
    model, cols = cv(c["a"]), names
    for mode, rows, other in c["parts"]:
        nn = ["y%d" % i for i in range(nc)] if other else names
        rr = [r + ["5"] for r in rows] if other and c["wider"] and mode == "o" else rows
        if len(rr[0]) > nc:
            nn = nn + ["extra"]
        elif mode != "o" and len(cols) > nc:
            continue
        w(rr, nn)
        r = load("in.txt", "t", cc, mode=mode)
        if mode == "n":
            eq(r, -1, "result of loading into a table that exists")
        else:
            eq(r, len(rows), "rows reported in mode " + mode)
            if mode == "o":
                model, cols = cv(rr), nn
            elif mode == "d":
                model = cv(rr)
            else:
                model = model + cv(rr)
        D = sql("select * from t")
        eq(D["cols"], (["row_names"] if hr else []) + cols, "columns after mode " + mode)
        cmp_rows(D["rows"], model, "table after mode " + mode)
        eq(sql("select name from sqlite_master")["rows"], [["t"]], "tables after mode " + mode)
    return ["nt"] + ["mode-" + p[0] for p in c["parts"]]


# ------------------------------------------------------------------ many columns
@st.composite
def wide(draw):
    nc = draw(st.integers(990, 1020))
    cell = st.sampled_from(["1", "2.5", "-3", "ab", "it's", 'q"x', "NaN", "", ".5", "inf", "a b", "x%sy", "%d", "end'"])
    picks = [[[draw(st.integers(0, nc - 1)), draw(cell)] for _ in range(draw(st.integers(0, 12)))] for _ in range(draw(st.integers(1, 3)))]
    return {"nc": nc, "picks": picks, "hr": draw(st.booleans()), "short": draw(st.sampled_from([0, 0, 0, 3]))}


def run_wide(c):
    nc = c["nc"]
    rows = []
    for p in c["picks"]:
        r = ["%d" % (i % 7) for i in range(nc)]
        for i, x in p:
            r[i] = x
        r[0] = "8"
        rows.append(r)
    q = lambda s: '"' + s.replace('"', '\\"') + '"' if ('"' in s or " " in s) else s
    lines = [",".join("c%d" % i for i in range(nc))]
    for i, r in enumerate(rows):
        rr = r
        if c["short"] and i:
            rr = r[:-c["short"]]
            for k in range(1, c["short"] + 1):
                r[-k] = ""
        lines.append(",".join((["row%d" % i] if c["hr"] else []) + [q(x) for x in rr]))
    put("\n".join(lines) + "\n")
    r = load("in.txt", "t", {"hr": c["hr"], "hc": True, "delims": ","})
    eq(r, len(rows), "rows reported, %d columns" % nc)
    D = sql("select * from t")
    want = [(["row%d" % i] if c["hr"] else []) + [want_cell(x, "NaN") for x in r] for i, r in enumerate(rows)]
    eq(len(D["rows"]), len(want), "rows in a table of %d columns" % nc)
    for g, w in zip(D["rows"], want):
        for i, (x, y) in enumerate(zip(g, w)):
            if not (x == y and (isinstance(x, str) == isinstance(y, str))):
                raise Bad("column %d of %d: got %r, expected %r" % (i, nc, x, y))
    return ["nt"]


# ------------------------------------------------------------------ any file content
@st.composite
def soup(draw):
    c = draw(C09.soup())
    d = (c["delims"] or ",")[0]
    c["delims"] = c["delims"] or ","
    n = draw(st.integers(2, 7))
    top = d.join("h%d" % i for i in range(n - int(c["hr"]))) + "\n" if c["hc"] else ""
    c["file"] = top + d.join(draw(st.sampled_from(["1", "ab", '"x"', "2.5", "q\\ r"])) for _ in range(n)) + "\n" + c["file"]
    return c


def run_soup(c):
    put(c["file"])
    lines = T.split(c["file"], c["delims"])
    k = int(c["hr"])
    hc = c["hc"]
    r = load("in.txt", "t", c)
    head = lines.pop(0) if hc and lines else None
    if not lines:
        eq(r, -1, "rows reported for a file without data %r" % c["file"])
        return []
    nc = len(lines[0])
    if nc - k < 1 and not head:
        eq(r, -1, "rows reported for a file whose lines have only a row name %r" % c["file"])
        return []
    cols = (["row_names"] if k else []) + (head if hc else ["col_%d" % i for i in range(nc - k)])
    if any("'" in x for x in cols) or len(set(lo(x) for x in cols)) < len(cols) or "\0" in "".join(cols) or len(cols) != nc:
        return ["name-clash"]
    if any(lo(x.strip())[:2] in ("0x", "na") for l in lines for x in l):
        return ["hex-or-nan"]
    if k and any(l[0][:1] == "." or "inf" in lo(l[0]) or "1e9999" in l[0] for l in lines):
        return ["number-for-a-row-name"]
    eq(r, len(lines), "rows reported for %r" % c["file"])
    D = sql("select * from t")
    eq(D["err"], None, "reading the table back")
    eq(D["cols"], cols, "columns for %r" % c["file"])
    want = []
    for l in lines:
        l = (l + [""] * (nc - len(l)))[:nc]      # fields beyond the last column are dropped
        want.append(([want_cell(l[0], "NaN", False)] if k else []) + [want_cell(x, "NaN") for x in l[k:]])
    cmp_rows(D["rows"], want, "table read from %r, delimiters %r" % (c["file"], c["delims"]))
    return ["nt"] if len(lines) > 1 and nc > 1 else []


# ------------------------------------------------------------------ fixed width
def run_fixed(c):
    put(c["file"])
    r = load("in.txt", "t", {"hr": c["hr"], "hc": c["hc"], "delims": ","}, ends=c["ends"],
             names=(["g%d" % i for i in range(len(c["ends"]) - int(c["hr"]))] + [None]) if c["hr"] or len(set(c["cn"] or [])) < len(c["cn"] or [0]) else None)
    rows = c["rows"]
    if (c["hr"] or len(set(c["cn"] or [])) < len(c["cn"] or [0])) and c["hc"]:
        return []
    eq(r, len(rows), "rows reported for fixed-width %r" % c["file"])
    D = sql("select * from t")
    k = int(c["hr"])

    def cell(x):
        return num(x) if num(x) is not None else x
    cmp_rows(D["rows"], [r[:k] + [cell(x) for x in r[k:]] for r in rows], "table read from fixed-width %r" % c["file"])
    return ["nt"] if len(rows) > 1 and len(c["ends"]) > 1 else []


# ------------------------------------------------------------------ the command-line program
@st.composite
def cmd(draw):
    c = draw(one())
    c["mode"] = draw(st.sampled_from([None, None, "n", "d", "o", "a"]))
    c["giveN"] = draw(st.integers(0, 2)) == 0 and not c["hc"]
    c["stdin"] = draw(st.integers(0, 3)) == 0
    if c["nan"][0] == "c" or c["nan"] == "%s":
        c["nan"] = "NA"
    return c


def run_cmd(c):
    put(c["file"])
    exe = os.path.join(ap.LIBDIR, "apop_text_to_db")
    for f in ("t.db",):
        if os.path.exists(f):
            os.unlink(f)
    nc = len(c["cells"][0])
    args = [exe]
    if c["delims"] != "|,\t":
        args += ["-d" + c["delims"]]
    given = ["n%d" % i for i in range(nc)] if c["giveN"] else None
    if given:
        args += ["-N" + ",".join(given)]
    if not c["hc"]:
        args += ["-nc"]
    if c["nan"] != "NaN":
        args += ["-n" + c["nan"]]
    if c["hr"]:
        args += ["-r"]
    if c["mode"]:
        args += ["-e" + c["mode"]]
    args += ["-" if c["stdin"] else "in.txt", "tab", "t.db"]
    want = rows_of(c, c["nan"])
    cols = (["row_names"] if c["hr"] else []) + (given or (c["cn"] if c["hc"] else ["col_%d" % i for i in range(nc)]))
    env = dict(os.environ, LD_LIBRARY_PATH=ap.LIBDIR)
    times = 1 + bool(c["mode"])
    for k in range(times):
        with open("in.txt") as si:
            p = subprocess.run(args, stdin=si, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, env=env)
        check(p.returncode == 0, "the program ended with status %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:]))
    if c["mode"] == "a":
        want = want * 2
    con = sqlite3.connect("t.db")
    con.text_factory = lambda b: b.decode("latin1")
    try:
        cur = con.execute("select * from tab")
        eq([d[0] for d in cur.description], cols, "columns in the database file")
        cmp_rows([list(r) for r in cur], want, "table loaded by %s from %r" % (args[1:], c["file"]))
    finally:
        con.close()
    return ["nt"] if len(want) > 1 else []


@st.composite
def cmdf(draw):
    c = draw(C09.fixed().filter(lambda c: not c["hc"] or not c["hr"] and len(set(c["cn"])) == len(c["cn"])))
    c["stdin"] = draw(st.booleans())
    c["sep"] = draw(st.sampled_from(["%d", "%d", " %d", "0%d"]))
    return c


def run_cmdf(c):
    put(c["file"])
    exe = os.path.join(ap.LIBDIR, "apop_text_to_db")
    if os.path.exists("t.db"):
        os.unlink("t.db")
    k, w = int(c["hr"]), len(c["ends"])
    names = ["g%d" % i for i in range(w - k)]
    args = [exe, "-f" + ",".join(c["sep"] % e for e in c["ends"])] + ([] if c["hc"] else ["-nc", "-N" + ",".join(names)]) + (["-r"] if c["hr"] else [])
    args += ["-" if c["stdin"] else "in.txt", "tab", "t.db"]
    env = dict(os.environ, LD_LIBRARY_PATH=ap.LIBDIR)
    with open("in.txt") as si:
        p = subprocess.run(args, stdin=si, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, env=env)
    check(p.returncode == 0, "the program ended with status %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:]))
    con = sqlite3.connect("t.db")
    con.text_factory = lambda b: b.decode("latin1")
    try:
        cur = con.execute("select * from tab")
        eq([d[0] for d in cur.description], (["row_names"] if k else []) + (c["cn"] if c["hc"] else names), "columns in the database file")
        cmp_rows([list(r) for r in cur], [r[:k] + [num(x) if num(x) is not None else x for x in r[k:]] for r in c["rows"]], "table loaded by %s from %r" % (args[1:], c["file"]))
    finally:
        con.close()
    return ["nt"] if len(c["rows"]) > 1 and w > 1 else []


# ------------------------------------------------------------------ the table named after the file
@st.composite
def dflt(draw):
    part = st.text("abcXYZ_019", min_size=1, max_size=12)
    base = draw(st.sampled_from(["T", "data", "x_"])) + draw(part)
    return {"dir": draw(st.sampled_from(["", "", "./", "sub/", "./sub/more.d/", "%abs%"])), "base": base, "ext": draw(st.sampled_from(["", ".csv", ".txt", ".tar.csv", ".", "..x"])),
            "rows": draw(st.lists(st.lists(st.integers(-9, 99), min_size=2, max_size=2), min_size=1, max_size=5)), "twice": draw(st.booleans())}


def run_dflt(c):
    name = c["dir"].replace("%abs%", os.getcwd() + "/") + c["base"] + c["ext"]
    os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
    with open(name, "w") as f:
        f.write("u,v\n" + "".join("%d,%d\n" % tuple(r) for r in c["rows"]))
    eq(L.is_sh_text_to_db0(name), len(c["rows"]), "rows reported for %s" % name)
    eq([lo(r[0]) for r in sql("select name from sqlite_master")["rows"]], [lo(c["base"])], "tables after loading %s" % name)
    D = sql("select * from %s" % c["base"])
    eq(D["cols"], ["u", "v"], "columns")
    eq(D["rows"], c["rows"], "rows of the table named after %s" % name)
    if c["twice"]:
        eq(L.is_sh_text_to_db0(name), -1, "result of loading it once more")
        eq(sql("select * from %s" % c["base"])["rows"], c["rows"], "rows then")
    return ["nt"] if c["dir"] or len(c["ext"]) > 1 else []


FACETS = [Facet("named", lambda t: dflt(), run_dflt, quick=160, thorough=3000),
          Facet("load", lambda t: one(), run_one, quick=4000),
          Facet("modes", lambda t: two(), run_two, quick=1600),
          Facet("wide", lambda t: wide(), run_wide, quick=160),
          Facet("soup", lambda t: st.one_of(soup(), soup(), C09.soup()), run_soup, quick=3000),
          Facet("fixed", lambda t: C09.fixed(), run_fixed, quick=800),
          Facet("program", lambda t: cmd(), run_cmd, quick=240), Facet("program-fixed", lambda t: cmdf(), run_cmdf, quick=80)]
