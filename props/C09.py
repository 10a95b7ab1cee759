"""Text files survive a write and a read."""
import os
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G
import textfile as T

RULE = ("Files built from known cells (numbers, infinities, missing values) in every rendering (quoted, escaped, padded, repeated white delimiters, comments, blank lines, CR-LF, no final newline, "
        "short lines) with and without row and column names, for seven delimiter sets; fixed-width files; token soups of delimiters, quotes, escapes, NULs and newlines compared with a plain splitter; "
        "files longer than the read buffer; data sets printed (by name, file, pipe, appended) and read back; data sets shown on screen. Non-trivial: at least two lines and two fields, and at least one quote, escape, comment, blank or missing "
        "cell (soups: at least two lines). Distinct by the whole case.")
ASSUMPTIONS = ["fields read as numbers follow C's strtod; a field that is not a number reads as NaN or zero", "the last of the fixed-width field ends is given",
               "round trips use the printed precision (six decimals), names without special characters, and no title, weights or text, which a matrix file cannot hold"]
NAN = float("nan")
FRESH = __import__("struct").unpack("d", b"\xbe" * 8)[0]   # what the sanitizer fills new memory with
libc = C.CDLL(None)
libc.strtod.restype = C.c_double
libc.strtod.argtypes = [C.c_char_p, C.POINTER(C.c_char_p)]


def strtod(s):
    b = enc(s)
    e = C.c_char_p()
    buf = C.create_string_buffer(b)
    x = libc.strtod(buf, C.byref(e))
    end = C.cast(C.byref(e), C.POINTER(C.c_void_p))[0] or 0
    return x if end != C.addressof(buf) else NAN


def write(s, name="in.txt"):
    with open(name, "wb") as f:
        f.write(enc(s))


def val(s):
    return NAN if s is None or s.lower() == "nan" else float(s)


def same_or_zero(got, want):
    return same(got, want)


def no_garbage(D):
    for r in (D["m"] or []):
        if FRESH in r:
            raise Bad("a cell was never written: %s" % short(D["m"]))


def run_read(c):
    write(c["file"])
    r = L.psiiIis_sh_text_to_data("in.txt", ord("y") if c["hr"] else ord("n"), ord("y") if c["hc"] else ord("n"), None, 0,
                                  None if c.get("defdelim") and c["delims"] == "|,\t" else c["delims"])
    D = dump(r)
    check(D is not None, "no data set read")
    eq(D["err"], "", "error flag")
    eq(D["m"], [[val(x) for x in row] for row in c["cells"]] or None, "numbers read from %r" % c["file"])
    eq(D["n"]["c"], c["cn"] or [], "column names read from %r" % c["file"])
    eq(D["n"]["r"], c["rn"] or [], "row names read from %r" % c["file"])
    eq(D["v"], None, "vector")
    free(r)
    f = c["file"]
    return ["nt"] if len(c["cells"]) > 1 and len(c["cells"][0]) > 1 and any(x in f for x in '"\\#\n\n') else []


# ------------------------------------------------------------------ fixed width
@st.composite
def fixed(draw):
    widths = draw(st.lists(st.integers(1, 6), min_size=1, max_size=5))
    hc = draw(st.booleans())
    hr = draw(st.booleans()) and len(widths) > 1
    cn = [draw(st.sampled_from(["a", "bb", "Ccc", "d_d"]))[:w] .ljust(w, "x") for w in widths] if hc else None
    rows, txt = [], ""
    if hc:
        txt += "".join(cn) + "\n"
    names = []
    for _ in range(draw(st.integers(1, 5))):
        row = []
        for j, w in enumerate(widths):
            if hr and j == 0:
                row.append(draw(st.text(alphabet="abcXY#\"", min_size=w, max_size=w)))
                names.append(row[-1])
            elif draw(st.integers(0, 6)) == 0:
                row.append(" " * w)
            else:
                s = draw(st.one_of(st.integers(0, 10**w - 1).map(str), st.integers(-9, 9).map(str), st.sampled_from(["1.5", ".25", "-1", "7."])))[:w]
                s = s if s not in ("-", ".") else "0"
                row.append(s.rjust(w) if draw(st.booleans()) else s.ljust(w))
        rows.append(row)
        txt += "".join(row) + "\n" + draw(st.sampled_from(["", "", "\n"]))
    if draw(st.integers(0, 3)) == 0:
        txt = txt.rstrip("\n")
    ends, p = [], 0
    for w in widths:
        p += w
        ends.append(p)
    return {"file": txt, "ends": ends, "hr": hr, "hc": hc, "cn": cn, "rows": rows, "rn": names}


def run_fixed(c):
    write(c["file"])
    r = L.psiiIis_sh_text_to_data("in.txt", 1 if c["hr"] else ord("n"), 1 if c["hc"] else ord("n"), c["ends"], len(c["ends"]), ",")
    D = dump(r)
    k = int(c["hr"])
    eq(D["m"], [[float(x) if x.strip() else NAN for x in row[k:]] for row in c["rows"]], "numbers read from fixed-width %r" % c["file"])
    eq(D["n"]["r"], c["rn"], "row names")
    # the names line has an entry over every data column only: with row names it is not square, so compare without
    if not c["hr"]:
        eq(D["n"]["c"], c["cn"] or [], "column names")
    free(r)
    return ["nt"] if len(c["rows"]) > 1 and len(c["ends"]) > 1 else []


# ------------------------------------------------------------------ any file content
tok = st.sampled_from(["1", "2", "-3.5", "ab", "x", " ", "  ", "\t", ",", ",", "|", ";", "\n", "\n", "\n\n", "\r\n", '"', '""', '"a b"', '"1,2"', "\\", "\\,", '\\"', "#", "# c\n", "\0", "NaN", "nan", "inf",
                       "1e9999", "0x1f", "12abc", ".", "-", "\xc3\xa9", "e", "longword" * 4])


@st.composite
def soup(draw):
    n = draw(st.integers(0, 30))
    return {"file": "".join(draw(st.lists(tok, min_size=0, max_size=n))), "delims": draw(st.sampled_from(T.DELIMS + ["", "ab", "\n,"][:1])), "hr": draw(st.booleans()), "hc": draw(st.booleans())}


def expect(lines, hr, hc):
    """(matrix, row names, column names, stopped at a long line)"""
    lines = list(lines)
    k = int(hr)
    head = lines.pop(0) if hc and lines else None
    if not lines:
        return None, [], head or [], False
    nc = len(lines[0]) - k
    cn = (head or [])[:nc]
    m, rn = [], []
    for l in lines:
        if len(l) - k > nc:
            return m, rn, cn, True
        if hr:
            rn.append(l[0])
        m.append([strtod(x) if x else NAN for x in l[k:]] + [NAN] * (nc - len(l) + k))
    return (m if nc > 0 else None), rn, cn, False


def run_soup(c):
    write(c["file"])
    r = L.psiiIis_sh_text_to_data("in.txt", ord("y") if c["hr"] else ord("n"), ord("y") if c["hc"] else ord("n"), None, 0, c["delims"])
    D = dump(r)
    check(D is not None, "no data set read")
    no_garbage(D)
    lines = T.split(c["file"], c["delims"])
    m, rn, cn, stopped = expect(lines, c["hr"], c["hc"])
    what = "of %r, delimiters %r" % (c["file"], c["delims"])
    eq(D["n"]["c"], cn, "column names " + what)
    if stopped:
        eq(D["err"], "t", "error flag for a line with too many fields " + what)
        eq((D["m"] or [])[:len(m)] if m and m[0] else [], m if m and m[0] else [], "numbers before the line with too many fields " + what)
    else:
        eq(D["err"], "", "error flag " + what)
        eq(D["n"]["r"], rn, "row names " + what)
        g = D["m"]
        ok = same(g, m) or (g and m and len(g) == len(m) and all(len(x) == len(y) and all(same(a, b) or (b != b and a == 0) for a, b in zip(x, y)) for x, y in zip(g, m)))
        if not ok:
            raise Bad("numbers %s: got %s, expected %s" % (what, short(g), short(m)))
    free(r)
    return ["nt"] if len(lines) > 1 else []


# ------------------------------------------------------------------ longer than the read buffer
@st.composite
def big(draw):
    nc = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["comment", "rows", "field", "blank"]))
    return {"kind": kind, "pad": 100000 * draw(st.integers(1, 2)) + draw(st.integers(-40, 25)), "nc": nc,
            "tail": draw(st.lists(st.lists(st.integers(-999, 999), min_size=nc, max_size=nc), min_size=1, max_size=5)), "nl": draw(st.booleans())}


def run_big(c):
    nc = c["nc"]
    head = ",".join("c%d" % i for i in range(nc)) + "\n"
    lead = []
    if c["kind"] == "comment":
        s = head + "#" + "x" * (c["pad"] - len(head) - 2) + "\n"
    elif c["kind"] == "blank":
        s = head + "\n" * (c["pad"] - len(head))
    elif c["kind"] == "field":
        f = "7" + " " * (c["pad"] - len(head) - 1 - 2 * nc)
        s = head + f + "".join(",%d" % i for i in range(1, nc)) + "\n"
        lead = [[7.0] + [float(i) for i in range(1, nc)]]
    else:
        s = head
        row = ",".join("%03d" % (i + 5) for i in range(nc)) + "\n"
        while len(s) + len(row) <= c["pad"]:
            s += row
            lead.append([float(i + 5) for i in range(nc)])
    s += "\n".join(",".join(map(str, r)) for r in c["tail"]) + ("\n" if c["nl"] else "")
    write(s)
    r = L.psiiIis_sh_text_to_data("in.txt", ord("n"), ord("y"), None, 0, ",")
    D = dump(r)
    want = lead + [[float(x) for x in r] for r in c["tail"]]
    eq(len(D["m"]), len(want), "number of rows of a file of %d bytes" % len(s))
    if not same(D["m"], want):
        i = next(i for i in range(len(want)) if not same(D["m"][i], want[i]))
        raise Bad("row %d of a file of %d bytes: got %s, expected %s" % (i, len(s), D["m"][i], want[i]))
    free(r)
    return ["nt"]


# ------------------------------------------------------------------ print, then read
@st.composite
def pr(draw):
    k = draw(st.sampled_from(["m", "m", "v", "vm"]))
    e = st.one_of(G.small, G.real, st.integers(-10**12, 10**12).map(float), st.floats(-1e15, 1e15), st.sampled_from([NAN, float("inf"), float("-inf"), 2.0**31, -2.0**31, 2.0**40]))
    nm = T.words("name")
    d = draw(G.data(rows=(1, 6), cols=(1, 5) if "m" in k else (0, 0), vec="v" in k, weights=False, text=None, names=False, e=e))
    n = len(d.get("m") or d.get("v"))
    c = len(d["m"][0]) if d.get("m") else 0
    if draw(st.booleans()):
        if c:
            d["cn"] = [draw(nm) + str(i) for i in range(c)]
        if "v" in k:
            d["vn"] = draw(nm)
    if draw(st.booleans()):
        d["rn"] = draw(G.vector(n, nm))
    dl = draw(st.sampled_from(["\t", "\t"] + ([",", "|", ", "] if k == "m" else [])))
    return {"d": d, "delim": dl, "how": draw(st.sampled_from(["name", "file", "pipe", "pipe_t"])), "times": draw(st.integers(1, 2)), "pages": draw(st.booleans())}


def run_pr(c):
    L.vss_sh_opts_delims(None, c["delim"])
    d = c["d"]
    has_c = bool(d.get("cn") or d.get("vn"))
    p = mk(d)
    pages = c["pages"] and not has_c and not d.get("rn")
    if pages:
        L.vpp_sh_set_more(p, mk(d))
    A = dump(p)
    f = getattr(L, "vpsc_sh_print_" + c["how"])
    if os.path.exists("out.txt"):
        os.unlink("out.txt")
    f(p, "out.txt", "w")
    times = 1
    if c["times"] == 2 and not has_c:
        f(p, "out.txt", "a")
        times = 2
    else:
        f(p, "out.txt", "w")      # written over
    times *= 1 + pages
    eq(dump(p), A, "data set after printing")
    r = L.psiiIis_sh_text_to_data("out.txt", ord("y") if d.get("rn") else ord("n"), ord("y") if has_c else ord("n"), None, 0, "|,\t")
    D = dump(r)
    text = open("out.txt", errors="replace").read()
    n = len(d.get("m") or d.get("v"))
    want = [([d["v"][i]] if d.get("v") else []) + (d["m"][i] if d.get("m") else []) for i in range(n)] * times
    got = D["m"]
    check(got is not None and len(got) == len(want) and len(got[0]) == len(want[0]), "shape read back from %r: %s", text, D)
    for a, b in zip(got, want):
        near(a, b, "numbers read back from %r" % text, rel=1e-14, ab=5.001e-7)
    eq(D["n"]["c"], ([d["vn"]] if d.get("vn") else []) + (d.get("cn") or []), "column names read back from %r" % text)
    eq(D["n"]["r"], (d.get("rn") or []) * times, "row names read back")
    free(p), free(r)
    # vectors and matrices on their own
    if d.get("m") and c["how"] == "name":
        m = mat(d["m"])
        L.vpsc_sh_print_matrix(m, "m.txt", "w")
        r = L.psiiIis_sh_text_to_data("m.txt", ord("n"), ord("n"), None, 0, "|,\t")
        near([y for x in dump(r)["m"] for y in x], [y for x in d["m"] for y in x], "matrix read back", rel=1e-14, ab=5.001e-7)
        free(r), L.vp_sh_matrix_free(m)
    if d.get("v") and c["how"] == "name":
        v = vec(d["v"])
        L.vpsc_sh_print_vector(v, "v.txt", "w")
        r = L.psiiIis_sh_text_to_data("v.txt", ord("n"), ord("n"), None, 0, "|,\t")
        near(dump(r)["m"][0], d["v"], "vector read back", rel=1e-14, ab=5.001e-7)
        free(r), L.vp_sh_vector_free(v)
    return ["nt"] if len(want) > 1 and len(want[0]) > 1 else []


# ------------------------------------------------------------------ showing anything is harmless
def aligned(s, pages, delim):
    """every page as lines of equal width, with the cells in order and nothing but white space and delimiters between them"""
    for A in pages:
        n = A["n"]
        if n["title"]:
            check(s.startswith("\t%s\n\n" % n["title"]), "title %r is not on top of %r", n["title"], s)
            s = s[len(n["title"]) + 3:]
        g = lambda x: "nan" if x != x else "%g" % x
        rows = max(len(A[k] or []) for k in ("v", "m", "w", "t"))
        rows = max(rows, len(n["r"]))
        cols = A["mc"] if A["m"] else 0
        tc = max([len(r) for r in A["t"] or []] + [0])
        pick = lambda x, i: x[i] if x and i < len(x) else ""
        want = []
        if n["v"] is not None or n["c"] or n["t"]:
            want.append([n["v"] or "" if A["v"] else ""] + [pick(n["c"], j) for j in range(cols)] + [pick(n["t"], j) for j in range(tc)] + (["Weights"] if A["w"] else []))
        for i in range(rows):
            num = lambda x: g(x[i]) if x and i < len(x) else ""
            want.append([pick(n["r"], i), num(A["v"])] + [g(A["m"][i][j]) if A["m"] and i < len(A["m"]) else "" for j in range(cols)] + [A["t"][i][j] if A["t"] and i < len(A["t"]) else "" for j in range(tc)] + [num(A["w"])])
        wide = None
        for w in want:
            line, _, s = s.partition("\n")
            check(wide in (None, len(line)), "line %r is not as wide as those above, %s", line, wide)
            wide = len(line)
            at = 0
            for x in w:
                k = line.find(x, at)
                check(k >= 0 and line[at:k].replace(delim, "").strip() in ("", "-" if x in ("0", "nan") else ""), "%r does not follow in the line %r of %s", x, line, w)
                at = k + len(x)
            check(not line[at:].replace(delim, "").strip(), "%r at the end of a line of %s", line[at:], w)
        if A is not pages[-1]:
            check(s.startswith("\n"), "no empty line between pages, but %r", s[:20])
            s = s[1:]
    eq(s, "", "what is left")


def capture(p, what):
    L.vpsc_sh_shown(p, "shown.txt", what)
    return open("shown.txt", "rb").read().decode("latin1")


def shown(p, A):
    pages = []
    a = A
    while a:
        pages.append(a)
        a = a["more"]
    aligned(capture(p, "d"), pages, "\t")
    n = A["n"]
    want = "title: %s\n" % n["title"] if n["title"] is not None else ""
    want += "vector:\t%s\n" % n["v"] if n["v"] is not None else ""
    for k, t in (("c", "column"), ("t", "text"), ("r", "row")):
        if n[k]:
            want += t + ":" + "".join("\t" + x for x in n[k]) + "\n"
    eq(capture(p, "n"), want, "names printed")
    for what, k in (("v", "v"), ("V", "v"), ("m", "m"), ("M", "m")):
        x = [float(t) for t in capture(p, what).replace("NULL", "").split()]
        near(x, [t for r in A["m"] or [] for t in r] if k == "m" else A["v"] or [], "numbers shown", rel=1e-14, ab=5.001e-7)


def run_show(c):
    p = mk(c["d"])
    A = dump(p)
    L.vp_sh_data_show(p)
    L.vpsc_sh_print_name(p, "show.txt", "w")
    check(os.path.getsize("show.txt") > 0, "nothing printed")
    s = open("show.txt", errors="replace", newline="").read()
    shown(p, A)
    for r in (A["t"] or []):
        for x in r:
            check(x in s or "\0" in x, "text %r is not in the printed data set", x)
    for k in ("r", "c", "t"):
        for x in A["n"][k]:
            check(x in s or (k == "c" and not A["m"]) or (k == "t" and not A["t"]), "name %r is not in the printed data set %r", x, s)
    eq(dump(p), A, "data set after showing")
    # a directory that is not there: reported, not fatal
    L.vpsc_sh_print_name(p, "nowhere/at/all.txt", "w")
    r = L.ps_sh_text_to_data0("nowhere/at/all.txt")
    eq(dump(r)["err"], "t", "error flag for a file that is not there")
    free(p)
    return ["nt"] if A["t"] and A["m"] else []


def sh():
    w = st.one_of(st.sampled_from(["a", "%s", "", "q q", "a text wide enough to be " + 3 * "folded, cut or moved "]), st.integers(0, 10**5).map("w{}".format))
    return st.builds(lambda d: {"d": d}, G.data(rows=(1, 4), words_s=w, names_s=st.one_of(st.sampled_from(["n", "%d", "long name", ""]), st.integers(0, 10**5).map("n{}".format)), pages=1))


FACETS = [Facet("read", lambda t: T.textfile(), run_read, quick=4000),
          Facet("fixed", lambda t: fixed(), run_fixed, quick=1600),
          Facet("soup", lambda t: soup(), run_soup, quick=6000),
          Facet("big", lambda t: big(), run_big, quick=96),
          Facet("print", lambda t: pr(), run_pr, quick=2400),
          Facet("large print", lambda t: G.large(pr), run_pr, quick=96),
          Facet("show", lambda t: sh(), run_show, quick=800),
          Facet("large show", lambda t: G.large(sh), run_show, quick=96)]
