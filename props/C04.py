"""Name look-up is consistent with the name lists."""
from hypothesis import strategies as st
from engine import Facet, Bad
from ap import *
import gens as G

RULE = ("Histories of up to 10 operations on name lists (add, stack onto itself or another list with any pair of types, copy) and on data sets "
        "(drop rows or columns, transpose, sort, copy, row-to-row copy, stack, add names), with names drawn from a pool rich in duplicates and case variants; after "
        "every operation the lists are compared with a Python model and every name of the pool is looked up in every list. "
        "Non-trivial: some look-up had to choose between an exact and a case-differing or duplicate entry. Distinct by the whole case.")
ASSUMPTIONS = ["names compare as strcasecmp does in the C locale", "in data sets, row, column and text name lists start complete"]

POOL = ["a", "A", "b", "B", "Bee", "bee", "BEE", "x", "", "%s", "a b", "A b", "ab", "bA", "cb"]
name = st.sampled_from(POOL)


def find(lst, want):
    for i, n in enumerate(lst):
        if n == want:
            return i
    for i, n in enumerate(lst):
        if lo(n) == lo(want):
            return i
    return None


def check_names(p, m, lab):
    got = J(L.sp_sh_names_dump(p))["n"]
    eq(got, m, "name lists")
    for ty in "rct":
        lst = m[ty]
        for w in POOL:
            k = find(lst, w)
            if k is None:
                k = -1 if ty == "c" and m["v"] is not None and lo(m["v"]) == lo(w) else -2
            elif sum(lo(x) == lo(w) for x in lst) > 1:
                lab.add("nt")
            g = L.ipsc_apop_name_find(p, w, ty)
            if g != k:
                raise Bad("looking up %r among %s names %s (vector %r): got %d, expected %d" % (w, ty, lst, m["v"], g, k))
    eq(L.ipsc_apop_name_find(p, None, "c"), -2, "looking up NULL")


@st.composite
def lists(draw):
    op = st.one_of(
        st.tuples(st.just("add"), st.integers(0, 1), name, st.sampled_from("rrcctthv")),
        st.tuples(st.just("add"), st.integers(0, 1), name, st.sampled_from("rrcctthv")),
        st.tuples(st.just("add"), st.integers(0, 1), name, st.sampled_from("rrcctthv")),
        st.tuples(st.just("stack"), st.integers(0, 1), st.booleans(), st.sampled_from(["", "r", "c", "t", "v", "rc", "cr", "tc", "ct", "rt", "tr"])),
        st.tuples(st.just("copy"), st.integers(0, 1), st.just(0), st.just("")),
        st.tuples(st.just("addnull"), st.integers(0, 1), st.just(0), st.sampled_from("rcthv")))
    return [list(x) for x in draw(st.lists(op, min_size=3, max_size=10))]


def run_lists(ops):
    new = lambda: {"title": None, "v": None, "r": [], "c": [], "t": []}
    ps, ms = [L.p_apop_name_alloc(), L.p_apop_name_alloc()], [new(), new()]
    lab = set()
    for op in ops:
        k, i = op[0], op[1]
        if k == "add":
            _, _, n, ty = op
            r = L.ipsc_apop_name_add(ps[i], n, ty)
            if ty in "rct":
                ms[i][ty].append(n)
                eq(r, len(ms[i][ty]), "return value of adding a name")
            else:
                ms[i]["title" if ty == "h" else "v"] = n
                eq(r, 1, "return value of adding a name")
        elif k == "addnull":
            eq(L.ipsc_apop_name_add(ps[i], None, op[3]), -1, "adding NULL")
        elif k == "stack":
            j = i if op[2] else 1 - i
            t = op[3]
            t1 = t[0] if t else "r"
            t2 = t[1] if len(t) > 1 else t1
            L.vppcc_sh_name_stack(ps[i], ps[j], t[:1], t[1:2])
            if t1 == "v":
                if ms[j]["v"] is not None:
                    ms[i]["v"] = ms[j]["v"]
            else:
                ms[i][t1] = ms[i][t1] + ms[j][t2]
        else:
            q = L.pp_apop_name_copy(ps[i])
            check_names(q, ms[i], lab)
            L.vp_apop_name_free(ps[i])
            ps[i] = q
        if max(len(ms[i][x]) for x in "rct") > 60:
            break
        check_names(ps[0], ms[0], lab)
        check_names(ps[1], ms[1], lab)
    for p in ps:
        L.vp_apop_name_free(p)
    return list(lab)


@st.composite
def hist(draw):
    d = draw(G.data(rows=(1, 4), cols=(1, 4), text=(0, 3), vec=True, full_names=True, names_s=name, e=G.small))
    op = st.one_of(
        st.tuples(st.just("rmc"), st.lists(st.booleans(), min_size=8, max_size=8)),
        st.tuples(st.just("rmr"), st.lists(st.booleans(), min_size=8, max_size=8)),
        st.tuples(st.just("tr"), st.just(0)), st.tuples(st.just("sort"), st.sampled_from("ad")),
        st.tuples(st.just("copy"), st.just(0)), st.tuples(st.just("stackr"), st.just(0)), st.tuples(st.just("stackc"), st.just(0)),
        st.tuples(st.just("r2r"), st.integers(0, 99)), st.tuples(st.just("prune"), st.lists(name, max_size=4)),
        st.tuples(st.just("resetrow"), st.lists(name, min_size=1, max_size=1)))
    return {"d": d, "ops": [list(x) for x in draw(st.lists(op, min_size=1, max_size=8))]}


def run_hist(c):
    p = mk(c["d"])
    m = dump(p)["n"]
    lab = set()
    text = bool(c["d"].get("t"))
    vec_ = True
    for k, arg in c["ops"]:
        d = dump(p)
        rows, cols = len(d["m"]), len(d["m"][0])
        n = L.pp_sh_names(p)
        if k == "rmc":
            drop = [int(x) for x in arg[:cols]] + [0] * max(0, cols - 8)
            if all(drop):
                drop[0] = 0
            L.vpI_apop_data_rm_columns(p, drop)
            m["c"] = [x for x, y in zip(m["c"], drop) if not y]
        elif k == "rmr":
            if vec_ and len(d["v"]) != rows:
                continue
            drop = [int(x) for x in arg[:rows]] + [0] * max(0, rows - 8)
            if all(drop):
                drop[-1] = 0
            L.ppI_sh_rm_rows(p, drop)
            m["r"] = [x for x, y in zip(m["r"], drop) if not y]
        elif k == "tr":
            if text or len(m["r"]) != rows:
                continue
            L.pp_sh_transpose0(p)
            m["r"], m["c"] = m["c"], m["r"]
        elif k == "sort":
            if vec_ and len(d["v"]) != rows:
                continue
            L.pppcc_sh_sort(p, None, arg, "y")
            got = dump(p)["n"]["r"]
            eq(sorted(got), sorted(m["r"]), "row names after sorting")
            m["r"] = got
        elif k == "copy":
            q = L.pp_apop_data_copy(p)
            free(p)
            p = q
        elif k in ("stackr", "stackc"):
            if rows > 16 or cols > 16 or (vec_ and len(d["v"]) != rows):
                continue
            q = L.pppcc_sh_stack(p, p, k[-1], "n")
            free(p)
            p = q
            if k[-1] == "r":
                m["r"] = m["r"] * 2
            else:
                m["c"] = dump(p)["n"]["c"]
                m["t"] = m["t"] * 2
        elif k == "r2r":
            if vec_ and len(d["v"]) != rows:
                continue
            a, b = arg % rows, arg // 10 % rows
            if a != b:
                L.vpii_sh_memcpy_r(p, a, b)
                m["r"][a] = m["r"][b]
        elif k == "prune":
            keep, left = [], list(arg)
            for x in m["c"]:
                for y in left:
                    if lo(x) == lo(y):
                        left.remove(y)
                        keep.append(x)
                        break
            if not keep:
                continue
            arr = (C.c_char_p * (len(arg) + 1))(*[enc(x) for x in arg], None)
            L.ppp_apop_data_prune_columns_base(p, C.addressof(arr))
            m["c"] = keep
        check_names(L.pp_sh_names(p), m, lab)
    # a value looked up by name is the one in that row and column
    d = dump(p)
    for w in POOL:
        r, col = find(m["r"], w), find(m["c"], w)
        if r is not None and col is not None and r < len(d["m"]) and col < len(d["m"][0]):
            eq(L.dpiisss_sh_get(p, 0, 0, w, w, None), d["m"][r][col], "value by names")
    free(p)
    return list(lab)


FACETS = [Facet("lists", lambda t: lists(), run_lists, quick=3000),
          Facet("data", lambda t: hist(), run_hist, quick=4000),
          Facet("large data", lambda t: G.large(hist), run_hist, quick=60)]
