"""ctypes access to the instrumented library, data-set builders, and comparison helpers."""
import ctypes as C, json, math, os, signal
from engine import Bad

LIB = None
LIBDIR = None
TYPES = {"p": C.c_void_p, "s": C.c_char_p, "c": C.c_char, "i": C.c_int, "u": C.c_uint, "d": C.c_double, "z": C.c_size_t,
         "l": C.c_long, "L": C.c_ulong, "D": C.c_longdouble, "v": None, "P": C.POINTER(C.c_double), "I": C.POINTER(C.c_int),
         "S": C.POINTER(C.c_char_p)}
_cache = {}


def load(path):
    global LIB, LIBDIR
    LIBDIR = os.path.dirname(path)
    LIB = C.CDLL(path, mode=C.RTLD_GLOBAL)


def fn(sig, name):
    """sig: return type letter followed by argument letters, e.g. fn('ipsc', 'apop_name_find')"""
    k = (sig, name)
    f = _cache.get(k)
    if f is None:
        proto = C.CFUNCTYPE(TYPES[sig[0]], *[TYPES[c] for c in sig[1:]])
        f0 = proto((name, LIB))

        def f(*a, _f=f0, _s=sig):
            conv = []
            for t, x in zip(_s[1:], a):
                if t == "s" and isinstance(x, str):
                    x = enc(x)
                elif t == "c" and isinstance(x, str):
                    x = x.encode("latin1") if x else b"\0"
                elif t == "P" and x is not None and not isinstance(x, C.POINTER(C.c_double)):
                    x = dbls(x)
                elif t == "I" and x is not None:
                    x = (C.c_int * max(len(x), 1))(*x)
                elif t == "S" and x is not None:
                    x = (C.c_char_p * max(len(x), 1))(*[None if y is None else enc(y) for y in x])
                conv.append(x)
            r = _f(*conv)
            if _s[0] == "s" and r is not None:
                return r.decode("latin1")
            return r
        _cache[k] = f
    return f


class _Lib:
    """L.ipsc_apop_name_find(...)  ->  fn('ipsc', 'apop_name_find')"""
    def __getattr__(self, a):
        sig, name = a.split("_", 1)
        f = fn(sig, name)
        setattr(self, a, f)
        return f


L = _Lib()


def dbls(x):
    return (C.c_double * max(len(x), 1))(*x)


def enc(s):
    return s.encode("latin1")


def var(name):
    return C.c_void_p.in_dll(LIB, name).value


# ---------------------------------------------------------------- worker life cycle
def worker_init():
    pass


_keep = []


def case_init():
    L.v_sh_reset_opts()
    L.v_sh_handler_reset()
    L.i_sh_db_close()
    L.v_sh_handler_mark()
    del _keep[:]


def case_end():
    if not L.i_sh_handler_same():
        raise Bad("the library left its own GSL error handler installed")


# ---------------------------------------------------------------- data sets
# description: {"v": [..]|None, "m": [[..]]|None, "w": [..]|None, "t": [[str]]|None,
#               "rn": [..], "cn": [..], "tn": [..], "vn": str|None, "title": str|None, "more": desc|None}
def mk(d):
    if d is None:
        return None
    v, m, w = d.get("v"), d.get("m"), d.get("w")
    flat = [x for r in m for x in r] if m else []
    p = L.piPiiPiP_sh_data(len(v) if v else 0, v or [], len(m) if m else 0, len(m[0]) if m else 0, flat,
                           len(w) if w else 0, w or [])
    t = d.get("t")
    if t:
        L.vpii_sh_text_alloc(p, len(t), len(t[0]))
        for i, r in enumerate(t):
            for j, s in enumerate(r):
                if s is not None:
                    if s or (i + 2 * j + len(t)) % 3 == 0:  # most blanks are cells never written to
                        L.ipiis_sh_text_set(p, i, j, s)
    n = L.pp_sh_names(p)
    for k, ty in (("rn", "r"), ("cn", "c"), ("tn", "t")):
        for s in d.get(k) or []:
            L.ipsc_apop_name_add(n, s, ty)
    if d.get("vn") is not None:
        L.ipsc_apop_name_add(n, d["vn"], "v")
    if d.get("title") is not None:
        L.ipsc_apop_name_add(n, d["title"], "h")
    if d.get("more"):
        L.vpp_sh_set_more(p, mk(d["more"]))
    return p


def vec(x):
    return L.piP_sh_vec(len(x), list(x)) if x is not None else None


def mat(x):
    return L.piiP_sh_mat(len(x), len(x[0]), [y for r in x for y in r]) if x else None


def dump(p, pages=1):
    return json.loads(L.spi_sh_dump(p, pages)) if p else None


def dvec(p):
    return json.loads(L.sp_sh_dump_vec(p)) if p else None


def dmat(p):
    return json.loads(L.sp_sh_dump_mat(p)) if p else None


def free(p):
    if p:
        L.vp_sh_data_free(p)


def norm(d):
    """a description in the shape dump() gives it (what the library should hold after mk)"""
    if d is None:
        return None
    t = d.get("t") or None
    return {"v": d.get("v") or None, "m": d.get("m") or None, "mc": len(d["m"][0]) if d.get("m") else -1,
            "w": d.get("w") or None, "err": "",
            "ts": [len(t), len(t[0])] if t else [0, 0], "t": [[x if x is not None else "" for x in r] for r in t] if t else None,
            "n": {"title": d.get("title"), "v": d.get("vn"), "r": list(d.get("rn") or []), "c": list(d.get("cn") or []),
                  "t": list(d.get("tn") or [])},
            "more": norm(d.get("more"))}


# ---------------------------------------------------------------- comparisons
def same(a, b):
    """exact equality, NaN == NaN, -0 == 0"""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def close(a, b, rel=1e-9, ab=1e-9):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if a is None or b is None:
            return a is b
        return len(a) == len(b) and all(close(x, y, rel, ab) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def check(cond, msg, *a):
    if not cond:
        raise Bad(msg % tuple(short(x) for x in a) if a else msg)


def short(x):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) < 900 else s[:900] + "..."


def eq(a, b, what):
    if not same(a, b):
        raise Bad("%s: got %s, expected %s" % (what, short(a), short(b)))


def near(a, b, what, rel=1e-9, ab=1e-9):
    if not close(a, b, rel, ab):
        raise Bad("%s: got %s, expected %s" % (what, short(a), short(b)))


def lo(s):
    """as strcasecmp sees it in the C locale"""
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def swapcase(s):
    return "".join(c.swapcase() if c < "\x7f" else c for c in s)


J = json.loads


def nodes(d):
    while d:
        yield d
        d = d.get("more")


def strip(x):
    """a dump without differences that do not matter: an empty text grid is no text grid"""
    if x is None:
        return None
    x = dict(x)
    if not x["ts"][0] or not x["ts"][1]:
        x["t"], x["ts"] = None, [0, 0]
    x["more"] = strip(x["more"])
    return x


def pp():
    """a cell for an output pointer"""
    return C.c_void_p(None)


def ref(p):
    return C.addressof(p)


def take(s):
    """parse a JSON string returned by the shim"""
    return json.loads(s)


def arr(d):
    """the matrix of a data set as a numpy array"""
    import ctypes
    import numpy as np
    n, k = L.ip_sh_m1(d), L.ip_sh_m2(d)
    t = L.ip_sh_tda(d)
    a = np.ctypeslib.as_array((ctypes.c_double * (t * n)).from_address(L.pp_sh_md(d)))
    return a.reshape(n, t)[:, :k].copy()
