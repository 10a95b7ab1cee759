"""Hypothesis strategies shared by the properties."""
import random

from hypothesis import strategies as st

LARGE = False       # set while large() draws: sizes then reach a few hundred rows and tens of columns

small = st.integers(-9, 9).map(float)
real = st.one_of(small, st.floats(-1000, 1000, allow_nan=False), st.integers(-10**6, 10**6).map(lambda i: i / 1000.0))
special = st.sampled_from([float("nan"), float("inf"), float("-inf"), 1e300, -1e-300, 0.0, 2.0**53])
anynum = st.one_of(real, real, real, special)
NAMES = ["a", "b", "c", "A", "Bee", "bee", "x1", "row two", "", "z.z", "a b", "caf\xe9", "%s", "n_", "a"]
LONG = [b + e for b in ("a name long enough to share its beginning ", "z" * 260) for e in ("one", "two", "TWO")]     # differ at their ends only
short = st.sampled_from(NAMES)
name = st.one_of(short, short, short, short, short, st.sampled_from(LONG))
words = st.one_of(st.sampled_from(NAMES + ["100", "3.5", "NaN", "NULL", "it's", "%d%n", "-2", "\"q\"", "tab\there", "x,y"]),
                  st.sampled_from(NAMES), st.sampled_from(LONG), st.text(alphabet="abXY 01%.,'", max_size=6))


def size(lo, hi, mult=40):
    """a count; more when large() draws"""
    return st.integers(lo, hi * mult if LARGE and lo != hi else hi)


def picks(n, e):
    """n elements picked at random from a small drawn pool: a long list for the price of a few draws"""
    return st.builds(lambda pool, seed: random.Random(seed).choices(pool, k=n), st.lists(e, min_size=11, max_size=11), st.integers(0, 2**20))


def scatter(n):
    """n numbers, many of them different, some repeated"""
    return st.builds(lambda seed, k: [float(random.Random(seed * 1000 + i).randint(-k, k)) / 4 for i in range(n)], st.integers(0, 2**20), st.sampled_from([20, 200, 2000]))


def order(n):
    """a permutation"""
    return st.permutations(range(n)) if n < 30 else st.integers(0, 2**20).map(lambda s: random.Random(s).sample(range(n), n))


def vector(n, e=real):
    return picks(n, e) if LARGE and n > 11 else st.lists(e, min_size=n, max_size=n)


def matrix(r, c, e=real):
    if LARGE and r * c > 11:
        return picks(r * c, e).map(lambda x: [x[i * c:i * c + c] for i in range(r)])
    return st.lists(st.lists(e, min_size=c, max_size=c), min_size=r, max_size=r)


@st.composite
def large(draw, make):
    """the same cases (make() gives their strategy) over much larger data"""
    global LARGE
    LARGE = True
    try:
        return draw(make())
    finally:
        LARGE = False


@st.composite
def data(draw, rows=(1, 5), cols=(0, 4), vec=None, weights=None, text=(0, 3), names=True, e=real, pages=0, need=True,
         names_s=name, words_s=words, full_names=None):
    """a data-set description. Parts share the row count. vec/weights: None = either, True/False = forced"""
    r = draw(size(*rows))
    c = draw(size(*cols, mult=6))
    v = draw(st.booleans()) if vec is None else vec
    w = draw(st.booleans()) if weights is None else weights
    tc = draw(size(*text, mult=4)) if text else 0
    if need and not c and not v and not tc:
        v = True
    d = {}
    if v:
        d["v"] = draw(vector(r, e))
    if c:
        d["m"] = draw(matrix(r, c, e))
    if w:
        d["w"] = draw(vector(r, st.integers(0, 5).map(float)))
    if tc:
        d["t"] = draw(matrix(r, tc, words_s))
    if names:
        full = draw(st.booleans()) if full_names is None else full_names
        if c and (full or draw(st.booleans())):
            d["cn"] = draw(vector(c, names_s))
        if full or draw(st.booleans()):
            d["rn"] = draw(vector(r, names_s))
        if tc and (full or draw(st.booleans())):
            d["tn"] = draw(vector(tc, names_s))
        if v and (full or draw(st.booleans())):
            d["vn"] = draw(names_s)
        if draw(st.booleans()):
            d["title"] = draw(names_s)
    if pages and draw(st.integers(0, 2)):
        d["more"] = draw(data(rows=rows, cols=cols, vec=vec, weights=weights, text=text, names=names, e=e,
                              pages=pages - 1, names_s=names_s, words_s=words_s))
    return d


def tier_scale(tier, q, t):
    return q if tier == "quick" else t
