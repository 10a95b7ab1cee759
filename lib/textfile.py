"""Text files with a known meaning (built from their cells), and a plain splitter for any text."""
from hypothesis import strategies as st

MISSING = None
DELIMS = [",", "|", "\t", ";", " ", "|,\t", ":"]
nums = st.one_of(st.integers(-9, 99).map(str), st.integers(-10**9, 10**9).map(str), st.floats(-1e6, 1e6).map(lambda x: "%.6g" % x),
                 st.sampled_from(["1e3", "-2.5E-3", "0.1", ".5", "-0", "inf", "-inf", "INFINITY", "-Infinity", "1e308", "+4"]))
txt = st.one_of(st.sampled_from(["a", "b c", "Males, 30-40", "x\"y", "it's", "50%", "back\\slash", "#hash", "a|b", "tab\tin", " lead", "trail ", "two\nlines", "semi;colon", "k:v", "%s%n", "r\xc3\xa9sum\xc3\xa9", "nancy"]),
                st.text(alphabet="abcXYZ _-.,|;:#\"\\'", min_size=1, max_size=8).filter(lambda s: s.strip(" .-+") != ""))


def is_number(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def words(kind):
    w = txt.filter(lambda s: not is_number(s) and s.lower() not in ("nan",) and not s.lower().startswith(("nan", "inf", "0x")) and s.strip() != "" and not s.strip()[:1].isdigit())
    return w if kind == "text" else st.sampled_from(["a", "bb", "c1", "Row", "x_y", "z.z", "q-1", "Abc"])


def render(draw, s, delims, force_quote=False):
    """one field's text in the file, with the value s"""
    special = set(delims) | set(" \t\r\n#\"\\")
    if s == "":
        return '""'
    inner = any(c in special for c in s)
    k = draw(st.sampled_from(["bare", "quote", "escape"])) if not force_quote else "quote"
    if k == "bare" and not inner:
        return s
    if k == "escape" and "\n" not in s:
        return "".join("\\" + c if c in special else c for c in s)
    return '"' + "".join("\\" + c if c in '"\\' else c for c in s) + '"'


def line(draw, fields, delims, first_must_show=True):
    """fields: list of strings (values) or None (missing). Returns the line's text"""
    white = delims in (" ", "\t")
    out = ""
    for i, f in enumerate(fields):
        d = draw(st.sampled_from(list(delims)))
        if i:
            out += d
            if d in " \t" and draw(st.integers(0, 4)) == 0:
                out += d
        wsep = i and d in " \t"
        pad = draw(st.sampled_from(["", "", "", " ", "  "])) if " " not in delims else ""
        last_d_white = any(c in " \t" for c in delims)
        if f is None:
            # a blank cell: nothing between two delimiters, if neither can be taken for white space
            blank = draw(st.sampled_from(["", '""', "NaN", "nan"]))
            if blank == "" and (last_d_white or i == 0):
                blank = '""' if i else "NaN"
            if i == 0 and blank == '""' :
                blank = "NaN"
            out += pad + blank
        else:
            out += pad + render(draw, f, delims)
        if "\t" not in delims and " " not in delims:
            out += draw(st.sampled_from(["", "", "", " ", "\t"]))
        elif " " not in delims:
            out += draw(st.sampled_from(["", "", " "]))
    return out


@st.composite
def textfile(draw, kind="num", allow_short=True):
    """{"file", "delims", "rows": bool, "cols": bool, "cn", "rn", "cells", "short": bool}"""
    delims = draw(st.sampled_from(DELIMS))
    nc = draw(st.integers(1, 5))
    nr = draw(st.integers(0 if kind == "num" and draw(st.integers(0, 9)) == 0 else 1, 6))
    has_r, has_c = draw(st.booleans()), draw(st.booleans())
    nm = words("name")
    cn = [n + str(i) for i, n in enumerate(draw(st.lists(nm, min_size=nc, max_size=nc)))] if has_c else None
    cell = st.one_of(nums, nums, nums, st.none()) if kind == "num" else st.one_of(nums, words("text"), words("text"), st.none())
    cells = [[draw(cell) for _ in range(nc)] for _ in range(nr)]
    rn = [draw(words("name")) for _ in range(nr)] if has_r else None
    lines = []
    junk = lambda: draw(st.sampled_from(["", "", "", "", "\n", "  \n", "# comment, with | \"things\n", "   # x\n", "\r\n"]))
    eol = draw(st.sampled_from(["\n", "\n", "\r\n", " \n"])) if " " not in delims else "\n"
    com = lambda: draw(st.sampled_from(["", "", "", "#c", "# c, d"])) 
    last_white = " " in delims or "\t" in delims
    body = []
    if has_c:
        body.append(line(draw, cn, delims))
    for i in range(nr):
        f = ([rn[i]] if has_r else []) + cells[i]
        # a line whose first field is blank must still be a line
        cut = len(f)
        if allow_short and i > 0 and draw(st.integers(0, 9)) == 0:
            cut = draw(st.integers(1 + int(has_r), len(f))) if len(f) > 1 + int(has_r) else len(f)
            for j in range(cut, len(f)):
                cells[i][j - int(has_r)] = None
        body.append(line(draw, f[:cut], delims))
    s = junk()
    for i, l in enumerate(body):
        s += l + (com() if not last_white else "") + eol + junk()
    if draw(st.integers(0, 3)) == 0:   # no newline at the end of the file
        s = s.rstrip("\r\n") if not last_white else s.rstrip("\n")
    return {"file": s, "delims": delims, "hr": has_r, "hc": has_c, "cn": cn, "rn": rn, "cells": cells}


def split(s, delims):
    """The documented rules, applied to any text: list of lines, each a list of fields."""
    lines, cur, field = [], [], None   # field: list of (char, is white) while in a field
    i, n, q = 0, len(s), False

    def close():
        nonlocal field
        if field is not None:
            while field and field[-1][1]:
                field.pop()
            cur.append("".join(c for c, _ in field).split("\0")[0])
        field = None
    while True:
        c = s[i] if i < len(s) else None
        i += 1
        reg = False
        if c == "#" and not q:
            while i < n and s[i] != "\n":
                i += 1
            i += 1
            c = "\n"
        elif c == "\\":
            c = s[i] if i < n else None
            i += 1
            reg = True
        if c is None:
            if field is None and cur:
                field = []
            close()
            if cur:
                lines.append(cur)
            return lines
        if c == '"' and not reg:
            q = not q
            if field is None:
                field = []
            continue
        if q or reg:
            field = (field or [])
            field.append((c, False))
            continue
        isd = c in delims
        if c in " \r\t\0":
            if isd:
                close()
            elif field is not None:
                field.append((c, True))
            continue
        if isd:
            if field is None:
                field = []
            close()
        elif c == "\n":
            if field is None and cur:
                field = []
            close()
            if cur:
                lines.append(cur)
            cur = []
        else:
            if field is None:
                field = []
            field.append((c, False))
