"""Hypothesis strategies shared by the properties. Every value they produce is JSON."""
from hypothesis import strategies as st

NUM = ["i4", "u4", "i8", "u8", "f4", "f8"]
KINDS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "c8", "c16", "b1",
         "S1", "S2", "S3", "S5", "S8", "S13", "S16", "i16", "f16"]
SEED = st.integers(0, 2**31 - 1)


def item(dt):
    return int(dt.lstrip("<>=|")[1:])


def dtypes(pool=None, endian="<>"):
    return st.builds(lambda e, k: e + k, st.sampled_from(list(endian)), st.sampled_from(pool or KINDS))


@st.composite
def fsizes(draw, small=False, minfiles=0, maxtotal=100000, huge=False):
    """rows per physical file"""
    prof = draw(st.sampled_from(["few", "few", "few", "mid", "many", "hex"] if not small else ["few", "few", "many"]))
    if huge and draw(st.integers(0, 5)) == 0:
        n = draw(st.integers(max(1, minfiles), 4))
        return [draw(st.sampled_from([0, 1, 5, 2**31 - 1, 2**31, 2**32, 2**32 + 3, 2**33 + 1])) for _ in range(n)]
    if prof == "few":
        v = draw(st.lists(st.integers(0, 12), min_size=minfiles, max_size=6))
    elif prof == "mid":
        v = draw(st.lists(st.integers(0, 400), min_size=minfiles, max_size=4))
    elif prof == "many":
        n = draw(st.integers(max(8, minfiles), 34))
        s = draw(st.integers(0, 2**20))
        v = [(s * (i + 3) // 7 + i * i) % 4 for i in range(n)]
    else:
        n = draw(st.integers(250, 300))
        s = draw(st.integers(0, 2**20))
        v = [(s * (i + 3) // 7 + i * i) % 3 for i in range(n)]
    return v


@st.composite
def buffers(draw, row):
    """an I/O buffer size for rows of `row' bytes; 0 stands for the default"""
    k = draw(st.sampled_from(["rows", "rows", "rows", "odd", "tiny", "default", "big"]))
    if k == "rows":
        return row * draw(st.integers(1, 9))
    if k == "odd":
        return row * draw(st.integers(1, 9)) + draw(st.integers(0, max(0, row - 1)))
    if k == "tiny":
        return draw(st.integers(1, row))
    if k == "big":
        return row * draw(st.integers(10, 2000))
    return 0


@st.composite
def positions(draw, fs):
    """a row index 0..size, biased to the boundaries of physical files"""
    total = sum(fs)
    if total == 0:
        return 0
    if draw(st.booleans()):
        i = draw(st.integers(0, len(fs)))
        p = sum(fs[:i]) + draw(st.integers(-3, 3))
    else:
        p = draw(st.integers(0, total))
    return min(max(p, 0), total)


SAFE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."


def attrname_chars():
    return st.characters(min_codepoint=33, max_codepoint=0x2fff, exclude_categories=("Cs", "Cc", "Zs", "Zl", "Zp"))


def attrnames():
    """any non-empty name without blanks or NUL"""
    return st.one_of(st.text("abcAB01", min_size=1, max_size=3), st.text(attrname_chars(), min_size=1, max_size=12),
                     st.sampled_from(["#HUMANE", "%s%n", "a%d", "[", "]", "name", "x" * 100, "y" * 300, "DTYPE:", "\x01", "\x7f"]),
                     st.text("xyz", min_size=60, max_size=140))


@st.composite
def names(draw, maxlen=255):
    """one path component that the file system and the library accept (no blank, '/', NUL, leading dot)"""
    n = draw(st.one_of(st.text("abcXY019_", min_size=1, max_size=4),
                       st.text(attrname_chars(), min_size=1, max_size=10),
                       st.sampled_from(["000000", "head", "headers", "attr", "attr-v2", "%s", "%n%n", "a%20b", "x" * 200, "0", "é", "-n", "a.b", "x~"])))
    n = n.replace("/", "_").lstrip(".")
    while len(n.encode()) > maxlen:
        n = n[:-1]
    if n in ("", ".", "..", "header"):
        n = n + "h"
    return n
