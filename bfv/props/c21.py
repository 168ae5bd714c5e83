import struct
from decimal import Decimal, getcontext
from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated values, texts and type strings against C printf, strtod and numpy"
NOTE = "Generated values of all formattable types in all byte orders, texts and type strings against C printf, strtod, numpy's type strings and reopening."
RULE = ("a case holds up to ten checks: a value formatted (default and other formats) and compared with printf and parsed back in every type that can hold it; a text that "
        "is no number parsed, and one with more digits than the type has, beside the middle of two values; a kind and width with every prefix compared with numpy and in blocks, rows and attributes; and up to eight type strings, random ones and ones close "
        "to valid, created and opened again; non-trivial when a value came back from its text, a text or type was refused or a type was created")
ASSUMPTIONS = ["little endian machine", "values a type can hold", "the text of an infinite imaginary part runs into the letter I and is not parsed back"]

getcontext().prec = 400
FORMATS = {"i4": ["%05d", "%x", "%+d", "%10d|"], "u4": ["%08x", "%u.", "%10u", "%05u"], "i8": ["%lx", "%+ld", "%20ld", "%020ld"], "u8": ["%lx", "%020lu"],
           "f4": ["%.9g", "%.9g", "%e", "%08.3f", "%a"], "f8": ["%.17g", "%.17g", "%.3e", "%f", "%a"], "c8": ["%.9g+%.9gI", "%g %g"], "c16": ["%.17g+%.17gI", "(%g,%g)"], "b1": ["%03d", "%x"]}


@st.composite
def raws(draw, k):
    if k == "b1":
        return bytes([draw(st.integers(0, 255))])
    if k[0] in "iu":
        w = int(k[1])
        lo, hi = (-2**(8 * w - 1), 2**(8 * w - 1) - 1) if k[0] == "i" else (0, 2**(8 * w) - 1)
        v = draw(st.one_of(st.integers(max(lo, -100), 100), st.integers(lo, hi), st.sampled_from([lo, hi, hi - 1, 0, 1, 2**31 - 1])))
        return v.to_bytes(w, "little", signed=k[0] == "i")
    w = {"f4": 32, "f8": 64, "c8": 32, "c16": 64}[k]
    one = st.one_of(st.floats(width=w), st.integers(-1000, 99999).map(float), st.sampled_from([0.0, -0.0, 1.0, float("inf"), float("-inf"), float("nan"), 0.1, 1e-5, 123456.0]).map(lambda x: x),
                    st.floats(-10, 10, width=w))
    code = "<f" if w == 32 else "<d"
    return b"".join(struct.pack(code, draw(one)) for _ in range(2 if k[0] == "c" else 1))


@st.composite
def value(draw):
    k = draw(st.sampled_from(["i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "f8", "f4", "c16", "b1"]))
    e = draw(st.sampled_from(["<", ">", ">", "=", "|", ""]))
    raw = draw(raws(k))
    if e == ">":
        raw = raw[::-1] if k[0] != "c" else raw[:len(raw) // 2][::-1] + raw[len(raw) // 2:][::-1]
    f = draw(st.sampled_from([None, None] + FORMATS[k]))
    back = f in ("%.9g", "%.17g", "%.9g+%.9gI", "%.17g+%.17gI", "%+d", "%+ld", "%20ld", "%10u", "%05d", "%05u", "%020lu", "%020ld")
    to = draw(st.lists(st.tuples(st.sampled_from(["i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16"]), st.sampled_from(["<", ">", "=", "|", ""])).map(list), max_size=4))
    to.append([k, draw(st.sampled_from(["<", ">", "=", ""]))])
    if back and f and f.startswith("%.9g"):
        to = [x for x in to if x[0] not in ("f8", "c16")]
    return {"k": "value", "dt": e + k if e else "=" + k if draw(st.booleans()) else k, "raw": raw.hex(), "fmt": f, "back": back, "num": f.split("+")[0] if f and k[0] == "c" and back else None,
            "to": [x for x in to if x[0] != "b1"]}


@st.composite
def junk(draw):
    e = draw(st.sampled_from(["<", ">", "="]))
    if draw(st.integers(0, 2)) == 0:
        dt = e + draw(st.sampled_from(["i2", "u1", "f2", "f16", "S4", "S1", "i1", "c32", "x4", "b1", "u2"]))
        return {"k": "junk", "dt": dt, "text": draw(st.sampled_from(["1", "17", "0.5", "1+2I"]))}
    if draw(st.integers(0, 3)) == 0:
        # half a complex number
        return {"k": "junk", "dt": e + draw(st.sampled_from(["c8", "c16"])), "text": draw(st.sampled_from(["17", "1.5", "17+", "-2 ", "17+x", "+4+I", "0 2I", "1e3 J"]))}
    t = draw(st.text(" abcdeghjklmopqrstuvwxyz_#/:;<>?!'\"()[]{}", max_size=8))
    if t.strip():
        t = draw(st.sampled_from(["", " ", "+", "-", ".", "e5"])) + t
    if t.strip().lstrip("+-.").startswith(("i", "n", "I", "N")):
        t = "x" + t
    return {"k": "junk", "dt": e + draw(st.sampled_from(["i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16"])), "text": t}


@st.composite
def digits(draw):
    """the text of a number just beside (or exactly at) the middle of two neighbours, with more digits than any type has"""
    k, e = draw(st.sampled_from(["f4", "f4", "f8", "c8", "c16"])), draw(st.sampled_from(["<", ">", "=", ""]))
    def one():
        w = 24 if k in ("f4", "c8") else 53
        m = 2 * draw(st.integers(2**(w - 1), 2**w - 1)) + 1
        x = Decimal(m) * Decimal(2) ** draw(st.integers(-w - 60, 40))
        t = format(x, "f")
        if "." not in t:
            t += "."
        how = draw(st.sampled_from(["", "1", "001", "0" * 20 + "1", "down"]))
        if how == "down":
            # a little less
            i = max(j for j, c in enumerate(t) if c in "123456789")
            t = t[:i] + str(int(t[i]) - 1) + "".join("9" if c == "0" else c for c in t[i + 1:]) + "9" * draw(st.integers(1, 25))
        else:
            t += how
        return draw(st.sampled_from(["", "-"])) + t
    return {"k": "digits", "dt": e + k, "text": [one() for _ in range(2 if k[0] == "c" else 1)]}


@st.composite
def string(draw):
    k, n = draw(st.one_of(st.sampled_from([("i", 1), ("i", 2), ("i", 4), ("i", 8), ("u", 1), ("u", 2), ("u", 4), ("u", 8), ("f", 2), ("f", 4), ("f", 8), ("f", 16), ("c", 8), ("c", 16), ("b", 1)]),
                          st.tuples(st.just("S"), st.integers(1, 16)), st.tuples(st.just("S"), st.sampled_from([17, 99, 100, 255, 1000, 12345]))))
    return {"k": "string", "kind": k, "width": n, "seed": draw(gen.SEED)}


def types():
    near = st.builds(lambda p, k, w: p + k + w, st.sampled_from(["", "<", ">", "=", "|", "!", "<<", "@"]), st.sampled_from(list("SbifucSbifucVOUama ")),
                     st.one_of(st.integers(-2, 20).map(str), st.sampled_from(["", "4x", "4 ", " 4", "04", "0x4", "16", "17", "128", "99999", "1e1", "4.", "+4", "00004"])))
    return st.one_of(near, near, near, st.text(st.characters(min_codepoint=1, max_codepoint=126), max_size=12), st.text("<>=|ifSbuc0123456789", max_size=10))


@st.composite
def case(draw, tier):
    return {"sub": draw(st.lists(st.one_of(value(), value(), value(), value(), junk(), string(), digits()), min_size=1, max_size=10)), "types": draw(st.one_of(st.just([]), st.lists(types(), min_size=1, max_size=8)))}


ARMS = [Arm("serial", "serial", "c21", lambda tier: case(tier), quick=6000, thorough=90000, shards=6)]
