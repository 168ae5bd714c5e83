from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated names of any bytes and lengths in generated sequences of failing calls, under AddressSanitizer and UBSan"
NOTE = "Generated paths, block names, attribute names and messages of any bytes and lengths in sequences of failing calls, each followed by correct calls that must succeed."
RULE = ("a case is a file at a generated path and a sequence of failing calls (missing, too long, in the way, malformed, beyond the end, unsupported types, unwritable), each of which "
        "must return nonzero and leave a message of its own that names what is involved; correct calls in between and at the end must succeed; non-trivial when at least one call failed as it must")
ASSUMPTIONS = ["names are without NUL and, where a block is created, without blanks (documented)", "read only as far as the public API shows"]

OPS = ["openfile", "openfile_under", "createlong", "openlong", "openblock", "blank", "badtype", "inway", "header", "getattr", "beyond", "physical", "flush", "set"]


def raw(minsize=1, maxsize=20, alphabet=None):
    return st.text(st.characters(min_codepoint=33, max_codepoint=255, exclude_characters="/\x7f\x85\xa0"), min_size=minsize, max_size=maxsize)


@st.composite
def name(draw, long=True):
    n = draw(st.one_of(st.text("abcXY", min_size=1, max_size=4), raw(), st.lists(st.sampled_from(["%s", "%n", "%d", "%", "%100000d", "%p", "x", "\xff", "\xc3\xa9", "%5$s"]), min_size=1, max_size=12).map("".join),
                       raw(60, 230) if long else raw(), st.integers(100, 240).map(lambda k: "q" * k)))
    n = n.replace("/", "_").lstrip(".") or "x"
    if n in ("header", "attr", "attr-v2"):
        n += "_"
    return n[:240]


@st.composite
def case(draw, tier):
    root = draw(st.lists(name(), min_size=1, max_size=draw(st.sampled_from([1, 1, 3, 12]))))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(OPS))
        x = draw(name())
        if k in ("set", "getattr"):
            # these may be of any length
            m = draw(st.sampled_from([1, 1, 1, 3, 40, 100] if k == "getattr" else [1, 1, 3, 20]))
            x = (x * m)[:7000 if k == "set" else 30000]
        if k == "getattr" and x in ("a0", "a99"):
            x += "_"
        if k in ("openfile", "openblock", "inway", "getattr"):
            x = "no" + x[:238] if k != "getattr" else "no" + x
        ops.append([k, x])
    return {"root": root, "name": draw(name())[:200], "ops": ops, "each": draw(st.booleans())}


@st.composite
def cli(draw, tier):
    return {"root": "r" + draw(name())[:200], "name": "n" + draw(name())[:200], "miss": "m" + draw(name())[:200],
            "tools": draw(st.lists(st.sampled_from(["cat", "ls", "check", "get", "set", "copy"]), min_size=1, max_size=2, unique=True))}


def corners(tier):
    return [{"root": ["r"], "name": n, "ops": [[k, x] for k in OPS], "each": False} for n, x in (("b", "%s%n%d"), ("%n", "x" * 240), ("\xc3\xa9\xff", "\xc3\xa9%s"), ("b" * 200, "q" * 200))]


ARMS = [Arm("serial", "serial", "c26", lambda tier: case(tier), quick=2500, thorough=40000, shards=4, corners=corners),
        Arm("cli", "cli", "c26c", lambda tier: cli(tier), quick=120, thorough=2500, shards=4)]
