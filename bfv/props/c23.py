from hypothesis import strategies as st
from .. import gen
from ..engine import Arm
from .c22 import NAME

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing (Hypothesis) of the executables against a model of the attributes and an independent reader and writer of the format"
NOTE = 'Random histories of the built set-attr, get-attr and ls over random block trees; attributes and output compared with a model, failures must leave every byte unchanged.'
RULE = ("a case is a tree of blocks with attributes (of both formats) and a history of up to eight calls of bigfile-set-attr (new, existing, forced, typed and untyped, matching and "
        "mismatching counts, values that do not parse, invalid types, missing blocks, a file size limit), bigfile-get-attr and bigfile-ls (long and short); after each the attribute "
        "files are read independently and every other byte of the tree is compared; non-trivial when more than one attribute or value was involved")
ASSUMPTIONS = ["values in the range of the type and single texts for S1", "types that cannot be formatted are not printed", "no hidden blocks, no blocks in blocks"]

KEY = st.one_of(st.text("abcxyz", min_size=1, max_size=4), st.text("abcdefghij", min_size=20, max_size=40), st.sampled_from(["-n", "-t", "%s%d", "k", "a=b", "é", "[", "#HUMANE", "A.b", "x/y", "*"]),
                gen.attrnames().filter(lambda s: "\0" not in s))
# checksums stored in the header: the sums of large files
CK = st.one_of(st.sampled_from([0, 65535, 65536, 2**32 - 1, 2**31, 0xffff0000, 0xfffe0001, 0x10000 + 0xffff]), st.integers(0, 65537).map(lambda x: x * 65535), st.integers(0, 2**32 - 1))
LONG = st.lists(st.tuples(st.sampled_from("abc"), st.integers(1, 200)).map(lambda x: x[0] * x[1]), min_size=1, max_size=5).map("/".join)
SHOWN = ["i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "S1", "S1", "S7"]


@st.composite
def block(draw):
    n = draw(st.integers(0, 6))
    names = draw(st.lists(KEY, min_size=n, max_size=n, unique=True))
    both = [[x, draw(gen.dtypes(SHOWN)), draw(st.sampled_from([1, 1, 2, 3, 0, 17, 60]))] for x in names]
    k = draw(st.sampled_from([n, n, n, n // 2]))
    return {"name": draw(st.one_of(NAME, NAME, NAME, LONG)), "dt": draw(gen.dtypes()), "nm": draw(st.sampled_from([1, 2, 3, 11])), "fs": draw(gen.fsizes(small=draw(st.booleans()))), "seed": draw(gen.SEED),
            "claim": draw(st.sampled_from([0, 0, 0, 2**31 - 1, 2**31, 3 * 10**9, 2**32, 2**32 + 7, 10**11])), "carry": draw(st.booleans()), "cks": draw(st.one_of(st.none(), st.lists(CK, min_size=1, max_size=4))), "attrs": both[:k], "v1": both[k:]}


@st.composite
def step(draw):
    o = draw(st.sampled_from(["set", "set", "set", "get", "ls"]))
    r = {"op": o, "at": draw(st.integers(-1, 20)), "nofile": draw(st.integers(0, 19)) == 0}
    who = st.one_of(st.integers(0, 9), st.integers(0, 9), KEY)
    if o == "ls":
        r.update(long=draw(st.booleans()), one=draw(st.booleans()))
    elif o == "get":
        r.update(long=draw(st.booleans()), attrs=draw(st.lists(who, max_size=3)))
    else:
        good = gen.dtypes(["i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "S1", "S1"], ["<", ">", "=", ""])
        dt = draw(st.one_of(st.none(), good, good, st.sampled_from(["i2", "u1", "f2", "x4", "", "i", "4", "q8", "i-4", "i0", "<", "float", "i4444444444"]) if draw(st.integers(0, 2)) == 0 else good))
        v = st.one_of(st.integers(-2**63, 2**64 - 1), st.integers(-10, 100))
        r.update(attr=draw(who), dt=dt, n=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5, -1])), force=draw(st.integers(0, 4)) == 0, fit=draw(st.integers(0, 4)) > 0,
                 vals=[list(x) for x in draw(st.lists(st.tuples(v, st.integers(0, 63)), min_size=1, max_size=draw(st.sampled_from([1, 3, 3, 40]))))],
                 text=draw(st.one_of(st.text("abc 123", max_size=10), st.text(st.characters(min_codepoint=1, max_codepoint=0x2fff, exclude_categories=("Cs",)), max_size=30))),
                 bad=draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 99))), dash=draw(st.booleans()),
                 limit=draw(st.one_of(st.none(), st.none(), st.none(), st.none(), st.integers(0, 400))))
    return r


@st.composite
def case(draw, tier):
    return {"blocks": draw(st.lists(block(), min_size=1, max_size=4)), "stray": draw(st.sampled_from([0, 0, 1, 3])), "ops": draw(st.lists(step(), min_size=1, max_size=8))}


ARMS = [Arm("tools", "cli", "c23", lambda tier: case(tier), quick=1500, thorough=24000, shards=8)]
