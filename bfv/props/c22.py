from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "property-based testing (Hypothesis) of the executables against an independent reader and writer of the format, stateful for rename/rm/repartition"
NOTE = 'Random blocks, counts, offsets, buffer and file-size limits through the built tools; results compared byte for byte by an independent reader.'
RULE = ("a case runs the built tools: bigfile-create on random input (with a partial last row, any buffer, over existing blocks, under a file "
        "size limit), bigfile-cat with random -o -c -B -f -b, bigfile-copy and bigfile-copy-mpi with random -n -B -f (also onto existing blocks, "
        "with damaged sources and onto themselves), or a history of rename, rm, repartition and copy over a tree of blocks with unusual names, and "
        "compares the tree, before and after, with an independent reader of the format; non-trivial when more than one row (or more than one successful operation) was involved")
ASSUMPTIONS = ["text output is compared for the types that can be formatted (C21)", "blocks inside blocks, block names with a leading dash, and one rank of bigfile-copy-mpi (refused) are not claimed",
               "offsets are not negative and not beyond the end"]

NAME = st.one_of(st.sampled_from(["b", "c", "g/b", "g/h/c", "*", "[a-z]", "g/$HOME", "a;b", "'q'", 'x"y', "a\\b", "`id`", "?", "é", "%s%d", "~", "!x", "#x", "a&b", "(x)", "{a,b}", "000000", "x|y", "g/-n", "b-REP"]),
                 st.text("abcgXY019_.", min_size=1, max_size=4).map(lambda s: s.replace(".", "x", 1) if s[0] == "." else s))
DT = gen.dtypes(["i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "S5", "i2", "u1"])


@st.composite
def block(draw, name=None, tame=True):
    n = draw(st.integers(0, 4))
    names = draw(st.lists(st.text("abcdxyz", min_size=1, max_size=5), min_size=n, max_size=n, unique=True))
    return {"name": name or draw(NAME), "dt": draw(DT), "nm": draw(st.sampled_from([1, 1, 2, 3, 7])), "fs": draw(gen.fsizes(small=draw(st.booleans()))),
            "seed": draw(gen.SEED), "tame": draw(st.booleans()),
            "attrs": [[x, draw(gen.dtypes(["i4", "f8", "S1", "u8", "S7", "i2"])), draw(st.integers(0, 30))] for x in names]}


@st.composite
def cat(draw, row, size):
    pos = st.one_of(st.none(), st.integers(0, size), st.integers(0, 20))
    return {"o": draw(pos), "c": draw(st.one_of(pos, st.sampled_from([0, 1, size, size + 5]))), "buf": draw(gen.buffers(row)), "text": draw(st.booleans()),
            "fmt": draw(st.sampled_from(["", "", "", "%", "%12", "%+"])), "full": draw(st.integers(0, 7)) == 0}


@st.composite
def limits(draw, total):
    if draw(st.integers(0, 3)):
        return None
    return draw(st.one_of(st.integers(0, max(1, total)), st.sampled_from([0, 10, 40, 60, 100])))


@st.composite
def case(draw, tier, mpi=False):
    op = "copy" if mpi else draw(st.sampled_from(["create", "create", "cat", "copy", "copy", "manage", "manage"]))
    if op == "create":
        dt, nm = draw(gen.dtypes(["i4", "u4", "i8", "f4", "f8", "c8", "c16", "b1", "S5", "i2", "u1"], "<>=")), draw(st.sampled_from([1, 1, 2, 3, 9]))
        if draw(st.integers(0, 5)) == 0:
            dt = dt[1:]
        row = gen.item(dt) * nm
        rows = draw(st.one_of(st.integers(0, 20), st.integers(0, 2000)))
        return {"op": op, "dt": dt, "nm": nm, "rows": rows, "extra": draw(st.one_of(st.just(0), st.integers(0, 200))), "seed": draw(gen.SEED), "tame": draw(st.booleans()),
                "buf": draw(gen.buffers(row)), "name": draw(NAME.filter(lambda n: n != "other")), "limit": draw(limits(rows * row)),
                "other": draw(st.one_of(st.none(), block(name="other"))), "over": draw(st.booleans()), "cats": draw(st.lists(cat(row, rows), max_size=2))}
    if op == "cat":
        s = draw(block())
        return {"op": op, "src": s, "cats": draw(st.lists(cat(gen.item(s["dt"]) * s["nm"], sum(s["fs"])), min_size=1, max_size=5))}
    if op == "copy":
        s = draw(block())
        row = gen.item(s["dt"]) * s["nm"]
        fault = draw(st.sampled_from([None] * 9 + ["short", "missing", "noblock", "self", "destfile"]))
        dst = draw(NAME.filter(lambda n: n != "zz"))
        a, b = s["name"], dst
        if a == b or a.startswith(b + "/") or b.startswith(a + "/"):
            dst = "to/" + "new"
        return {"op": op, "src": s, "dst": dst, "n": draw(st.one_of(st.just(0), st.integers(1, 12), st.integers(1, 40))), "buf": draw(gen.buffers(row)),
                "elsewhere": draw(st.booleans()), "exists": draw(st.one_of(st.none(), block())) if draw(st.booleans()) else None, "fault": fault,
                "pick": draw(st.integers(0, 1000)), "limit": draw(limits(sum(s["fs"]) * row)), "np": draw(st.sampled_from([2, 2, 3, 4, 1])) if mpi else 0}
    which = st.one_of(st.integers(0, 9), st.sampled_from(["missing", "g/nothing", "x*"]))
    ops = st.one_of(st.tuples(st.just("rename"), st.integers(-1, 9), st.one_of(NAME, st.integers(0, 9), st.tuples(st.integers(0, 9)).map(list))),
                    st.tuples(st.just("rm"), st.lists(which, min_size=1, max_size=3)),
                    st.tuples(st.just("repart"), st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(-2, 9)), st.lists(which, max_size=3), st.booleans(), st.one_of(st.none(), st.none(), st.integers(0, 100))),
                    st.tuples(st.just("copy"), st.integers(0, 9), NAME)).map(list)
    return {"op": "manage", "blocks": draw(st.lists(block(), min_size=1, max_size=5)), "ops": draw(st.lists(ops, min_size=1, max_size=5))}


def refusals(tier):
    R = lambda t, *a, may=(): {"op": "refuse", "tool": t, "args": list(a), "may": list(may)}
    return [R("bigfile-create", "@/plain/f", "x", "i4"), R("bigfile-create", "@/r", "x", "q4", may=["r/x"]), R("bigfile-create", "@/r", "x", "i400", may=["r/x"]),
            R("bigfile-create", "-n", "0", "@/r", "x", "i4"), R("bigfile-create", "-n", "-3", "@/r", "x", "i4"), R("bigfile-create", "@/r", "x"), R("bigfile-create", "@/r", "b", "q4"),
            R("bigfile-create", "@/r", "a b", "i4", may=["r/a b"]),
            R("bigfile-cat", "@/none", "b"), R("bigfile-cat", "@/r", "none"), R("bigfile-cat", "@/r"), R("bigfile-cat", "-Z", "@/r", "b"),
            R("bigfile-copy", "@/none", "b", "c"), R("bigfile-copy", "@/r", "none", "c"), R("bigfile-copy", "@/r", "b", "b"), R("bigfile-copy", "-n", "0", "@/r", "b", "c"),
            R("bigfile-copy", "-n", "-1", "@/r", "b", "c"), R("bigfile-copy", "-f", "@/plain/x", "@/r", "b", "c"), R("bigfile-copy", "@/r", "b"),
            R("bigfile-rename", "@/r", "none", "c"), R("bigfile-rename", "@/r", "b", "b"), R("bigfile-rename", "@/r", "b", "no/such"), R("bigfile-rename", "@/r", "b", "b/c"), R("bigfile-rename", "@/r", "b"),
            R("bigfile-rename", "@/r", "", "x"),
            R("bigfile-rm", "@/r", "none"), R("bigfile-rm", "@/none", "b"), R("bigfile-repartition", "@/none", "2"), R("bigfile-repartition", "@/r", "2", "none"),
            R("bigfile-repartition", "@/r", "0", "b"), R("bigfile-repartition", "@/r", "x"), R("bigfile-repartition", "@/r", "", "b"), R("bigfile-repartition", "@/r"), R("bigfile-repartition", "-z", "@/r", "2"),
            R("bigfile-repartition"), R("bigfile-check"), R("bigfile-check", "-z", "@/r")] + large()


def large():
    """more rows than fit in 16 bits"""
    src = {"name": "b", "dt": "<i4", "nm": 1, "fs": [70001, 3], "seed": 11, "tame": True, "attrs": [["k", "<f8", 2]]}
    q = lambda o, c, text: {"o": o, "c": c, "buf": 0, "text": text, "fmt": "", "full": False}
    many = {"name": "b", "dt": "<u1", "nm": 1, "fs": [500000], "seed": 12, "tame": False, "attrs": []}
    return [{"op": "copy", "src": many, "dst": "c", "n": 5000, "buf": 0, "elsewhere": False, "exists": None, "fault": None, "pick": 1, "limit": None, "np": 0},
            {"op": "copy", "src": many, "dst": "c", "n": 5000, "buf": 0, "elsewhere": False, "exists": None, "fault": None, "pick": 1, "limit": None, "np": 3},
            {"op": "manage", "blocks": [many], "ops": [["repart", 4999, ["b"], False, None]]},
            {"op": "cat", "src": src, "cats": [q(None, None, True), q(66000, None, False), q(65530, 10, True)]},
            {"op": "copy", "src": src, "dst": "c", "n": 3, "buf": 0, "elsewhere": False, "exists": None, "fault": None, "pick": 1, "limit": None, "np": 0},
            {"op": "copy", "src": src, "dst": "c", "n": 3, "buf": 30000, "elsewhere": False, "exists": None, "fault": None, "pick": 1, "limit": None, "np": 3},
            {"op": "create", "dt": "u1", "nm": 1, "rows": 70001, "extra": 0, "seed": 3, "tame": True, "buf": 0, "name": "b", "limit": None, "other": None, "over": False, "cats": []},
            {"op": "create", "dt": "<f8", "nm": 3, "rows": 40001, "extra": 7, "seed": 3, "tame": True, "buf": 1000, "name": "b", "limit": None, "other": None, "over": False, "cats": []}]


ARMS = [Arm("tools", "cli", "c22", lambda tier: case(tier), quick=900, thorough=20000, shards=6, corners=refusals),
        Arm("mpi", "cli", "c22", lambda tier: case(tier, mpi=True), quick=36, thorough=900, shards=3, timeout=90)]
