from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: random histories of record calls against a model of columns, serially and collectively"
NOTE = "Random record types and histories of creating, appending, writing and reading records against a model of the columns, checked on disk by an independent reader after every call."
RULE = ("a case is a record type and a history of create, append, write and read through it and through record types made of some fields in another order or type, "
        "at positions from either end, also out of range, with missing columns or modes that do not exist, and of single field accesses; serially, or by 1-6 ranks each "
        "with its own part; the oracle is a model of the columns compared with the files after every call, with a column that is no field beside them; non-trivial when "
        "records of at least two fields were both written and read")
ASSUMPTIONS = ["field types of at most 7 characters (documented by the array size)", "fields have at least one member"]


@st.composite
def case(draw, tier, mpi=False):
    nf = draw(st.integers(1, 6))
    names = draw(st.lists(gen.names(maxlen=60), min_size=nf, max_size=nf, unique=True))
    names = [n if n not in ("attr-v2", "attr", "bystander!", "absent!") else n + "_" for n in names]
    names = list(dict.fromkeys(names))
    fields = [[n, draw(gen.dtypes(["i4", "f8", "u1", "c16", "S5", "i2", "u8", "f4", "i8", "u4", "S1", "b1"])), draw(st.sampled_from([1, 1, 2, 3, 5]))] for n in names]
    if draw(st.integers(0, 11)) == 0:
        # long records
        fields[draw(st.integers(0, len(fields) - 1))][2] = draw(st.sampled_from([127, 128, 130, 255, 256, 300, 1000, 9000]))
    fs = draw(st.one_of(st.lists(st.integers(0, 12), min_size=1, max_size=4), gen.fsizes(small=True)))
    ops = [["create", fs]] if draw(st.integers(0, 9)) else []
    total = sum(fs) if ops else 0
    sub = st.lists(st.tuples(st.integers(0, 5), st.one_of(st.none(), st.none(), st.integers(0, 11))).map(list), min_size=1, max_size=6)
    full = st.just([[i, None] for i in range(len(names))])
    if draw(st.integers(0, 4)):
        ops.append(["w", draw(full), 0, 10**4, draw(gen.SEED), ""])
    for _ in range(draw(st.integers(2, 6 if mpi else 9))):
        k = draw(st.sampled_from(["w", "w", "w", "r", "r", "r", "append", "append", "one", "create", "mode", "r", "r"]))
        if k in ("create", "append"):
            if k == "create" and draw(st.integers(0, 6)):
                k = "append"
            g = draw(st.lists(st.integers(0, 8), max_size=3))
            ops.append([k, g])
            total = sum(g) + (total if k == "append" else 0)
        elif k == "one":
            ops.append([k, draw(st.integers(0, 3)), draw(st.integers(0, 5)), draw(gen.SEED)])
        elif k == "mode":
            ops.append([k, draw(st.sampled_from(["w", "a", "", "r+", "w++"]))])
        else:
            at = draw(st.one_of(st.integers(0, max(total, 1)), st.integers(-total - 1, total + 1), st.just(0), st.just(0)))
            n = draw(st.one_of(st.integers(0, 20), st.just(total), st.just(10**3)))
            extra = draw(st.sampled_from([""] * 12 + ["beyond", "absent"]))
            if extra == "beyond":
                n = min(n, 60)
            ops.append([k, draw(st.one_of(full, sub, sub)), at, n, draw(gen.SEED), extra])
    item = sum(gen.item(d) * m for _, d, m in fields)
    c = {"fields": fields, "how": draw(st.integers(0, 7)), "ops": ops, "buf": draw(st.sampled_from([0, 0, 160, 400, item * 3]))}
    if mpi:
        c["np"] = draw(st.integers(1, 6))
        c["threshold"] = draw(st.sampled_from([0, 0, 1, 3, 10, 32 * 2**20]))
    return c


ARMS = [Arm("serial", "serial", "c16", lambda tier: case(tier), quick=4000, thorough=60000, shards=4),
        Arm("mpi", "mpi6", "c16", lambda tier: case(tier, mpi=True), quick=500, thorough=8000, shards=1)]
