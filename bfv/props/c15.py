from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: random collective histories, all ranks' views compared with a model and with a fresh serial open"
NOTE = "Random collective histories on 1-6 ranks; after every step all ranks' views are compared with a model, and after every flush with a fresh serial open of the files."
RULE = ("a case is a history of collective create (by file sizes or by a total), grow (both kinds), write, flush, reopen and of attribute changes made on all ranks, on the "
        "root rank only, on another rank only, or differently per rank; after each step every rank's view (type, members, per-file sizes, total, all attributes) is "
        "compared with the model, and after every flush or open the files opened serially; non-trivial when views of several ranks were compared and there were attributes "
        "or grown files")
ASSUMPTIONS = ["between flushes ranks may differ in attributes they set themselves; the root rank's are the ones kept (documented)",
               "checksums in memory are partial on ranks other than the root; those on disk are compared with the data"]


@st.composite
def case(draw, tier):
    name = draw(st.sampled_from(["b", "b", "a/b", "x/y/z", ".", "b%s", "n" * 100]))
    meta = name == "."
    dt = None if meta else draw(gen.dtypes(["i4", "f8", "u1", "c16", "S5", "i2"]))
    nm = 0 if meta else draw(st.sampled_from([0, 1, 1, 2, 3, 12]))
    huge = nm > 0 and draw(st.integers(0, 7)) == 0
    fs = [] if meta else draw(gen.fsizes(small=True, huge=huge, minfiles=0))
    if nm == 0:
        fs = [0] * len(fs)
    total = None
    if fs and nm and draw(st.integers(0, 2)) == 0:
        total = draw(st.one_of(st.integers(0, 100), st.sampled_from([2**31 + 5, 2**33 + 1]) if huge else st.integers(0, 40)))
    huge = huge or (total or 0) > 10**6
    ops = []
    names = draw(st.lists(gen.attrnames(), min_size=1, max_size=4, unique=True))
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.sampled_from(["attr", "attr", "attr", "attr", "rm", "fl", "grow", "growsize", "w", "w", "re", "re"]))
        if k == "attr":
            ops.append([k, draw(st.sampled_from(["all", "all", "root", "other", "differ"])), draw(st.sampled_from(names)),
                        draw(gen.dtypes(["i4", "f8", "u1", "c8", "S1", "S13", "b1", "S16"])), draw(st.sampled_from([0, 1, 1, 2, 3, 40, 300])), draw(gen.SEED)])
        elif k == "rm":
            ops.append([k, draw(st.integers(0, 5)), draw(st.booleans())])
        elif k == "grow":
            g = draw(st.one_of(st.lists(st.integers(0, 6), max_size=5), st.lists(st.just(1), min_size=10, max_size=20)))
            ops.append([k, g if nm else [0] * len(g)])
        elif k == "growsize":
            ops.append([k, draw(st.integers(1, 9)), draw(st.integers(0, 40)) if nm else 0])
        elif k == "w":
            ops.append([k, draw(gen.SEED), draw(st.sampled_from([0, 1, 2]))])
        else:
            ops.append([k])
    return {"name": name, "dt": dt, "nm": nm, "fs": fs, "total": total, "huge": huge, "np": draw(st.sampled_from([1, 2, 3, 4, 5, 6, 6])),
            "threshold": draw(st.sampled_from([0, 0, 10, 32 * 2**20])), "refile": draw(st.booleans()), "ops": ops}


ARMS = [Arm("mpi", "mpi6", "c15", lambda tier: case(tier), quick=1200, thorough=20000, shards=2, timeout=60)]
