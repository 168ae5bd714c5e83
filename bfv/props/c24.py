from hypothesis import strategies as st
from .. import gen
from ..engine import Arm
from .c17 import KINDS, LAYOUTS, nms

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing of the Python binding under MPI, differential against numpy, the serial binding and an independent reader of the files"
NOTE = "Generated histories of collective Python operations on 1 to 5 ranks: views compared across ranks, files compared with numpy and with what the serial binding writes, refusals required on every rank."
RULE = ("a case runs up to eight collective operations on 1 to 5 ranks: create with distributed writes (rows in up to three parts with flushes between them, attributes set on all or only the "
        "root rank, flush, close or both), create_from_array with any distribution, number of files and memory limit, open and read, subfiles, datasets, reopening, and requests that must raise on "
        "every rank (missing or damaged blocks, names that differ, one rank that fails alone, files in the way); after each all ranks compare their views and the files are read independently; "
        "non-trivial when more than one rank held rows")
ASSUMPTIONS = ["ranks pass the same arguments where collective semantics need it", "every row is written once per block", "only the attributes of the root rank are saved"]

NAME = st.sampled_from(["a", "b", "c", "g/a", "g/b", "h/i/j", "é", "000000", "x" * 60])


def dts():
    # the padding of long double is arbitrary
    return st.builds(lambda e, k: e + k, st.sampled_from("<>"), st.sampled_from([k for k in KINDS if k != "f16"]))


def sizes():
    return st.one_of(st.integers(0, 12), st.integers(0, 40), st.integers(0, 300))


@st.composite
def op(draw):
    k = draw(st.sampled_from(["create", "create", "create", "fromarray", "fromarray", "open", "open", "open", "refuse", "refuse", "reopen", "sub", "dataset"]))
    if k == "create":
        n = draw(sizes())
        return [k, draw(NAME), draw(dts()), draw(nms()), n, draw(st.one_of(st.integers(1, 12), st.just(1))) if n or draw(st.booleans()) else 0, draw(gen.SEED), draw(st.sampled_from(LAYOUTS)), draw(gen.SEED),
                draw(st.sampled_from([1, 1, 1, 2, 3])), draw(st.sampled_from(["close", "close", "with", "flush", "twice"])), draw(st.lists(st.integers(0, 500), max_size=3)), draw(st.integers(0, 3))]
    if k == "fromarray":
        n = draw(st.one_of(sizes(), sizes(), st.sampled_from([1024, 3000])))
        lim = draw(st.sampled_from(["row", "k", "tiny", "1023", "default"] if n <= 300 else ["1023", "1025", "default"]))
        return [k, draw(NAME), draw(dts()), draw(nms()), n, draw(st.one_of(st.none(), st.integers(1, 12))), draw(gen.SEED), draw(st.sampled_from(LAYOUTS)), draw(gen.SEED), lim, draw(st.booleans())]
    if k == "open":
        return [k, draw(st.integers(0, 5)), draw(st.integers(0, 60)), draw(st.integers(0, 20)), draw(st.integers(0, 1)), draw(st.booleans()), draw(st.lists(st.integers(0, 500), max_size=2))]
    if k == "refuse":
        return [k, draw(st.sampled_from(["openmissing", "names", "existing", "createnames", "filenames", "file", "fileplain", "subfile", "files", "type", "blank", "inblock", "onerank", "fileonerank", "damaged", "gone", "badname"])), draw(st.integers(0, 15))]
    return [k, draw(st.integers(0, 5)), draw(st.integers(0, 40))]


@st.composite
def case(draw, tier):
    first = draw(op().filter(lambda o: o[0] in ("create", "fromarray")))
    return {"np": draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5])), "buf": draw(st.sampled_from([0, 0, 1, 100, 1000])), "ops": [first] + draw(st.lists(op(), max_size=7))}


ARMS = [Arm("mpi", "mpi5", "c24", lambda tier: case(tier), quick=900, thorough=16000, shards=4, timeout=60)]
