from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: random count matrices, element sizes and layouts on 1-9 ranks against the bytes sent"
NOTE = "Random count matrices, element sizes, displacements, values and sizes on 1-9 ranks against the bytes sent and the stated rules of the segmenter."
RULE = ("a case is an all-to-all exchange (any count matrix, element sizes on both sides with and without padding, explicit, permuted, gapped or computed displacements, all three policies), a gather "
        "followed by a scatter, a minimum or maximum to locate, or sizes to segment; the oracle is the bytes every pair exchanged, the values' first position, and the rules of "
        "the segmenter; non-trivial when several ranks took part and some counts were zero and others not, values differed, or more than one segment was made")
ASSUMPTIONS = ["values without NaN or negative zero for the location", "counts that fit an int", "displacements that do not overlap"]


@st.composite
def case(draw, tier):
    np_ = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 5, 6, 7]))
    k = draw(st.sampled_from(["exchange", "exchange", "exchange", "gather", "gather", "getloc", "segment", "segment"]))
    c = {"k": k, "np": np_}
    cnt = draw(st.sampled_from([st.integers(0, 3), st.sampled_from([0, 0, 0, 1, 2]), st.sampled_from([0, 1, 40]), st.sampled_from([0, 0, 3, 2000])]))
    if k == "exchange":
        c.update(counts=[[draw(cnt) for _ in range(np_)] for _ in range(np_)], unit=draw(st.sampled_from([1, 1, 2, 3, 4, 8, 24])), ses=draw(st.integers(1, 3)), res=draw(st.integers(1, 3)),
                 rcnt=draw(st.booleans()), sdis=draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)), rdis=draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)),
                 none=draw(st.integers(0, 3)), seed=draw(gen.SEED),
                 shape=draw(st.one_of(st.just([0, 0, 0, 0]), st.lists(st.sampled_from([0, 0, 1, 4, 13]), min_size=4, max_size=4))))
    elif k == "gather":
        c.update(counts=[[draw(cnt) for _ in range(np_)]], unit=draw(st.sampled_from([1, 2, 3, 4, 8, 24, 100])), ses=draw(st.integers(1, 3)), root=draw(st.integers(0, 8)), none=draw(st.integers(0, 7)), seed=draw(gen.SEED))
    elif k == "getloc":
        c.update(type=draw(st.integers(0, 4)), op=draw(st.integers(0, 1)), vals=draw(st.lists(draw(st.sampled_from([st.integers(-3, 3), st.integers(0, 1), st.integers(-2**30, 2**30)])), min_size=np_, max_size=np_)))
    else:
        sz = draw(st.sampled_from([st.integers(0, 3), st.sampled_from([0, 0, 1, 10]), st.integers(0, 100), st.sampled_from([0, 2**33, 5])]))
        sizes = [draw(sz) for _ in range(np_)]
        s2 = [draw(sz) for _ in range(np_)] if draw(st.booleans()) else None
        c.update(sizes=sizes, sizes2=s2, ngroup=draw(st.sampled_from([1, 2, 3, np_, np_ + 2, 100])), avg=draw(st.one_of(st.integers(0, 20), st.integers(0, max(1, sum(sizes))))))
    return c


ARMS = [Arm("mpi", "mpi9", "c25", lambda tier: case(tier), quick=4000, thorough=80000, shards=2, timeout=60)]
