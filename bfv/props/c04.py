from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C04"
LEVEL = "exploration"
NOTE = 'Random and extreme strides against numpy-style index arithmetic, with red zones around the memory under AddressSanitizer.'
RULE = ("a case is an array of 1..32 dimensions with a permutation of axes, steps, padding, negative and (for writes) zero strides, a block "
        "geometry, a start row, element types on both sides and a buffer size; numpy's as_strided view is the oracle for the element order and "
        "guard bytes for everything else; non-trivial when the array has at least two elements and its strides are not the contiguous ones")
ASSUMPTIONS = ["the target of a read does not overlap itself (zero strides are generated for sources only)"]


@st.composite
def case(draw, tier):
    op = draw(st.sampled_from(["write", "read"]))
    nd = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4, 5, 8, 9, 12, 20, 31, 32]))
    dims = []
    size = 1
    for i in range(nd):
        cap = max(1, 700 // size)
        d = draw(st.one_of(st.just(1), st.integers(1, min(cap, 12)))) if nd <= 8 else draw(st.sampled_from([1, 1, 1, 1, 2 if cap >= 2 else 1]))
        if nd <= 2 and draw(st.booleans()):
            d = draw(st.integers(1, min(cap, 150)))
        if draw(st.integers(0, 60)) == 0:
            d = 0
        size *= max(d, 1)
        dims.append([d, draw(st.sampled_from([1, 1, 1, 2, 3])), draw(st.integers(0, 3)) == 0, draw(st.sampled_from([0, 0, 0, 1, 2]))])
    if nd > 5 and draw(st.integers(0, 2)):
        # contiguous but for one axis, anywhere
        odd = draw(st.integers(0, nd - 1))
        for i, d in enumerate(dims):
            if i != odd:
                d[1:] = [1, False, 0]
        dims[odd] = [2, draw(st.sampled_from([1, 2, 3])), draw(st.booleans()), draw(st.sampled_from([0, 1, 2]))]
        straight = True
    else:
        straight = False
    zero = []
    if op == "write":
        zero = [i for i in range(nd) if draw(st.integers(0, 7)) == 0]
    if straight:
        zero = [odd] if zero and zero[0] % 2 else []
    perm = list(range(nd)) if straight else draw(st.permutations(list(range(nd)))) if draw(st.integers(0, 2)) else list(range(nd))
    total = 1
    for d in dims:
        total *= d[0]
    nms = [k for k in (1, 1, 2, 3, 4, 5, 6, 7, 8) if total % k == 0]
    mt = draw(st.sampled_from(gen.NUM + ["c8", "c16", "i2", "u1", "S5", "i16"]))
    me = draw(st.sampled_from("<>"))
    if mt in gen.NUM and draw(st.booleans()):
        bt = draw(st.sampled_from(gen.NUM))
    else:
        bt = mt
    be = draw(st.sampled_from("<>"))
    if mt[0] == "S":
        be = me
    return {"op": op, "dims": dims, "zero": zero, "perm": perm, "nm": draw(st.sampled_from(nms)), "mt": me + mt, "bt": be + bt,
            "pre": draw(st.integers(0, 5)), "post": draw(st.integers(0, 5)), "cut": draw(st.lists(st.integers(0, 60), max_size=4)),
            "brows": draw(st.one_of(st.integers(1, 5), st.integers(1, 60), st.just(0))), "seed": draw(gen.SEED),
            "unit": draw(st.sampled_from([0, 0, 0, 1, 3]))}


ARMS = [Arm("strided", "serial", "c04", lambda tier: case(tier), quick=16000, thorough=200000, shards=8)]
