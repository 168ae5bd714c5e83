from hypothesis import strategies as st
from .. import gen
from ..engine import Arm

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing of generated per-thread histories run concurrently, against per-thread models, under ThreadSanitizer and AddressSanitizer"
NOTE = "Generated histories of 2 to 8 threads on blocks of their own run at once, checked against each thread's own model, for data races and memory errors, and on disk."
RULE = ("a case is a history per thread (creating in common new groups, writing, reading, growing, attributes, flushing, reopening, listing, reading a shared block, failing calls of all kinds), "
        "with barriers between rounds and optional jitter; every call must give what the thread's own history says, the disk must hold it, no data race or memory error may be "
        "reported; non-trivial when at least two threads did something")
ASSUMPTIONS = ["no thread reads the error message while others may raise errors (the message is owned by the library)", "schedules are those the machine and the injected jitter produce; races are found by ThreadSanitizer's happens-before analysis, not only when they bite"]

DT = ["<i4", "<f8", ">i4", ">f8", "<i8", "<f4", ">f4"]


@st.composite
def op(draw):
    k = draw(st.sampled_from(["create", "create", "write", "write", "read", "read", "grow", "attr", "attr", "getattr", "rmattr", "flush", "reopen", "reopen", "list", "shared", "shared",
                              "badopen", "badopen", "badfile", "badtype", "badseek", "badread", "badread", "badwrite", "msg"]))
    s = draw(st.integers(0, 2))
    if k == "create":
        return create(draw, s)
    if k == "write":
        return [k, s, draw(st.integers(0, 60)), draw(st.integers(1, 40)), draw(st.sampled_from(DT)), draw(st.integers(0, 1000))]
    if k in ("read", "shared"):
        r = [draw(st.integers(0, 60)), draw(st.integers(1, 40)), draw(st.sampled_from(DT))]
        return [k, s] + r
    if k == "grow":
        return [k, s, draw(st.lists(st.integers(0, 9), max_size=3)), draw(st.integers(0, 1000))]
    if k == "attr":
        return [k, s, draw(st.sampled_from(["a", "b", "c"])), draw(st.sampled_from(DT)), draw(st.sampled_from([1, 2, 2, 2, 40])), draw(st.integers(0, 1000))]
    if k == "getattr":
        return [k, s, draw(st.sampled_from(["a", "b", "c"])), draw(st.sampled_from(DT))]
    if k == "rmattr":
        return [k, s, draw(st.sampled_from(["a", "b", "c"]))]
    return [k, s, draw(st.integers(0, 9))]


def create(draw, s):
    return ["create", s, draw(st.sampled_from(["", "g", "g", "h"])), draw(st.sampled_from(DT)), draw(st.integers(1, 3)), draw(st.one_of(st.lists(st.integers(0, 12), max_size=4), st.just([60, 3]))), draw(st.integers(1, 4))]


@st.composite
def case(draw, tier, san):
    nt = draw(st.sampled_from([2, 2, 3, 4, 6, 8]))
    rounds = []
    for r in range(draw(st.integers(1, 4))):
        crowd = draw(st.integers(0, 2)) == 0
        ops = []
        if crowd:
            # everyone does the same kind of thing at once
            o = [draw(op()) for _ in range(draw(st.integers(1, 6)))]
            if draw(st.booleans()):
                o.insert(0, create(draw, draw(st.integers(0, 2))))
            ops = [o] * nt
        else:
            ops = [draw(st.lists(op(), max_size=12)) for _ in range(nt)]
        if r == 0:
            ops = [[create(draw, 0)] + x for x in ops]
        rounds.append({"ops": ops, "crowd": crowd})
    return {"nt": nt, "shared": draw(st.sampled_from([0, 1])), "buf": draw(st.sampled_from([0, 0, 64, 4096])), "jitter": draw(st.integers(0, 2)), "san": san, "rounds": rounds}


def corners(tier, san):
    out = []
    for sh in (0, 1):
        # many rounds of creating in the same new groups, and of errors at once
        cr = ["create", 0, "g", "<i4", 1, [5, 4], 3]
        rounds = [{"ops": [[["create", i % 3, "g", "<i4", 1, [5, 4], 4]]] * 8, "crowd": True} for i in range(3)]
        out.append({"nt": 8, "shared": sh, "buf": 0, "jitter": 0, "san": san, "rounds": rounds})
        bad = [["badopen", 0, 1], ["badfile", 0, 1], ["badseek", 0, 1], ["badread", 0, 1], ["badwrite", 0, 1], ["msg", 0, 0], ["badtype", 0, 1]] * 8
        out.append({"nt": 8, "shared": sh, "buf": 0, "jitter": 0, "san": san, "rounds": [{"ops": [[cr] + bad] * 8, "crowd": True}, {"ops": [bad] * 8, "crowd": True}]})
        rw = [["write", 0, 0, 9, ">f8", 3], ["read", 0, 0, 9, "<f4"], ["attr", 0, "a", ">i4", 4, 4], ["getattr", 0, "a", "<f8"], ["flush", 0, 0], ["reopen", 0, 0], ["list", 0, 0], ["shared", 0, 1, 30, ">i4"], ["grow", 0, [2, 3], 5]] * 3
        out.append({"nt": 6, "shared": sh, "buf": 32, "jitter": 1, "san": san, "rounds": [{"ops": [[cr] + rw] * 6, "crowd": True}, {"ops": [rw] * 6, "crowd": True}]})
    return out


ARMS = [Arm("tsan", "threads", "c27", lambda tier: case(tier, "thread"), quick=300, thorough=6000, shards=4, corners=lambda tier: corners(tier, "thread")),
        Arm("asan", "threads", "c27", lambda tier: case(tier, "address"), quick=500, thorough=9000, shards=3, corners=lambda tier: corners(tier, "address"))]
