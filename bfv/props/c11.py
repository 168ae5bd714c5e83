import glob, os, subprocess
from hypothesis import strategies as st
from .. import build, gen
from ..engine import Arm

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "grammar-based and coverage-guided (libFuzzer) fuzzing of the metadata files under AddressSanitizer with a consistency oracle"
NOTE = ("Headers and attribute files are generated from their grammar with wrong, extreme, missing and repeated fields, then mutated in bytes; "
        "accepted blocks are walked with every accessor, changed, flushed and reopened under AddressSanitizer; so are the contents libFuzzer collects for the code they reach.")
RULE = ("a case replaces the header, the attr-v2 or the legacy attr file of a block (or several) by generated bytes and opens it; non-trivial when it was accepted, "
        "or rejected although derived from the grammar")
ASSUMPTIONS = ["allocations above 4 GB fail (limit of the sanitizer), as they would on a machine short of memory"]

INTS = st.one_of(st.integers(-3, 40).map(str), st.sampled_from(
    ["2147483647", "2147483646", "2147483648", "4294967295", "4294967296", "-2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551615",
     "99999999999999999999999", "00", "007", "+3", "0x10", "1e3", "", "x", "-", "3.5", " 2", "1000000", "536870912", "-0"]))
GOOD = st.sampled_from(["<i4", "<i4", ">f8", "|S1", "=u8", "i4", "<c16", "|b1", "<u2", "a1", "<a3"])
TYPES = st.one_of(GOOD, GOOD, st.sampled_from(
    ["", "<", "<i", "<i0", "<i-4", "<S99999", "<S999999", "<i4x", "####", "%s%n", "<i4 ", "<f16", "<x4", ">>4", "4", "i", "<i44444444", "|O8", "<i04", "S", "|S0", "<c8", "é4", "\x00i4",
     "<i2147483647", "<S1000000", "<i4\t", "a", "<U4"]))


@st.composite
def header(draw):
    n = draw(st.integers(0, 4))
    nfile = draw(st.one_of(st.just(str(n)), st.just(str(n)), st.just(str(n)), INTS))
    sep = draw(st.sampled_from(["\n", "\n", "\n", "\r\n", " ", "", "\n\n", "\t"]))
    t = [draw(st.sampled_from(["DTYPE: ", "DTYPE: ", "DTYPE: ", "DTYPE:", "dtype: ", "", "DTYPE "])) + draw(TYPES),
         draw(st.sampled_from(["NMEMB: ", "NMEMB: ", "NMEMB: ", "NMEMB:", "NMEM: "])) + draw(st.one_of(st.integers(0, 3).map(str), INTS)),
         draw(st.sampled_from(["NFILE: ", "NFILE: ", "NFILE: ", "NFILE:", "NFIL: "])) + nfile]
    for i in range(draw(st.sampled_from([n, n, n, max(0, n - 1), n + 1]))):
        idx = draw(st.one_of(st.just("%06X" % i), st.just("%06X" % i), st.sampled_from(["000000", "FFFFFF", "-1", "00000G", "7FFFFFFF", "80000000", "FFFFFFFFF", "", "000001", "ffffff", "0x1"])))
        sz = draw(st.one_of(st.integers(0, 30).map(str), st.integers(0, 30).map(str), INTS))
        t.append("%s: %s : %s : %s" % (idx, sz, draw(st.one_of(st.just("5"), INTS)), draw(st.one_of(st.just("5"), INTS))))
    if draw(st.integers(0, 9)) == 0:
        t = draw(st.permutations(t))
    s = sep.join(t) + draw(st.sampled_from([sep, sep, ""]))
    return s


@st.composite
def attrline(draw):
    name = draw(st.one_of(st.text("abz", max_size=3), st.sampled_from(["", "a", "%n", "\x00", "x" * 500, "zz~new", "\xff", "a\tb"])))
    dt = draw(TYPES)
    try:
        w = max(0, int(dt.lstrip("<>=|")[1:]))
    except ValueError:
        w = 4
    w = min(w, 300)
    n = draw(st.integers(0, 5))
    nm = draw(st.one_of(st.just(str(n)), st.just(str(n)), st.just(str(n)), INTS))
    hexd = draw(st.one_of(st.just("A5" * (w * n)), st.just("00fF" * (w * n // 2)), st.text("0123456789ABCDEFabcdef", max_size=40),
                          st.sampled_from(["", "0", "ZZ" * (w * n), "-1" * (w * n), "0x" * (w * n), " ", "#HUMANE", "é" * (w * n)]),
                          st.integers(-2, 2).map(lambda k: "7" * max(0, 2 * w * n + k))))
    sep = draw(st.sampled_from([" ", " ", " ", "\t", "  ", "", " \t "]))
    parts = [name, dt, nm, hexd]
    k = draw(st.integers(0, 12))
    if k < 4:
        parts = parts[:k]
    return sep.join(parts) + draw(st.sampled_from([" #HUMANE [ 1 ]", "", " #", " x y z", "\r", " " * 5]))


@st.composite
def attr2(draw):
    nl = draw(st.sampled_from(["\n", "\n", "\n", "\n\n", "\r\n", ""]))
    return nl.join(draw(st.lists(attrline(), max_size=5))) + draw(st.sampled_from(["\n", "\n", ""]))


@st.composite
def attr1(draw):
    out = ""
    for _ in range(draw(st.integers(0, 4))):
        name = draw(st.one_of(st.text("abz", max_size=4), st.sampled_from(["a b", "", "\x00\x00", "n\n", "x" * 300])))
        dt = draw(TYPES)[:8]
        try:
            w = max(0, int(dt.lstrip("<>=|")[1:]))
        except ValueError:
            w = 4
        n = draw(st.integers(0, 4))
        ints = [draw(st.one_of(st.just(n), st.just(n), st.sampled_from([-1, 2**31 - 1, -2**31, 10**6, 0, 1 << 20]))),
                draw(st.one_of(st.just(len(name)), st.just(len(name)), st.sampled_from([-1, 0, 2**31 - 1, -2**31, 10**6, 3])))]
        out += "".join((x & 0xffffffff).to_bytes(4, "little").decode("latin1") for x in ints)
        out += dt.encode("latin1", "replace").decode("latin1").ljust(8, draw(st.sampled_from(["\0", "\0", " ", "9"])))[:8]
        out += name + draw(st.one_of(st.just("q" * min(w * n, 400)), st.text("q", max_size=20)))
    return out[:draw(st.integers(0, len(out)))] if draw(st.integers(0, 4)) == 0 else out


@st.composite
def cheader(draw):
    """a correct header with at most one wrong field"""
    n = draw(st.integers(0, 4))
    f = [draw(GOOD), str(draw(st.integers(0, 3))), str(n)]
    for i in range(n):
        f += ["%06X" % i, str(draw(st.integers(0, 30))), "5", "5"]
    if draw(st.booleans()):
        i = draw(st.integers(0, len(f) - 1))
        f[i] = draw(TYPES if i == 0 else INTS)
    sep = draw(st.sampled_from(["\n", "\n", "\r\n", " ", "\n\n"]))
    lines = ["DTYPE: " + f[0], "NMEMB: " + f[1], "NFILE: " + f[2]]
    tail = ["%s: %s : %s : %s" % tuple(f[3 + 4 * i:7 + 4 * i]) for i in range(n)]
    if n and draw(st.booleans()):
        tail = draw(st.permutations(tail))
    return sep.join(lines + tail) + draw(st.sampled_from(["\n", "\n", "", " trailing\n"]))


@st.composite
def cattr2(draw):
    """correct attribute lines with at most one wrong field"""
    lines = []
    for _ in range(draw(st.integers(0, 4))):
        dt = draw(st.sampled_from(["<i4", ">f8", "<S1", "|S1", "=u8", "i4", "<c16", "|b1", "<a1", "<S200", "U4", "<u2"]))
        w = int(dt.lstrip("<>=|")[1:])
        n = draw(st.integers(0, 5))
        h = draw(st.sampled_from(["A5", "0a", "00", "41"])) * (w * n)
        lines.append([draw(st.text("abcz", min_size=1, max_size=3)), dt, str(n), h])
    if lines and draw(st.booleans()):
        i, j = draw(st.integers(0, len(lines) - 1)), draw(st.integers(0, 3))
        lines[i][j] = draw([st.sampled_from(["", "x" * 500, "%n", "\x00", "\xff", "zz~new"]), TYPES, INTS, st.text("0123456789ABCDEFabcdefxZ ", max_size=12)][j])
    return "\n".join(draw(st.sampled_from([" ", " ", "\t", "  "])).join(l) + draw(st.sampled_from([" #HUMANE [ 1 ]", "", " "])) for l in lines) + draw(st.sampled_from(["\n", "\n", ""]))


@st.composite
def mutate(draw, s):
    s = s.encode("latin1", "replace").decode("latin1")
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2, 4]))):
        k = draw(st.integers(0, 4))
        i = draw(st.integers(0, len(s)))
        c = draw(st.one_of(st.characters(max_codepoint=255), st.sampled_from("\0\n :#-09FfZ%")))
        if k == 0:
            s = s[:i] + c + s[i:]
        elif k == 1:
            s = s[:i] + s[i + 1:]
        elif k == 2:
            s = s[:i] + c + s[i + 1:]
        elif k == 3:
            s = s[:i]
        else:
            j = draw(st.integers(0, len(s)))
            s = s[:max(i, j)] + s[min(i, j):]
    return s


@st.composite
def case(draw, tier):
    out = {"ops": draw(st.integers(0, 7)), "struct": True}
    which = draw(st.sampled_from(["header", "header", "attr-v2", "attr-v2", "attr-v2", "attr", "attr", "all", "raw"]))
    if which == "raw":
        out["struct"] = False
        out[draw(st.sampled_from(["header", "attr-v2", "attr"]))] = draw(st.binary(max_size=200)).decode("latin1")
        return out
    if which in ("header", "all"):
        out["header"] = draw(cheader()) if draw(st.booleans()) else draw(mutate(draw(header())))
    if which in ("attr-v2", "all"):
        out["attr-v2"] = draw(cattr2()) if draw(st.booleans()) else draw(mutate(draw(attr2())))
    if which in ("attr", "all"):
        out["attr"] = draw(mutate(draw(attr1())))
    return out


def corners(tier):
    """correct lines whose value is the last thing in the file, for all small sizes and types"""
    out = []
    for dt, w in (("i1", 1), ("<i4", 4), (">f8", 8), ("<c16", 16), ("S1", 1), ("=u2", 2), ("|S3", 3), ("a1", 1)):
        for n in (0, 1, 2, 3, 5, 8, 31):
            for tail in ("", "\n", " ", " #HUMANE [ 1 ]"):
                out.append({"ops": (n + len(tail)) % 8, "struct": True, "attr-v2": "a %s %d %s%s" % (dt, n, "4A" * (w * n), tail)})
    return out


FILES = ("header", "attr-v2", "attr")
PLAIN = (b"\0DTYPE: <i4\nNMEMB: 1\nNFILE: 2\n000000: 10 : 0 : 0\n000001: 10 : 0 : 0\n", b"\1a <i4 2 3132333435363738 #HUMANE [ 1 2 ]\nb |S1 3 414243\n",
         b"\2\2\0\0\0\1\0\0\0<i4\0\0\0\0\0a12345678", b"\3DTYPE: >f8\nNMEMB: 3\nNFILE: 0\n", b"\4t =u8 0 \n", b"\0", b"\1", b"\2")
WORDS = ("DTYPE: ", "NMEMB: ", "NFILE: ", "000000: ", "000001: ", " : ", "<i4", ">f8", "|S1", "<c16", "2147483647", "-1", "4294967296", "9223372036854775807",
         "18446744073709551615", "#HUMANE", "\\x00\\x00\\x00\\x01", "\\xff\\xff\\xff\\x7f", "\\x01\\x00\\x00\\x00")


def guided(tier, seed, d):
    """contents that libFuzzer found to reach new code (coverage of the library), or to break it"""
    prog = build.fuzz_meta()
    if prog is None:
        return
    corpus = d + "/c"
    os.makedirs(corpus)
    for i, x in enumerate(PLAIN):
        with open("%s/plain%d" % (corpus, i), "wb") as f:
            f.write(x)
    with open(d + "/words", "w") as f:
        f.write("".join('"%s"\n' % w for w in WORDS))
    e = dict(build.env(), BFV_FUZZ_DIR=d + "/r", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:quarantine_size_mb=16")
    quick = tier == "quick"
    with open(d + "/log", "wb") as log:
        p = subprocess.Popen([prog, "-seed=%d" % (seed % (1 << 31) or 1), "-runs=%d" % (150000 if quick else 6000000), "-max_total_time=%d" % (120 if quick else 500), "-rss_limit_mb=0",
                              "-timeout=30", "-max_len=%d" % (200 + 100 * (seed % 5)), "-use_value_profile=%d" % (seed % 2), "-dict=" + d + "/words", "-artifact_prefix=" + d + "/bad-", corpus],
                             env=e, cwd=d, stdin=subprocess.DEVNULL, stdout=log, stderr=log)
        try:
            p.wait(180 if quick else 600)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    found = sorted(glob.glob(d + "/bad-*"), key=os.path.getsize) + sorted(f for f in glob.glob(corpus + "/*") if not os.path.basename(f).startswith("plain"))
    for f in found:
        with open(f, "rb") as fp:
            x = fp.read()
        if x:
            yield {"ops": x[0] // 3 % 8, "struct": False, FILES[x[0] % 3]: x[1:].decode("latin1")}


ARMS = [Arm("serial", "serial", "c11", lambda tier: case(tier), quick=14000, thorough=250000, shards=6, corners=corners, timeout=40),
        Arm("guided", "serial", "c11", None, quick=0, thorough=0, shards=8, feed=guided, timeout=40)]
