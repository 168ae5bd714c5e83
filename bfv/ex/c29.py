"""bigfile-iosim against a model of its block"""
import os, re, shutil
import numpy as np
from .. import fmt
from .clilib import tool, need
from .c22 import block, intact

# records what it is asked to remove
RM = '''#!/bin/sh
for a in "$@"; do printf '%s\\n' "$a" >> "$RMLOG"; done
'''


def pattern(dt, nm, n):
    return np.repeat(np.arange(n), nm).astype(dt).tobytes()


def sums(raw):
    return [int(np.frombuffer(x, "u1").sum(dtype="u8")) & 0xffffffff for x in raw]


def run(c, ctx):
    above = ctx.dir + "/d"
    name = c.get("name", "f")
    if name == "long":
        name = "/".join(["n" * 200] * 9)
    root = above + "/" + name
    os.makedirs(os.path.dirname(root))
    for x in ("f", "x", "TestBlock"):
        if x != name:
            os.makedirs(above + "/" + x + "/TestBlock")
            with open(above + "/" + x + "/TestBlock/header", "w") as h:
                h.write("not yours")
    away = ctx.dir + "/away"
    tb = root + "/TestBlock"
    m = None
    attrs = {}
    s = c["start"]
    if s:
        attrs = {b"a": ("<i4", 2, b"12345678"), b"t": ("<S1", 3, b"abc")}
        fmt.write_block(tb, s["dt"], s["nm"], s["fs"], pattern(s["dt"], s["nm"], sum(s["fs"])), attrs)
        m = {"dt": s["dt"], "nm": s["nm"], "fs": list(s["fs"])}
        m["ck"] = sums(block(tb)["raw"])
        fmt.write_block(root + "/g/other", "<i4", 1, [2], b"12345678", {})
    ok = several = 0
    for o in c["ops"]:
        mode = o["mode"]
        purge = o.get("purge")
        if mode == "usage":
            usage(o, root, above)
            ctx.tag("usage")
            continue
        np_, f = o["np"], o["f"]
        args = ["-s", str(o["s"])]
        args += ["-n", str(o["n"])] if o["n"] is not None else []
        args += ["-f", str(f)] if f is not None else []
        args += ["-w", str(o["w"])] if o["w"] is not None else []
        args += ["-A"] if o["A"] else []
        nw = o["n"] if o["n"] and o["n"] <= np_ else np_
        f = f or nw
        # damage
        harm = o["harm"] if not purge else None
        bad = False
        undo = None
        if m and harm in ("flip", "short", "missing"):
            some = [i for i, x in enumerate(m["fs"]) if x]
            if some:
                p = fmt.datafile(tb, some[o["at"] % len(some)])
                raw = open(p, "rb").read()
                undo = (p, raw)
                if harm == "missing":
                    os.unlink(p)
                    bad = mode in ("read", "update")
                else:
                    with open(p, "wb") as h:
                        k = o["at"] // 7 % len(raw)
                        h.write(raw[:k] if harm == "short" else raw[:k] + bytes([raw[k] ^ (1 << o["at"] % 8)]) + raw[k + 1:])
                    bad = mode == "read"
                    if harm == "flip" and bad and m["dt"][1] == "f":
                        # the value is rounded when it is compared
                        got = np.frombuffer(open(p, "rb").read(), m["dt"])
                        with np.errstate(all="ignore"):
                            bad = bool((np.trunc(got) != np.frombuffer(raw, m["dt"])).any())
        elif m and harm == "noblock":
            os.rename(tb, away)
            undo = 1
            bad = mode != "create"
        elif m and harm == "nofile":
            os.rename(root, away)
            undo = 2
            bad = mode != "create"
        elif m is None:
            bad = mode != "create"
        elif harm == "readonly" and mode == "read" and not os.path.exists(root + "/read-timelog"):
            os.chmod(root, 0o555)
            undo = 3
        before = fmt.snapshot(above)
        env = {}
        if purge:
            args += ["-p"]
            os.makedirs(ctx.dir + "/bin", exist_ok=True)
            with open(ctx.dir + "/bin/rm", "w") as h:
                h.write(RM)
            os.chmod(ctx.dir + "/bin/rm", 0o755)
            env = {"PATH": ctx.dir + "/bin:" + os.environ["PATH"], "RMLOG": ctx.dir + "/rmlog"}
            if os.path.exists(ctx.dir + "/rmlog"):
                os.unlink(ctx.dir + "/rmlog")
        what = "bigfile-iosim %s on %d ranks" % (args + [mode, c.get("name", "f")], np_)
        rc, out, err = tool("bigfile-iosim", *args, mode, root, np=np_, timeout=60, env=env, aborts=bad and mode == "read")
        what += " (%s)" % harm if harm else ""
        log = mode + "-timelog"
        if undo == 3:
            os.chmod(root, 0o755)
        intact(before, above, what, [name + "/" + log] + ([name + "/TestBlock"] if mode != "read" or purge else []) + ([name] if not os.path.exists(root) or mode == "create" and before.get(name) is None else []))
        if bad:
            need(rc != 0, "%s exited with 0", what)
            ctx.tag("refused-" + str(harm))
        else:
            need(rc == 0, "%s failed: %s", what, (err or out.decode())[-2000:])
            need(b"Error occured" not in out and b"corrupted" not in out, "%s reported an error and exited with 0: %s", what, out[-1000:])
            ok += 1
            several += np_ > 1
            ctx.tag(mode)
        if purge and not bad:
            gone = open(ctx.dir + "/rmlog").read().split("\n") if os.path.exists(ctx.dir + "/rmlog") else []
            gone = [os.path.normpath(x) for x in gone if x and not x.startswith("-")]
            need(gone == [tb] or (gone == [] and not os.path.exists(tb)), "%s removes %s", what, gone or "nothing")
            ctx.tag("purge")
            if gone == [tb]:
                # was asked to
                shutil.rmtree(tb)
            m = None
            attrs = {}
            timelog(root, log, mode, o, f, None, None)
            continue
        if bad or undo in (1, 2):
            if undo == 1 or undo == 2:
                if mode == "create":
                    # a new block in another place; it is checked as such
                    check_new(tb, what, o, f)
                    shutil.rmtree(tb if undo == 1 else root)
                elif undo == 2:
                    need(not os.path.exists(root), "%s created the file", what)
                elif os.path.exists(tb):
                    need(not os.path.exists(tb + "/header"), "%s created a block", what)
                    shutil.rmtree(tb)
                os.rename(away, tb if undo == 1 else root)
            elif undo:
                with open(undo[0], "wb") as h:
                    h.write(undo[1])
                if mode == "update":
                    # parts may have been written, and the checksums are unknown
                    m["ck"] = None
            elif m is None:
                need(not os.path.exists(tb + "/header"), "%s created a block", what)
            continue
        if mode == "create":
            m = check_new(tb, what, o, f)
            attrs = {}
        else:
            if isinstance(undo, tuple) and mode != "update":
                with open(undo[0], "wb") as h:
                    h.write(undo[1])
            if mode == "grow":
                more = [o["s"] * (i + 1) // f - o["s"] * i // f for i in range(f)]
                m["fs"] += more
            if mode == "update" and sum(m["fs"]):
                m["ck"] = None
            b = block(tb)
            need((b["dt"], b["nm"], b["fs"]) == (m["dt"], m["nm"], m["fs"]), "%s: the block has %s x %d in %s, not %s", what, b["dt"], b["nm"], b["fs"], m)
            need(b["data"] == pattern(m["dt"], m["nm"], sum(m["fs"])), "%s: the rows are not those promised", what)
            need(b["attrs"] == attrs, "%s: the attributes became %s", what, b["attrs"])
            if m["ck"] is not None:
                if mode == "grow":
                    m["ck"] += sums(b["raw"])[-f:]
                need(b["ck"] == m["ck"], "%s: the checksums are %s, not %s", what, b["ck"], m["ck"])
        if undo != 3:
            timelog(root, log, mode, o, f, m, what)
    ctx.nontrivial(ok >= 2 and several)


def timelog(root, log, mode, o, f, m, what):
    if m and os.path.exists(root + "/" + log):
        t = open(root + "/" + log).read().split("\n")
        heads = [l.split() for l in t if re.match(r"[a-z]+\t", l)]
        l = heads[-1]
        size, files = (o["s"], f) if mode in ("create", "grow") else (sum(m["fs"]), len(m["fs"]))
        need([l[0], l[1], l[2], l[4], l[5]] == [mode, str(files), str(o["np"]), str(size), str(m["nm"])], "%s: the log says %s", what, l)


def usage(o, root, above):
    """what is not understood changes nothing"""
    args = {"nothing": [], "command": ["crate", root], "nofile": ["create"], "nofile2": ["-p", "-s", "1", "update"], "option": ["-Z", "create", root], "rows": ["-s", "x", "create", root], "files": ["-f", "", "grow", root],
            "writers": ["-n", "q", "update", root], "members": ["-w", "-", "create", root], "noarg": ["create", root, "-s"], "prefix": ["creat", root], "longer": ["created", root]}[o["usage"]]
    before = fmt.snapshot(above)
    rc, out, err = tool("bigfile-iosim", *args, np=o["np"], timeout=60, cwd=above)
    need(rc != 0, "bigfile-iosim %s exited with 0", args)
    intact(before, above, "bigfile-iosim %s" % args)


def check_new(tb, what, o, f):
    b = block(tb)
    want = [o["s"] * (i + 1) // f - o["s"] * i // f for i in range(f)]
    nm = o["w"] or 1
    need((b["dt"], b["nm"], b["fs"]) == ("<i8", nm, want), "%s made %s x %d in %s", what, b["dt"], b["nm"], b["fs"])
    need(b["data"] == pattern("<i8", nm, o["s"]), "%s: the rows are not those promised", what)
    need(b["attrs"] == {}, "%s: the attributes are %s", what, b["attrs"])
    need(b["ck"] == sums(b["raw"]), "%s: the checksums are %s", what, b["ck"])
    return {"dt": b["dt"], "nm": nm, "fs": want, "ck": b["ck"]}
