import os
import numpy as np
from .. import fmt
from .clilib import tool, need


def bytes_of(seed, n):
    return np.random.RandomState(seed % 2**32).bytes(n)


def run(case, ctx):
    root = ctx.dir + "/r"
    os.makedirs(root)
    names = []
    expect_bad = set()
    pieces = 0
    for i, bl in enumerate(case["blocks"]):
        name = ["b%d", "g/b%d", "B_%d.x", "g/h/k-%d"][i % 4] % i
        names.append(name)
        path = os.path.join(root, name)
        row = fmt.width(bl["dt"]) * bl["nm"]
        data = bytes_of(bl["seed"], sum(bl["fs"]) * row)
        if bl["carry"]:
            data = fmt.carry(data)
        # a block as the library records it: sums of the bytes of each file
        ck = fmt.write_block(path, bl["dt"], bl["nm"], bl["fs"], data)
        pieces += sum(c > 0 for c in ck)
        total = fmt.fold(sum(ck) & 0xffffffff)
        rc, out, err = tool("bigfile-ls", "-l", root, name)
        f = out.split()
        need(rc == 0 and f and f[0].decode() == name, "ls -l of %s: %r %s", name, out, err)
        need(int(f[4]) == total, "ls -l reports checksum %s for %s, it is %d", f[4], name, total)
        h = fmt.read_header(path)
        for j, c in enumerate(ck):
            p = fmt.datafile(path, j)
            import subprocess
            s = int(subprocess.run(["sum", "-s", p], stdout=subprocess.PIPE).stdout.split()[0])
            need(fmt.fold(h["ck"][j]) == s, "sum -s of %s", p)
        # damage
        cur = bytearray(data)
        for pos, delta in bl["damage"]:
            if not cur:
                break
            o = pos % len(cur)
            cur[o] = (cur[o] + delta) % 256
        o = 0
        for j, n in enumerate(bl["fs"]):
            with open(fmt.datafile(path, j), "wb") as fp:
                fp.write(cur[o:o + n * row])
            o += n * row
        now = fmt.fold(sum(cur) & 0xffffffff)
        if now != total:
            expect_bad.add(name)
    before = fmt.snapshot(root)
    rc, out, err = tool("bigfile-check", root)
    lines = out.decode().splitlines()
    got = set()
    for l in lines:
        m = [n for n in names if n in l.split()]
        need(len(m) == 1, "bigfile-check printed %r", l)
        got.add(m[0])
    need(got == expect_bad, "bigfile-check reported %s, damaged are %s", sorted(got), sorted(expect_bad))
    need((rc != 0) == bool(expect_bad), "bigfile-check exited with %d, damaged are %s", rc, sorted(expect_bad))
    need(fmt.snapshot(root) == before, "bigfile-check changed the file")
    for n in names:
        rc, out, err = tool("bigfile-check", root, n)
        need(bool(out.strip()) == (n in expect_bad), "bigfile-check of %s printed %r", n, out)
    ctx.nontrivial(pieces > 1)
    ctx.tag("damaged" if expect_bad else "intact")
