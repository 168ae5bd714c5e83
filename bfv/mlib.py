"""ctypes view of the collective interface (vm_*), for executors under mpirun"""
import ctypes as C
from mpi4py import MPI
from . import lib as L
from .lib import _so, vp, sz, pd, i32, cp, b, sizes

W = MPI.COMM_WORLD


def _f(name, res, *args):
    f = getattr(_so, name)
    f.restype, f.argtypes = res, args
    return f


_h = MPI._handleof


def H(comm):
    return C.c_void_p(_h(comm))


file_open = _f("vm_file_open", i32, vp, cp, vp)
file_create = _f("vm_file_create", i32, vp, cp, vp)
file_close = _f("vm_file_close", i32, vp, vp)
block_open = _f("vm_block_open", i32, vp, vp, cp, vp)
block_create = _f("vm_block_create", i32, vp, vp, cp, cp, i32, i32, sz, vp)
block_create_fs = _f("vm_block_create_fs", i32, vp, vp, cp, cp, i32, i32, vp, vp)
block_close = _f("vm_block_close", i32, vp, vp)
block_flush = _f("vm_block_flush", i32, vp, vp)
block_grow = _f("vm_block_grow", i32, vp, i32, vp, vp)
block_grow_simple = _f("vm_block_grow_simple", i32, vp, i32, sz, vp)
set_threshold = _f("vm_set_threshold", None, sz)
write = _f("vm_write", i32, vp, vp, vp, i32, vp)
read = _f("vm_read", i32, vp, vp, vp, i32, vp)
rec_create = _f("vm_rec_create", i32, vp, vp, cp, i32, vp, vp)
rec_write = _f("vm_rec_write", i32, vp, vp, pd, sz, vp, i32, vp)
rec_read = _f("vm_rec_read", i32, vp, vp, pd, sz, vp, i32, vp)
alltoallv = _f("vm_alltoallv", i32, vp, vp, vp, sz, vp, vp, vp, sz, vp, i32, i32, i32, i32, i32)
gather = _f("vm_gather", vp, vp, i32, vp, vp, i32, sz, vp)
scatter = _f("vm_scatter", vp, vp, i32, vp, vp, i32, sz, vp)
mpiu_free = _f("vm_mpiu_free", None, vp)
getloc = _f("vm_getloc", i32, vp, i32, i32, vp)
collect = _f("vm_collect", sz, sz, vp, vp, vp)
segment = _f("vm_segment", None, vp, vp, sz, i32, vp, vp)

_comms = {}


def sub(np_):
    """a communicator of the first np_ ranks (None on the others); collective over the world once per size"""
    if np_ not in _comms:
        c = W.Split(0 if W.rank < np_ else 1, W.rank)
        _comms[np_] = c
    return _comms[np_] if W.rank < np_ else None


def pieces(total, n, seed):
    """a deterministic split of total rows over n ranks, including empty ranks"""
    if n == 1:
        return [total]
    x = (seed * 2654435761 + 12345) & 0xffffffff
    cuts = []
    mode = x % 4
    for i in range(n - 1):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        if mode == 0:
            cuts.append((x >> 8) % (total + 1))
        elif mode == 1:
            cuts.append(total * (i + 1) // n)
        elif mode == 2:
            cuts.append([0, total][(x >> 9) & 1])
        else:
            cuts.append((x >> 8) % (total + 1) if (x >> 5) & 1 else total // 2)
    cuts = [0] + sorted(cuts) + [total]
    return [b_ - a for a, b_ in zip(cuts, cuts[1:])]


class File(L.File):
    def __init__(self, comm, path, create=False):
        self.comm = comm
        self.h = L.file_new()
        self.path = path
        self.rt = (file_create if create else file_open)(self.h, b(path), H(comm))

    def close(self):
        rt = file_close(self.h, H(self.comm))
        L.free(self.h)
        self.h = None
        return rt


class Block(L.Block):
    def __init__(self, comm):
        self.comm = comm
        self.h = L.block_new()

    def open(self, f, name):
        self.name = name
        return block_open(f.h, self.h, b(name), H(self.comm))

    def create(self, f, name, dtype, nmemb, fsize):
        self.name = name
        return block_create_fs(f.h, self.h, b(name), b(dtype) if dtype is not None else None, nmemb, len(fsize), sizes(fsize), H(self.comm))

    def create_size(self, f, name, dtype, nmemb, nfile, size):
        return block_create(f.h, self.h, b(name), b(dtype), nmemb, nfile, size, H(self.comm))

    def close(self):
        rt = block_close(self.h, H(self.comm))
        L.free(self.h)
        self.h = None
        return rt

    def flush(self):
        return block_flush(self.h, H(self.comm))

    def grow(self, fs):
        return block_grow(self.h, len(fs), sizes(fs), H(self.comm))

    def grow_simple(self, n, size):
        return block_grow_simple(self.h, n, size, H(self.comm))

    def mwrite(self, ptr, arr, conc):
        return write(self.h, ptr.h, arr.h, conc, H(self.comm))

    def mread(self, ptr, arr, conc):
        return read(self.h, ptr.h, arr.h, conc, H(self.comm))

    def put(self, row, data, dtype, dims, conc=0):
        """collective; data are this rank's rows"""
        p, buf = L.Ptr(), L.Buf(data)
        L.ok(L.seek(self.h, p.h, row), "seek %d" % row)
        L.ok(self.mwrite(p, L.Array(buf, dtype, dims), conc), "collective write at %d" % row)
        return p

    def get(self, row, n, dtype, width, dims=None, conc=0):
        p, buf = L.Ptr(), L.Buf(n * self.nmemb * width).fill(0xA5)
        L.ok(L.seek(self.h, p.h, row), "seek %d" % row)
        L.ok(self.mread(p, L.Array(buf, dtype, dims or (n, self.nmemb)), conc), "collective read of %d rows at %d" % (n, row))
        return buf.bytes()


def together(comm, what, fn):
    """run fn on every rank of comm; if it raises on one, all raise (nobody is left waiting in the next collective call)"""
    err = None
    out = None
    try:
        out = fn()
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e)
    errs = comm.allgather(err)
    bad = [(i, e) for i, e in enumerate(errs) if e]
    if bad:
        raise L.Fail("%s: " % what + "; ".join("rank %d: %s" % x for x in bad)[:3000])
    return out


def layout(kind, n, nm, w, data=None):
    """memory for n rows of nm elements of w bytes in a given layout -> (Buf, dims, strides, offset, index)

    index lists the byte offset of every element in row order; data (row order) is stored there, everything else is 0xA5"""
    if kind == "flat":
        dims, strides, off, size = (n * nm,), (w,), 0, n * nm * w
        idx = [i * w for i in range(n * nm)]
    else:
        if kind == "c":
            s0, s1, off = nm * w, w, 0
        elif kind == "pad":
            s0, s1, off = nm * w + 3 * w, w, w
        elif kind == "fort":
            s0, s1, off = w, n * w, 0
        elif kind == "neg":
            s0, s1, off = -nm * w, w, max(0, n - 1) * nm * w
        elif kind == "skip":
            s0, s1, off = 2 * nm * w + 5, 2 * w, 5
        elif kind in ("one", "col", "row", "cube"):
            s0, s1, off = nm * w, w, 0
        else:
            raise ValueError(kind)
        dims, strides = (n, nm), (s0, s1)
        # the rows spread over another number of dimensions
        if kind == "one":
            dims, strides = (1, n, nm), (n * nm * w, nm * w, w)
        elif kind == "col":
            dims, strides = (n * nm, 1), (w, w)
        elif kind == "row":
            dims, strides = (1, n * nm), (n * nm * w, w)
        elif kind == "cube":
            d = next((x for x in (3, 2) if n % x == 0), 1)
            dims, strides = (d, n // d, nm), (n // d * nm * w, nm * w, w)
        idx = [off + i * s0 + j * s1 for i in range(n) for j in range(nm)]
        size = max(idx, default=0) + w
    buf = L.Buf(size).fill(0xA5)
    if data:
        for k, o in enumerate(idx):
            C.memmove(buf.p + o, data[k * w:(k + 1) * w], w)
    return buf, dims, strides, off, idx


def pick(buf, idx, w):
    """-> (elements in row order, whether everything else is still 0xA5)"""
    raw = bytearray(buf.bytes())
    out = b"".join(bytes(raw[o:o + w]) for o in idx)
    for o in idx:
        raw[o:o + w] = b"\xa5" * w
    return out, raw == b"\xa5" * len(raw)
