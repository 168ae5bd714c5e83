"""ctypes view of the library through harness/shim.c, shared by all executors."""
import ctypes as C, os
import numpy as np
from .worker import Fail

_so = C.CDLL(os.environ["BFV_LIB"])
vp, sz, pd, i32, cp = C.c_void_p, C.c_size_t, C.c_ssize_t, C.c_int, C.c_char_p


def _f(name, res, *args):
    f = getattr(_so, name)
    f.restype, f.argtypes = res, args
    return f


malloc = _f("vf_malloc", vp, sz)
free = _f("vf_free", None, vp)
set_buffer_size = _f("vf_set_buffer_size", i32, sz)
error = _f("vf_error", cp)
fault = _f("bfv_fault", None, i32, i32, i32)
fired = _f("bfv_fired", i32)
set_error = _f("vf_set_error", None, cp)
file_new = _f("vf_file_new", vp)
block_new = _f("vf_block_new", vp)
ptr_new = _f("vf_ptr_new", vp)
array_new = _f("vf_array_new", vp)
file_open = _f("vf_file_open", i32, vp, cp)
file_create = _f("vf_file_create", i32, vp, cp)
file_close = _f("vf_file_close", i32, vp)
file_list = _f("vf_file_list", i32, vp, C.POINTER(C.POINTER(vp)), C.POINTER(i32))
block_open = _f("vf_block_open", i32, vp, vp, cp)
block_create = _f("vf_block_create", i32, vp, vp, cp, cp, i32, i32, vp)
block_close = _f("vf_block_close", i32, vp)
block_flush = _f("vf_block_flush", i32, vp)
block_grow = _f("vf_block_grow", i32, vp, i32, vp)
block_dtype = _f("vf_block_dtype", cp, vp)
block_nmemb = _f("vf_block_nmemb", i32, vp)
block_size = _f("vf_block_size", sz, vp)
block_nfile = _f("vf_block_nfile", i32, vp)
block_geom = _f("vf_block_geom", None, vp, vp, vp)
block_basename = _f("vf_block_basename", cp, vp)
seek = _f("vf_seek", i32, vp, vp, pd)
seek_rel = _f("vf_seek_rel", i32, vp, vp, pd)
eof = _f("vf_eof", i32, vp, vp)
tell = _f("vf_tell", pd, vp, vp)
ptr_sizeof = _f("vf_ptr_sizeof", sz)
array_init = _f("vf_array_init", i32, vp, vp, cp, i32, vp, vp)
array_data = _f("vf_array_data", vp, vp)
array_size = _f("vf_array_size", sz, vp)
array_ndim = _f("vf_array_ndim", i32, vp)
array_dim = _f("vf_array_dim", pd, vp, i32)
array_stride = _f("vf_array_stride", pd, vp, i32)
array_dtype = _f("vf_array_dtype", cp, vp)
array_walk = _f("vf_array_walk", None, vp, vp, sz)
read = _f("vf_read", i32, vp, vp, vp)
write = _f("vf_write", i32, vp, vp, vp)
read_simple = _f("vf_read_simple", i32, vp, pd, pd, vp, cp)
set_attr = _f("vf_set_attr", i32, vp, cp, vp, cp, i32)
get_attr = _f("vf_get_attr", i32, vp, cp, vp, cp, i32)
remove_attr = _f("vf_remove_attr", i32, vp, cp)
lookup_attr = _f("vf_lookup_attr", vp, vp, cp)
nattr = _f("vf_nattr", sz, vp)
attr_at = _f("vf_attr_at", vp, vp, sz)
attr_name = _f("vf_attr_name", cp, vp)
attr_dtype = _f("vf_attr_dtype", cp, vp)
attr_nmemb = _f("vf_attr_nmemb", i32, vp)
attr_data = _f("vf_attr_data", vp, vp)
dtype_itemsize = _f("vf_dtype_itemsize", i32, cp)
dtype_kind = _f("vf_dtype_kind", i32, cp)
dtype_format = _f("vf_dtype_format", None, vp, cp, vp, cp)
dtype_parse = _f("vf_dtype_parse", i32, cp, cp, vp, cp)
rec_new = _f("vf_rec_new", vp)
rec_clear = _f("vf_rec_clear", None, vp)
rec_set = _f("vf_rec_set", None, vp, i32, cp, cp, i32)
rec_add = _f("vf_rec_add", i32, vp, cp, cp, i32)
rec_complete = _f("vf_rec_complete", None, vp)
rec_itemsize = _f("vf_rec_itemsize", sz, vp)
rec_nfield = _f("vf_rec_nfield", sz, vp)
rec_offset = _f("vf_rec_offset", i32, vp, i32)
rec_elsize = _f("vf_rec_elsize", i32, vp, i32)
rec_put = _f("vf_rec_put", None, vp, vp, pd, i32, vp)
rec_get = _f("vf_rec_get", None, vp, vp, pd, i32, vp)
rec_view = _f("vf_rec_view", i32, vp, i32, vp, sz, vp)
rec_create = _f("vf_rec_create", i32, vp, vp, cp, i32, vp)
rec_write = _f("vf_rec_write", i32, vp, vp, pd, sz, vp)
rec_read = _f("vf_rec_read", i32, vp, vp, pd, sz, vp)

DEFAULT_BUFFER = 64 * 1024 * 1024


def b(s):
    return s.encode() if isinstance(s, str) else s


def errmsg():
    m = error()
    return "<none>" if m is None else m.decode(errors="replace")


def sizes(v):
    return (sz * max(1, len(v)))(*v)


class Buf:
    """library-heap memory with an exact size, so AddressSanitizer sees any access outside it"""

    def __init__(self, n_or_bytes):
        data = None
        if isinstance(n_or_bytes, (bytes, bytearray, memoryview, np.ndarray)):
            data = bytes(n_or_bytes) if not isinstance(n_or_bytes, np.ndarray) else n_or_bytes.tobytes()
            n = len(data)
        else:
            n = n_or_bytes
        self.n = n
        self.p = malloc(n if n > 0 else 1)
        if data:
            C.memmove(self.p, data, n)

    def fill(self, byte):
        C.memset(self.p, byte, self.n)
        return self

    def bytes(self):
        return C.string_at(self.p, self.n)

    def free(self):
        if self.p:
            free(self.p)
            self.p = None

    __del__ = free


class File:
    def __init__(self, path, create=False):
        self.h = file_new()
        self.path = path
        self.rt = (file_create if create else file_open)(self.h, b(path))

    def must(self):
        if self.rt != 0:
            raise Fail("cannot open or create file %r: %s" % (self.path, errmsg()))
        return self

    def list(self):
        arr = C.POINTER(vp)()
        n = i32()
        if file_list(self.h, C.byref(arr), C.byref(n)) != 0:
            raise Fail("big_file_list failed: " + errmsg())
        out = []
        for i in range(n.value):
            out.append(C.string_at(arr[i]))
            free(arr[i])
        free(C.cast(arr, vp))
        return out

    def close(self):
        if self.h:
            rt = file_close(self.h)
            free(self.h)
            self.h = None
            return rt


class Block:
    def __init__(self):
        self.h = block_new()

    def open(self, f, name):
        self.name = name
        return block_open(f.h, self.h, b(name))

    def create(self, f, name, dtype, nmemb, fsize):
        self.name = name
        return block_create(f.h, self.h, b(name), b(dtype) if dtype is not None else None, nmemb, len(fsize), sizes(fsize))

    def close(self):
        rt = block_close(self.h)
        free(self.h)
        self.h = None
        return rt

    # these keep their arguments alive during the call
    def write(self, ptr, arr):
        return write(self.h, ptr.h, arr.h)

    def read(self, ptr, arr):
        return read(self.h, ptr.h, arr.h)

    def set_attr(self, name, buf, dtype, nmemb):
        return set_attr(self.h, b(name), buf.p, b(dtype), nmemb)

    def get_attr(self, name, buf, dtype, nmemb):
        return get_attr(self.h, b(name), buf.p, b(dtype), nmemb)

    def put(self, row, data, dtype, dims):
        p, buf = Ptr(), Buf(data)
        ok(seek(self.h, p.h, row), "seek %d" % row)
        ok(self.write(p, Array(buf, dtype, dims)), "write at %d" % row)
        return p

    def get(self, row, n, dtype, width, dims=None):
        p, buf = Ptr(), Buf(n * self.nmemb * width).fill(0xA5)
        ok(seek(self.h, p.h, row), "seek %d" % row)
        ok(self.read(p, Array(buf, dtype, dims or (n, self.nmemb))), "read of %d rows at %d" % (n, row))
        return buf.bytes()

    def flush(self):
        return block_flush(self.h)

    def grow(self, fs):
        return block_grow(self.h, len(fs), sizes(fs))

    @property
    def dtype(self):
        return block_dtype(self.h).decode()

    @property
    def nmemb(self):
        return block_nmemb(self.h)

    @property
    def size(self):
        return block_size(self.h)

    @property
    def nfile(self):
        return block_nfile(self.h)

    def geom(self):
        n = self.nfile
        fs = (sz * (n + 1))()
        ck = (C.c_uint * (n + 1))()
        block_geom(self.h, fs, ck)
        return list(fs)[:n], list(ck)[:n]

    # attributes: name bytes -> (dtype, nmemb, bytes), straight from the attribute list
    def attrs(self):
        out = []
        for i in range(nattr(self.h)):
            a = attr_at(self.h, i)
            dt = attr_dtype(a).decode(errors="replace")
            nm = attr_nmemb(a)
            out.append((attr_name(a), dt, nm, C.string_at(attr_data(a), dtype_itemsize(attr_dtype(a)) * nm)))
        return out


class Ptr:
    def __init__(self):
        self.h = ptr_new()

    def raw(self):
        return C.string_at(self.h, ptr_sizeof())

    def __del__(self):
        if self.h:
            free(self.h)
            self.h = None


class Array:
    """BigArray over `buf' starting at byte `off'"""

    def __init__(self, buf=None, dtype="", dims=(), strides=None, off=0):
        self.h = array_new()
        self.buf = buf
        if buf is not None:
            d = sizes(dims)
            s = None if strides is None else (pd * max(1, len(strides)))(*strides)
            array_init(self.h, buf.p + off, b(dtype), len(dims), d, s)

    def __del__(self):
        if self.h:
            free(self.h)
            self.h = None


def splitmix_bytes(seed, n):
    """n deterministic bytes from a seed"""
    m = (n + 7) // 8
    with np.errstate(over="ignore"):
        z = (np.arange(1, m + 1, dtype=np.uint64) + np.uint64(seed & 0xffffffff) * np.uint64(0x10001)) * np.uint64(0x9E3779B97F4A7C15)
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        z = z ^ (z >> np.uint64(31))
    return z.tobytes()[:n]


def need(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def ok(rt, what):
    if rt != 0:
        raise Fail("%s failed (%d): %s" % (what, rt, errmsg()))
