"""helpers of the executors of the Python binding"""
import warnings
import numpy as np
import bigfile
from .. import fmt
from ..worker import Fail

warnings.simplefilter("ignore")
np.seterr(all="ignore")
DEFAULT = 64 * 1024 * 1024


def need(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def raises(f, what, *types):
    """f must raise an Exception"""
    try:
        r = f()
    except Exception as e:
        return e
    raise Fail("%s did not raise, it returned %r" % (what, r))


def data(seed, n, dt, exact=False):
    """n elements of a base type; exact: small integers, else any bits"""
    dt = np.dtype(dt)
    r = np.random.RandomState(seed % 2**32)
    if dt.kind == "b":
        return r.randint(0, 2, n).astype(dt)
    if exact or dt.itemsize == 16 and dt.kind == "f":
        return r.randint(0, 100, n).astype(dt)
    return np.frombuffer(r.bytes(n * dt.itemsize), dt).copy()


def same(a, b):
    """equal type, shape and bits"""
    return a.dtype == b.dtype and a.shape == b.shape and canon(a) == canon(b)


def canon(a):
    a = np.ascontiguousarray(a)
    if a.dtype.names:
        return [canon(a[n]) for n in a.dtype.names]
    if a.dtype.itemsize == 16 and a.dtype.kind == "f":
        # the padding of long double is not part of the value
        return a.astype("f8").tobytes()
    return a.tobytes()


def layout(a, how):
    """the same values in other memory: c, f, step, neg, field, offset, swapped axes"""
    a = np.asarray(a)
    n = a.shape[0]
    if how == "c":
        return a.copy()
    if how == "f":
        return np.asfortranarray(a)
    if how == "step":
        b = np.zeros((2 * n,) + a.shape[1:], a.dtype)
        b[::2] = a
        b = b[::2]
    elif how == "neg":
        b = a[::-1].copy()[::-1]
    elif how == "inner" and a.ndim > 1:
        w = np.zeros((n, a.shape[1] + 2), a.dtype)
        w[:, 1:-1] = a
        b = w[:, 1:-1]
    elif how == "innerneg" and a.ndim > 1:
        b = a[:, ::-1].copy()[:, ::-1]
    elif how == "field":
        t = np.dtype([("pad", "u1"), ("x", (a.dtype, a.shape[1:])), ("q", "u1", (2,))])
        r = np.zeros(n, t)
        r["x"] = a
        b = r["x"]
    elif how == "readonly":
        b = a.copy()
        b.flags.writeable = False
    else:
        b = a.copy()
    assert b.shape == a.shape
    return b


LAYOUTS = ["c", "c", "f", "step", "neg", "inner", "innerneg", "field", "readonly"]


def on_disk(root, name, m, what):
    """the block as an independent reader sees it"""
    b = fmt.read_block(root + "/" + name, strict=False)
    base = np.dtype(b["dt"])
    need(base == m.dtype and b["nm"] == (m.shape[1] if m.ndim > 1 else 1) and sum(b["fs"]) == len(m), "%s: block %s on disk: %s %d %s, should be %s %s", what, name, b["dt"], b["nm"], b["fs"], m.dtype, m.shape)
    need(canon(np.frombuffer(b["data"], base)) == canon(m.ravel()), "%s: block %s on disk holds other values", what, name)
    return b
