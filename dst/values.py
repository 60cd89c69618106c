"""JSON forms of the values and arrays that operations carry, and their realisation.

Everything here is a pure function of the JSON: a program replays exactly in any process.
"""
import random
from datetime import datetime, timedelta, timezone

import numpy as np

from . import spec


# ------------------------------------------------------------------------------------------------- scalars

def text(v):
    s = v["s"]
    return s if isinstance(s, str) else s[0] * s[1]


def fnum(h):
    return float.fromhex(h) if h not in ("nan", "-nan") else float(h)


class _Weird:
    """An object of a type no attribute accepts."""
    def __repr__(self):
        return "<weird>"


def realise(v, objs=None):
    """JSON value -> the Python object handed to the library."""
    if "i" in v:
        return v["i"]
    if "f" in v:
        return fnum(v["f"])
    if "s" in v:
        return text(v)
    if "b" in v:
        return bool(v["b"])
    if "d" in v:
        tz = v.get("tz")
        return datetime(*v["d"], tzinfo=None if tz is None else timezone(timedelta(minutes=tz)),
                        fold=v.get("fold", 0))
    if "r" in v:
        return objs[v["r"]]
    if "l" in v:
        xs = [realise(x, objs) for x in v["l"]]
        return tuple(xs) if v.get("tu") else xs
    if "t" in v:
        return tuple(realise(x, objs) for x in v["t"])
    if "np" in v:
        dt, h = v["np"]
        return np.dtype(dt).type(fnum(h) if isinstance(h, str) else h)
    if "e" in v:
        from dliswriter.utils import enums
        return getattr(getattr(enums, v["e"][0]), v["e"][1])
    if "n" in v:
        return None
    if "x" in v:
        return {"obj": _Weird(), "bytes": b"bytes", "set": {1, 2}, "complex": 1 + 2j, "dict": {"bogus": 1},
                "type": int, "nparr": np.arange(3)}[v["x"]]
    raise ValueError(f"bad value {v}")


def plain(v):
    """JSON value -> semantic value used by the reference model (references stay {'r': id})."""
    if "r" in v:
        return ("ref", v["r"])
    if "l" in v or "t" in v:
        return [plain(x) for x in (v.get("l") if "l" in v else v["t"])]
    if "e" in v:
        return spec.ENUMS[v["e"][0]][v["e"][1]]
    if "np" in v:
        dt, h = v["np"]
        return np.dtype(dt).type(fnum(h) if isinstance(h, str) else h).item()
    return realise(v)


def refs_in(v):
    if not isinstance(v, dict):
        return
    if "r" in v:
        yield v["r"]
    for k in ("l", "t"):
        for x in v.get(k, ()):
            yield from refs_in(x)
    if "A" in v:
        yield from refs_in(v["A"])
    if "u" in v and isinstance(v["u"], dict):
        yield from refs_in(v["u"])


def flatten(x):
    if isinstance(x, list):
        r = []
        for y in x:
            r.extend(flatten(y))
        return r
    return [x]


def shape_of(x):
    """Regular shape of a nested list, or None when ragged."""
    if not isinstance(x, list):
        return ()
    if not x:
        return (0,)
    s = [shape_of(y) for y in x]
    if any(t != s[0] for t in s) or s[0] is None:
        return None
    return (len(x),) + s[0]


# -------------------------------------------------------------------------------------------------- arrays

F_SPECIAL = {
    4: [0x00000000, 0x80000000, 0x3F800000, 0xBF800000, 0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00001, 0x7F800001,
        0x7FA5A5A5, 0x7F7FFFFF, 0xFF7FFFFF, 0x00000001, 0x807FFFFF, 0x12345678, 0x01020304],
    8: [0, 1 << 63, 0x3FF0000000000000, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000,
        0x7FF0000000000001, 0xFFF8DEADBEEF1234, 0x7FEFFFFFFFFFFFFF, 0x0000000000000001, 0x0102030405060708,
        0x800FFFFFFFFFFFFF],
    2: [0, 0x8000, 0x7C01, 0x3C00],
}


def _fill(dt, count, g):
    """count elements of dtype dt (native order) as a 1-D array."""
    dt = dt.newbyteorder("=")
    k = g["k"]
    rnd = random.Random(f"arr:{g.get('s', 0)}")
    if k == "bits":
        if dt.kind == "b":
            return np.array([rnd.random() < .5 for _ in range(count)], dtype=dt)
        if dt.kind not in "iufc":
            return np.zeros(count, dtype=dt)
        return np.frombuffer(rnd.randbytes(count * dt.itemsize), dtype=dt).copy()
    if k == "special":
        if dt.kind == "f" and dt.itemsize in F_SPECIAL:
            pool = F_SPECIAL[dt.itemsize]
            u = np.array([pool[rnd.randrange(len(pool))] for _ in range(count)], dtype=f"u{dt.itemsize}")
            return u.view(dt).copy()
        ii = np.iinfo(dt)
        pool = [ii.min, ii.max, 0, 1, ii.max - 1, ii.min + 1 if ii.min < 0 else 2, 127 if ii.max > 127 else 3,
                128 if ii.max > 128 else 4, 255 if ii.max >= 255 else 5, 256 if ii.max >= 256 else 6]
        return np.array([pool[rnd.randrange(len(pool))] for _ in range(count)], dtype=dt)
    if k == "seq":       # distinct, row-revealing values
        base = g.get("o", 1)
        return ((np.arange(count, dtype=np.int64) + base) % 251).astype(dt) if dt.itemsize == 1 else \
            (np.arange(count, dtype=np.int64) + base).astype(dt)
    if k == "small":     # integral values in -100..100 (0..100 unsigned): exact under every cast
        lo = 0 if (dt.kind == "u" or g.get("nn")) else -100
        return np.array([rnd.randint(lo, 100) for _ in range(count)], dtype=dt)
    if k == "list":
        vals = [fnum(x) if isinstance(x, str) else x for x in g["v"]]
        vals = [vals[i % len(vals)] for i in range(count)] if vals else [0] * count
        return np.array(vals, dtype=np.float64 if dt.kind == "f" else np.int64).astype(dt)
    if k == "lin":
        a, b = (fnum(x) if isinstance(x, str) else x for x in (g["a"], g["b"]))
        if dt.kind == "f":
            x = a + b * np.arange(count, dtype=np.float64)
        else:
            x = int(a) + int(b) * np.arange(count, dtype=np.int64)
        for i, d, n in g.get("at", ()):         # steps (or single points) which differ
            x[i:i + n] += fnum(d) if isinstance(d, str) else d
        return x.astype(dt)
    if k == "zero":
        return np.zeros(count, dtype=dt)
    raise ValueError(k)


class Sub(np.ndarray):
    """An array of another type than numpy's basic one; behaves as numpy's memory-mapped arrays do."""

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        arr = super().__array_wrap__(arr, context)
        return arr[()] if return_scalar else arr


class Arr:
    """A caller-supplied array together with everything the caller could notice being changed."""
    __slots__ = ("a", "base", "spec")

    def __init__(self, spec_):
        self.spec = spec_
        dt = np.dtype(spec_["dt"])
        shape = tuple(spec_["shape"])
        count = 1
        for s in shape:
            count *= s
        flat = _fill(dt, count, spec_["g"])
        nat = flat.reshape(shape)
        a = nat.astype(dt) if dt.kind not in "fiu" else _to_order(nat, dt)
        if (spec_.get("lay") == "bcast" or spec_.get("bc")) and a.ndim >= 1 and shape[0] >= 1:
            a[:] = a[0:1].copy()                     # every row the same, whatever the layout becomes later
        if spec_.get("sl"):
            a = a[spec_["sl"][0]:spec_["sl"][1]].copy()
            shape = a.shape
        lay = spec_.get("lay", "C")
        base = None
        if lay == "F" and a.ndim > 1:
            a = np.asfortranarray(a)
        elif lay == "strided" and a.ndim >= 1 and shape[0] >= 0:
            big = np.full((shape[0] * 2 + 1,) + shape[1:], _fillv(dt), dtype=dt)
            big[1::2][:shape[0]] = a
            base, a = big, big[1::2][:shape[0]]
        elif lay == "rev" and a.ndim >= 1:
            big = np.ascontiguousarray(a[::-1])
            base, a = big, big[::-1]
        elif lay == "view" and a.ndim >= 1:
            big = np.full((shape[0] + 5,) + shape[1:], _fillv(dt), dtype=dt)
            big[2:2 + shape[0]] = a
            base, a = big, big[2:2 + shape[0]]
        elif lay == "colview" and a.ndim == 2:
            big = np.full((shape[0], shape[1] + 3), _fillv(dt), dtype=dt)
            big[:, 1:1 + shape[1]] = a
            base, a = big, big[:, 1:1 + shape[1]]
        elif lay == "bcast" and a.ndim >= 1 and shape[0] >= 1:
            a = np.broadcast_to(a[0:1], shape)       # zero stride, read-only
        elif lay == "ro":
            a = a.copy()
            a.flags.writeable = False
        elif lay == "sub":
            a = a.copy().view(Sub)
        self.a, self.base = a, base

    def fingerprint(self):
        a = self.a
        return (a.tobytes(), a.dtype.str, a.shape, a.strides, a.flags.writeable,
                None if self.base is None else (self.base.tobytes(), self.base.dtype.str))

    def rows(self):
        """Independent native, contiguous copy with bit patterns preserved."""
        return np.array(self.a, order="C", copy=True, subok=False)


def _fillv(dt):
    return 7 if dt.kind in "iufb" else 0


def _to_order(nat, dt):
    """Same values, byte order of dt, bit pattern preserved (NaN payloads included)."""
    if dt.newbyteorder("=") == dt or dt.itemsize == 1:
        return nat.copy()
    return nat.byteswap().view(dt)


def be_bytes_rows(arr, cast=None):
    """Per-row big-endian bytes of an array after the declared cast (list of bytes)."""
    a = np.ascontiguousarray(arr)
    if cast is not None and np.dtype(cast).newbyteorder("=") != a.dtype.newbyteorder("="):
        with np.errstate(all="ignore"):
            a = a.astype(np.dtype(cast).newbyteorder("="))
    dt = a.dtype
    big = a if (dt.byteorder == ">" or dt.itemsize == 1) else a.byteswap()
    n = a.shape[0]
    raw = big.tobytes()
    w = len(raw) // n if n else 0
    return [raw[i * w:(i + 1) * w] for i in range(n)]


DT_CODE = {"int8": 12, "int16": 13, "int32": 14, "uint8": 15, "uint16": 16, "uint32": 17, "float32": 2, "float64": 7}
