"""Reference model of a specification: what the user asked for, in plain data.

The engine updates it with every operation the library accepts; the oracle compares files with it.  It never looks
inside the library; the only things it takes from live objects are the copy number (which the standard leaves to the
writer) and the reference of an origin whose reference the user did not choose.
"""
import struct
import sys

import numpy as np

from . import spec, values
from .values import DT_CODE

BIG = 1 << 53


class MAttr:
    __slots__ = ("v", "has_v", "u", "wild", "tzs")

    def __init__(self):
        self.v = None           # JSON value
        self.has_v = False
        self.u = None
        self.wild = False       # accepted, but what it means is not specified
        self.tzs = None


class MObj:
    def __init__(self, oid, lf, t, name, set_name, oref, seq):
        self.id, self.lf, self.t, self.name, self.set, self.oref, self.seq = oid, lf, t, name, set_name, oref, seq
        self.attrs = {}
        self.live = None
        self.ds = None           # channel: dataset name
        self.cast = None
        self.channels = []       # frame: channel ids, in order
        self.hc = False
        self.clk = None
        self.ordinal = None
        self.data_dim = None
        self.arr = None          # channel: inline array

    @property
    def ty(self):
        return spec.TYPES[self.t]


class MLF:
    def __init__(self, lid, f, fh_id, ident, seq):
        self.id, self.f, self.fh_id, self.ident, self.seq = lid, f, fh_id, ident, seq
        self.objs = []
        self.inline = {}
        self.nf = []             # (object id, bytes)
        self.live = None
        self.shared_header = False
        self.hc = False

    def of(self, t):
        return [o for o in self.objs if o.t == t]

    def defining(self):
        """The defining origin: the first one of the set the first origin went to."""
        os_ = self.of("origin")
        return os_[0] if os_ else None


class MFile:
    def __init__(self, fid, si, sn, ml):
        self.id, self.si, self.sn, self.ml = fid, si, sn, ml
        self.lfs = []
        self.live = None

    def objs(self):
        for lf in self.lfs:
            yield from lf.objs


def set_attr(o, kw, jv, tz=None):
    """Record an accepted assignment of JSON value jv (possibly an attribute set-up) to attribute kw."""
    a = o.attrs.setdefault(kw, MAttr())
    if isinstance(jv, dict) and ("A" in jv or "u" in jv):
        if "A" in jv:
            _set_v(a, jv["A"], tz)
        if jv.get("u") is not None:
            a.u = unit_text(jv["u"])
    else:
        _set_v(a, jv, tz)


def _set_v(a, jv, tz):
    a.wild = "x" in jv or bool(jv.get("wild"))
    a.v, a.has_v = jv, "n" not in jv
    a.tzs = [tz] if tz is not None else []


def unit_text(u):
    if isinstance(u, dict):
        if "e" in u:
            return spec.ENUMS[u["e"][0]][u["e"][1]]
        if "s" in u:
            return values.text(u)
        return None
    return u


# ------------------------------------------------------------------------------------------ expectations of values

def parse_dtime_text(s):
    from datetime import datetime
    for f in ("%Y/%m/%d %H:%M:%S", "%Y.%m.%d %H:%M:%S"):
        try:
            return datetime.strptime(s, f)
        except ValueError:
            pass
    return None


def flat(v):
    p = values.plain(v)
    return values.flatten(p) if isinstance(p, list) else [p]


def is_ascii(s):
    try:
        s.encode("ascii")
        return True
    except UnicodeEncodeError:
        return False


def value_problem(kind, jv):
    """Why the value of one attribute cannot be represented: (severity, reason) or None."""
    k = kind.split(":")[0]
    if "x" in jv:
        return ("may", "unspecified type")
    for x in flat(jv):
        if isinstance(x, str):
            if k in ("F", "FL", "FM", "W", "W16", "WS", "DIM", "ST", "B"):
                return ("may", "text for a number")
            if k in ("D", "DF") and parse_dtime_text(x) is None:
                return ("may", "unparsed date-time text")
            if not is_ascii(x):
                if k in ("T", "TL", "RT", "I", "P", "E", "S", "V", "C"):
                    return ("must", "non-ASCII text")
            if k in ("I", "E", "S", "P") and len(x) > 255:
                return ("must", "identifier longer than 255")
        elif isinstance(x, (int, float)) and not isinstance(x, bool):
            if k == "W16" and not 0 <= x <= 65535:
                return ("must", f"{x} outside UNORM")
            if k == "W" and not 0 <= x < (1 << 30):
                return ("must", f"{x} outside UVARI")
            if k == "WS" and not -(1 << 31) <= x < (1 << 31):
                return ("must", f"{x} outside SLONG")
            if k == "DIM" and not 0 <= x < (1 << 30):
                return ("must", f"{x} outside UVARI")
            if k in ("ST", "B") and x not in (0, 1):
                return ("must", f"{x} is not a flag")
            if k in ("V", "C") and isinstance(x, int) and not -(1 << 31) <= x < (1 << 31):
                return ("may", f"{x} outside SLONG")
            if k in ("F", "FL", "FM", "DF") and isinstance(x, int) and abs(x) > BIG:
                return ("may", f"{x} may not be exact in FDOUBL")
        elif x is None:
            return ("may", "None inside a list")
        elif hasattr(x, "year"):
            if not 1901 <= x.year <= 2154:
                if x.year < 1899 or x.year > 2156:
                    return ("must", f"year {x.year} outside DTIME")
                return ("may", "year at the edge of DTIME")
    return None


def attr_rules(o, byid):
    """Rules between attributes that the library documents and enforces: violations may be rejected."""
    A = {k: a for k, a in o.attrs.items() if a.has_v and not a.wild}

    def n(kw):
        a = A.get(kw)
        if a is None:
            return None
        p = values.plain(a.v)
        return len(p) if isinstance(p, list) else 1

    def nflat(kw):
        return len(flat(A[kw].v)) if kw in A else None

    def shape(kw):
        p = values.plain(A[kw].v)
        return values.shape_of(p if isinstance(p, list) else [p])

    out = []
    t = o.t
    if t == "parameter" and "values" in A:
        if "zones" in A:
            if n("values") != n("zones"):
                out.append("parameter values/zones")
        elif nflat("values") != 1:
            out.append("parameter values without zones")
    if t == "splice" and "input_channels" in A and "zones" in A and n("input_channels") != n("zones"):
        out.append("splice channels/zones")
    if t == "computation" and "values" in A and "zones" in A and n("values") != n("zones"):
        out.append("computation values/zones")
    if t in ("parameter", "computation") and "values" in A:
        sh = shape("values")
        if sh is None:
            out.append("ragged values")
        else:
            # texts that look like numbers are converted, so the shape is that of the list either way
            if "dimension" in A and list(sh[1:]) != flat(A["dimension"].v):
                out.append("values do not match dimension")
            if nflat("values") == 0:
                out.append("empty values")
    if t == "calibration_coefficient":
        c = {n(k) for k in ("coefficients", "references", "plus_tolerances", "minus_tolerances") if k in A}
        if len(c) > 1:
            out.append("coefficient counts")
    if t == "calibration_measurement":
        ks = [k for k in ("maximum_deviation", "standard_deviation", "standard", "plus_tolerance", "minus_tolerance")
              if k in A]
        if len({n(k) for k in ks}) > 1:
            out.append("measurement counts")
        shs = [shape(k) for k in ks]
        if any(s is None for s in shs):
            out.append("ragged measurement")
        elif shs:
            if len({s[1:] for s in shs}) > 1:
                out.append("measurement shapes differ")
            if "dimension" in A and any(list(s[1:]) != flat(A["dimension"].v) for s in shs):
                out.append("measurement does not match dimension")
            if "axis" in A:
                out.append("axis with measurement")
    if "axis" in A and t in ("channel", "computation", "parameter", "calibration_measurement"):
        # the number of axes must match the number of dimensions, coordinates the dimension
        out.append("axis present") if not _axis_ok(o, A, byid) else None
    if t == "channel" and "dimension" in A and "element_limit" in A:
        el, dim = flat(A["element_limit"].v), flat(A["dimension"].v)
        if el and dim and (len(el) < len(dim) or any(e < d for e, d in zip(el, dim))):
            out.append("element limit below the dimension")
    if t == "zone" and "domain" in A:
        isdt = []
        for k in ("maximum", "minimum"):
            if k in A:
                x = flat(A[k].v)[0]
                isdt.append(hasattr(x, "year") or (isinstance(x, str) and parse_dtime_text(x) is not None))
        dom = values.plain(A["domain"].v)
        if dom == "TIME" and any(isdt) and not all(isdt):
            out.append("zone mixes date-times and numbers")
        if dom != "TIME" and any(isdt):
            out.append("zone date-time in a depth domain")
    if t in ("parameter", "axis"):
        kw = "values" if t == "parameter" else "coordinates"
        if kw in A:
            ks = {("s" if isinstance(x, str) and not _numlike(x) else "b" if isinstance(x, bool) else "n")
                  for x in flat(A[kw].v)}
            if len(ks) > 1 or "b" in ks:
                out.append("mixed value types")
            if len(flat(A[kw].v)) == 0:
                out.append("empty values")
    return out


def _numlike(s):
    try:
        (float if "." in s else int)(s)
        return True
    except ValueError:
        return False


def _axis_ok(o, A, byid):
    axs = [byid.get(r[1]) for r in flat(A["axis"].v) if isinstance(r, tuple)]
    if any(a is None for a in axs):
        return False
    if "dimension" in A:
        dims = flat(A["dimension"].v)
    elif o.t == "channel" and o.data_dim is not None:
        dims = o.data_dim
    elif o.t == "channel" and "element_limit" in A:
        dims = flat(A["element_limit"].v)
    else:
        # dimension is derived after the axis check in the library: nothing to compare with on a first write, but
        # a derived dimension may be compared on later ones
        return False
    if len(axs) != len(dims):
        return False
    for a, d in zip(axs, dims):
        c = a.attrs.get("coordinates")
        if c is not None and c.has_v and len(flat(c.v)) != d:
            return False
    return True


# ------------------------------------------------------------------------------------------------- data of a write

class FrameData:
    __slots__ = ("n", "slots", "codes", "dims", "index", "why")


def resolve_source(lf, w, arrays):
    """Dataset name -> ndarray (independent copies) for this logical file and write."""
    src = w.get("src") or {"k": "inline"}
    k = src["k"]
    if k in ("struct", "h5"):
        return {d: a for d, a in arrays.items()}
    merged = {d: arr.rows() for d, arr in lf.inline.items()}
    if k == "dict":
        merged.update(arrays)
    return merged


def window(w):
    return w.get("from", 0) or 0, w.get("to")


def frame_data(fr, lf, src, w, byid):
    """What the records of one frame must hold, or reasons why it cannot be written."""
    R = FrameData()
    R.why = []
    R.slots, R.codes, R.dims, R.index, R.n = [], [], [], None, None
    f0, t0 = window(w)
    rows = set()
    chans = [byid.get(c) for c in fr.channels]
    names = [c.name for c in chans]
    if len(set(names)) != len(names):
        R.why.append(("may", "same channel name twice in a frame"))
    raw = []
    for c in chans:
        a = src.get(c.ds)
        if a is None:
            # HDF5 paths may be written with or without the leading slash
            alt = c.ds[1:] if c.ds.startswith("/") else "/" + c.ds
            a = src.get(alt) if (w.get("src") or {}).get("k") == "h5" else None
        if a is None:
            R.why.append(("must", f"dataset {c.ds} missing"))
            continue
        if a.ndim == 0:
            R.why.append(("must", "0-dimensional data"))
            continue
        if a.ndim > 2:
            R.why.append(("must", "more than two dimensions"))
            continue
        if a.ndim == 2 and a.shape[1] == 0:
            R.why.append(("may", "zero-width data"))
        cast = np.dtype(c.cast) if c.cast else None
        outdt = (cast or a.dtype).newbyteorder("=")
        if outdt.name not in DT_CODE:
            R.why.append(("must", f"unsupported dtype {outdt}"))
            continue
        if a.dtype.newbyteorder("=").name not in DT_CODE:
            R.why.append(("may", f"unsupported source dtype {a.dtype} with cast"))
            if a.dtype.kind not in "iuf":
                continue
        rows.add(a.shape[0])
        raw.append((c, a, outdt))
        dim = list(a.shape[1:]) or [1]
        da = c.attrs.get("dimension")
        if da is not None and da.has_v and not da.wild and flat(da.v) != dim:
            R.why.append(("must" if flat(da.v) else "may", "DIMENSION differs from the data"))
        ea = c.attrs.get("element_limit")
        if ea is not None and ea.has_v and not ea.wild:
            el = flat(ea.v)
            if len(el) < len(dim) or any(e < d for e, d in zip(el, dim)):
                R.why.append(("must" if el else "may", "ELEMENT-LIMIT below the data"))
    if len(raw) != len(chans):
        return R
    if len(rows) > 1:
        if len({a[f0:t0].shape[0] for _, a, _ in raw}) > 1:
            R.why.append(("must", "different row counts"))
            return R
        R.why.append(("may", "different row counts outside the window"))
    n = min(rows)
    if n == 0:
        R.why.append(("may", "no rows"))
    if f0 < 0 or (t0 is not None and t0 < 0):
        R.why.append(("may", "negative window"))
    if f0 >= n:
        R.why.append(("may", "window starts after the data"))
    if t0 is not None and t0 > n:
        R.why.append(("may", "window ends after the data"))
    for c, a, outdt in raw:
        a = a[f0:t0]
        R.slots.append(values.be_bytes_rows(a, outdt))
        R.codes.append(DT_CODE[outdt.name])
        R.dims.append(list(a.shape[1:]) or [1])
    R.n = raw[0][1][f0:t0].shape[0]
    if R.n == 0:
        R.why.append(("may", "window selects nothing"))
    c, a, outdt = raw[0]
    ia = a[f0:t0]
    if ia.dtype.newbyteorder("=") != outdt:
        with np.errstate(all="ignore"):
            ia = ia.astype(outdt)
    R.index = ia
    ixt = fr.attrs.get("index_type")
    if ixt is not None and ixt.has_v and a.ndim != 1:
        R.why.append(("may", "index channel is not one-dimensional"))
    return R


def why_invalid(mf, w, arrays, byid):
    """All reasons why this write may or must be refused; also the per-frame data expectations."""
    why = []
    frames = {}
    add = lambda sev, msg: why.append((sev, msg))
    if not mf.lfs:
        add("may", "no logical file")
    ml = mf.ml
    if not isinstance(ml, int) or ml < 20 or ml > 16384 or ml % 2:
        add("must", f"maximum record length {ml}")
        if isinstance(ml, int) and 20 <= ml <= 16384:
            why[-1] = ("may", why[-1][1])
    if len(mf.si) > 60 or not is_ascii(mf.si):
        add("must", "storage set identifier does not fit")
    if len(str(mf.sn)) > 4:
        add("must", "storage unit sequence number does not fit")
    if not isinstance(mf.sn, int) or mf.sn < 1:
        add("may", "storage unit sequence number not positive")
    ocs = w.get("ocs")
    if ocs not in (None, "def") and (ocs < ml or ocs % 1):
        add("may", "output chunk size")
    ics = w.get("ics")
    if ics is not None and ics <= 0:
        add("may", "input chunk size")
    src = w.get("src") or {"k": "inline"}
    keys = {}
    for lf in mf.lfs:
        if src["k"] in ("struct", "h5") and lf.inline:
            add("may", "structured source with inline data")
        if not is_ascii(lf.fh_id) or not is_ascii(lf.ident):
            add("must", "non-ASCII header")
        if lf.shared_header:
            add("may", "file header item shared")
        if not lf.of("origin"):
            add("must", "no origin")
            continue
        if lf.of("origin")[0].fid != lf.fh_id:
            add("may", "the header ID was changed after the origin was made")
        if not lf.of("channel"):
            add("must", "no channels")
        if not lf.of("frame"):
            add("must", "no frames")
        orefs = {o.live.origin_reference for o in lf.of("origin")}
        if any(isinstance(o.live.copy_number, int) and o.live.copy_number > 255 for o in lf.objs):
            add("must", "more copies of one name than copy numbers")
        ssrc = resolve_source(lf, w, arrays)
        for fr in lf.of("frame"):
            bad = [c for c in fr.channels if c not in byid or byid[c].lf is not lf]
            if bad:
                add("must", "frame lists a channel of another logical file")
                continue
            if not fr.channels:
                add("must", "frame without channels")
                continue
            fd = frame_data(fr, lf, ssrc, w, byid)
            frames[fr.id] = fd
            why.extend(fd.why)
            if len(fd.dims) == len(fr.channels):
                for cid, dm in zip(fr.channels, fd.dims):
                    byid[cid].data_dim = dm
        cnt = {}
        for o in lf.objs:
            key = (o.t, o.set or None)
            if keys.setdefault(key, lf) is not lf:
                add("may", f"{o.t} set {o.set!r} used by two logical files")
            if len(o.name) > 255:
                add("must", "name longer than 255")
            if not is_ascii(o.name):
                add("must", "non-ASCII name")
            if o.name == "":
                add("may", "empty name")
            if o.set is not None and (len(o.set) > 255 or not is_ascii(o.set)):
                add("must", "set name does not fit")
            ck = (o.t, o.name)
            cnt[ck] = cnt.get(ck, 0) + 1
            if o.oref is not None:
                if o.t != "origin" and o.oref not in orefs:
                    add("must", f"origin reference {o.oref} names no origin of the logical file")
                if not 0 <= o.oref < (1 << 30):
                    add("must", "origin reference out of range")
            for kw, a in o.attrs.items():
                kind = o.ty.attrs[kw][2]
                if a.wild:
                    add("may", f"{o.t}.{kw} unspecified value")
                    continue
                if a.u is not None:
                    if not is_ascii(a.u) or len(a.u) > 255:
                        add("must" if a.has_v else "may", "units do not fit")
                if a.has_v:
                    vk = "WS" if kw == "sample_count" else kind
                    p = value_problem(vk, a.v)
                    if p:
                        add(p[0], f"{o.t}.{kw}: {p[1]}")
                    for r in values.refs_in(a.v):
                        t = byid.get(r)
                        if t is None or t.lf is not lf:
                            add("must", f"{o.t}.{kw} refers outside the logical file")
            for r in attr_rules(o, byid):
                add("may", f"{o.t}: {r}")
        for (t, nm), c in cnt.items():
            if c > 256:
                add("must", "more than 256 objects of one name")
        for oid, data in lf.nf:
            t = byid.get(oid)
            if t is None or t.lf is not lf:
                add("must", "no-format data refers outside the logical file")
            if isinstance(data, str):
                add("must", "non-ASCII no-format text")
    return why, frames


def hc_breaches(mf, frames, byid):
    """Which high-compatibility restrictions the specification definitely breaks."""
    from .oracle import HC_NAME, classify_index
    r = set()
    if not HC_NAME.match(mf.si):
        r.add("name")
    units = set(spec.ENUMS["Unit"].values())
    for lf in mf.lfs:
        if not HC_NAME.match(lf.fh_id):
            r.add("name")
        n = {}
        for fr in lf.of("frame"):
            for c in fr.channels:
                n[c] = n.get(c, 0) + 1
            fd = frames.get(fr.id)
            if fd is None:
                continue
            if any(c in (12, 13, 14) for c in fd.codes):
                r.add("signed")
            ixt = fr.attrs.get("index_type")
            if ixt is not None and ixt.has_v and not ixt.wild and fd.index is not None and fd.index.ndim == 1:
                ix = fd.index
                v = [float(q) for q in ix] if ix.dtype.kind == "f" else [int(q) for q in ix]
                k = classify_index(v)[0]
                if k == "none":
                    r.add("spacing")
                elif k == "grey":
                    r.add("grey")
        for c in lf.of("channel"):
            if n.get(c.id, 0) != 1:
                r.add("frames")
        for o in lf.objs:
            if not HC_NAME.match(o.name):
                r.add("name")
            for kw, a in o.attrs.items():
                if a.u is not None and a.u not in units:
                    r.add("enum")
                k = o.ty.attrs[kw][2]
                if k.startswith("S:") and a.has_v and not a.wild and values.plain(a.v) not in spec.ENUMS[k[2:]].values():
                    r.add("enum")
    return r
