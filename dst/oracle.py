"""Compares a produced file with the reference model of its specification.

Every disagreement is a ``P`` carrying the set of properties it contradicts.
"""
import math
import re
import struct
import time
import zlib
from datetime import datetime, timedelta, timezone

import numpy as np

from . import model, rp66, simio, spec, values
from .rp66 import NUM_CODES, TEXT_CODES

ALL = {f"C{i:02d}" for i in range(1, 21)}
CONTENT = {"C01", "C02", "C03", "C05", "C07", "C08", "C09", "C12", "C13", "C16", "C18"}
# a valid specification that cannot be written contradicts whatever promises its output
UNEXPECTED = ALL - {"C01", "C12", "C17", "C19"}
HC_NAME = re.compile(r"[A-Z0-9_-]+\Z")


class P:
    __slots__ = ("tags", "rule", "msg", "op")

    def __init__(self, tags, rule, msg, op=None):
        self.tags, self.rule, self.msg, self.op = set(tags), rule, msg, op

    def key(self, prop):
        return f"{prop}/{self.rule}"

    def __repr__(self):
        return f"{'+'.join(sorted(self.tags))}/{self.rule} @{list(self.op) if self.op is not None else ''}: {self.msg}"


# ---------------------------------------------------------------------------------------- on-disk growth (C10)

def check_flushes(out, path, flushes, last, final, info, mls):
    """After each flush the target held a prefix of the final file that ends on a visible-record boundary."""
    if info["ok"]:
        if info["reported"] is not None and info["reported"] != len(final):
            out.append(P({"C10"}, "reported_size", f"writer reports {info['reported']} bytes, file has {len(final)}", path))
        bounds = set(rp66.parse_physical(final).vr_bounds) | {len(final), 0}
        crc = at = 0
        for i, (n, c, _) in enumerate(flushes):
            if n < at:
                crc = at = 0
            crc, at = zlib.crc32(memoryview(final)[at:n], crc), n
            if n > len(final) or crc != c:
                out.append(P({"C10"}, "flush_not_prefix",
                             f"after flush {i + 1} of {len(flushes)} the {n} bytes on disk are not a prefix of the final file", path))
                return
            if n not in bounds:
                out.append(P({"C10"}, "flush_mid_record",
                             f"after flush {i + 1} of {len(flushes)} the file ends at {n}, inside a visible record", path))
                return
    else:
        # an interrupted write: whatever was flushed on the way is whole records that only ever grow
        # (flushes hit by a storage fault are not judged)
        if info["fired"]:
            if any(k.split(":")[1] in ("SHORT", "ENOSPC", "EIO", "EDQUOT") for k in info["fired"]):
                return
            flushes, last = flushes[:-1], last[:-1]
        if not flushes or not last:
            return
        for i, (n, _, grew) in enumerate(flushes):
            if not grew:
                out.append(P({"C10"}, "flush_not_prefix", f"flush {i + 1} of an interrupted write changed earlier bytes", path))
                return
        bounds = set(rp66.parse_physical(last[-1]).vr_bounds) | {0}
        for i, (n, _, _) in enumerate(flushes):
            if n not in bounds:
                out.append(P({"C10"}, "flush_mid_record", f"flush {i + 1} of an interrupted write ends inside a visible record ({n})", path))
                return


# --------------------------------------------------------------------------------------------- values (C05)

def _eqf(a, b):
    """Same float64, bit for bit, except that any NaN equals any NaN."""
    if isinstance(a, bool):
        a = int(a)
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    if a != b:
        return False
    if a == 0 and isinstance(a, float) and isinstance(b, float):
        return math.copysign(1, a) == math.copysign(1, b)
    return True


def _f32ok(a, b, code):
    if code == 2 and isinstance(a, (int, float)):
        try:
            f = struct.unpack(">f", struct.pack(">f", a))[0]
        except (OverflowError, struct.error):
            return False
        return _eqf(float(a), f) and _eqf(f, b)
    return False


def dt_utc(x, tz_names):
    """Possible UTC instants (ms since epoch) of a date-time the user set."""
    if x.tzinfo is not None:
        return {_ms(x.astimezone(timezone.utc))}
    r = set()
    for tz in tz_names:
        r.add(_ms(_local_to_utc(x, tz)))
    return r


def _local_to_utc(x, tz):
    from zoneinfo import ZoneInfo
    key = {"UTC0": "UTC"}.get(tz, tz)
    return x.replace(tzinfo=ZoneInfo(key)).astimezone(timezone.utc)


def _ms(u):
    d = u - datetime(1970, 1, 1, tzinfo=timezone.utc)
    return d.days * 86400000 + d.seconds * 1000 + d.microseconds / 1000


def file_dt(v, tz_names):
    """Possible UTC instants of a DTIME read from the file."""
    code, d = v
    if code == 2:
        return {_ms(d.replace(tzinfo=timezone.utc))}
    return {_ms(_local_to_utc(d, t)) for t in tz_names}


def scalar_equal(kind, x, code, y, tz_names):
    """Does file value y (in representation code `code`) say what the user's plain value x says?"""
    k = kind.split(":")[0]
    if k in ("T", "TL", "RT"):
        return code == 20 and isinstance(x, str) and y == x
    if k in ("I", "E", "S", "P"):
        return code in (19, 20) and y == x
    if k in ("F", "FL", "FM", "W", "W16", "DIM", "WS", "ST", "B"):
        if k == "B" and isinstance(x, str):
            x = 1 if x.lower() in ("1", "true", "t", "yes", "y") else 0
        if code not in NUM_CODES and code != 26:
            return False
        if code == 2:
            return _f32ok(x, y, 2)
        return _eqf(x, y)
    if k in ("D", "DF"):
        if isinstance(x, str):
            p = model.parse_dtime_text(x)
            if p is not None:
                x = p
            elif k == "DF":
                try:
                    x = float(x)
                except ValueError:
                    return True
        if hasattr(x, "year"):
            if code != 21:
                return False
            want, got = dt_utc(x, tz_names), file_dt(y, tz_names)
            # whole milliseconds can be stored as they are
            tol = 1 if x.microsecond % 1000 else 0
            return any(abs(a - b) <= tol for a in want for b in got)
        return code in NUM_CODES and (_f32ok(x, y, 2) if code == 2 else _eqf(float(x), float(y)))
    if k in ("V", "C"):
        if isinstance(x, str):
            if code in TEXT_CODES:
                return y == x
            try:
                return code in NUM_CODES and _eqf(float(x), float(y))
            except ValueError:
                return False
        if code not in NUM_CODES:
            return False
        if code == 2:
            return _f32ok(x, y, 2)
        return _eqf(x, y) if isinstance(x, float) and isinstance(y, float) else x == y
    return True


# --------------------------------------------------------------------------------------------------- checking

class Check:
    def __init__(self, sim, mf, raw, w, frames, path, out, tz_names, skip_frames=()):
        self.sim, self.mf, self.raw, self.w, self.frames, self.path, self.out = sim, mf, raw, w, frames, path, out
        self.tz = tz_names
        self.byid = sim.objs
        self.skip_frames = set(skip_frames)

    def bad(self, tags, rule, msg):
        self.out.append(P(tags, rule, msg, self.path))

    # ------------------------------------------------------------------------------------------- the whole file
    def run(self):
        mf = self.mf
        R = self.parsed = rp66.parse(self.raw)
        ph = R.phys
        for p in R.problems:
            if p.tag in ("C01", "C02"):
                self.bad({p.tag}, p.rule, p.msg)
            else:
                self.bad(CONTENT | {"C10", "C11", "C14", "C17", "C20"}, "undecodable_" + p.rule, p.msg)
        if ph.broken:
            self.bad(CONTENT | {"C10", "C11", "C14", "C17", "C20"}, "undecodable_framing", "the record structure cannot be followed")
            return R
        if ph.sul:
            want = {"seq": str(mf.sn), "max": mf.ml, "id": mf.si.ljust(60)}
            for k, v in want.items():
                if ph.sul[k] != v:
                    self.bad({"C01"}, f"sul_{k}", f"storage unit label {k} is {ph.sul[k]!r}, configured {v!r}")
        if R.fatal:
            return R
        if len(R.lfiles) != len(mf.lfs):
            self.bad({"C09", "C18"}, "lf_count", f"{len(R.lfiles)} logical files in the file, {len(mf.lfs)} were created")
        for i, (lf, x) in enumerate(zip(mf.lfs, R.lfiles)):
            self.lf(i, lf, x)
        return R

    # ----------------------------------------------------------------------------------------- one logical file
    def lf(self, idx, lf, x):
        if not self.order(idx, lf, x):
            return
        index = {}           # (set type, set name or None) -> EflrSet
        for s in x.sets:
            index.setdefault((s.type, s.name or None), s)
        self.idents = {}     # (set type, ObName) -> count in this logical file
        for s in x.sets:
            for o in s.objects:
                k = (s.type, tuple(o.name))
                self.idents[k] = self.idents.get(k, 0) + 1
                if self.idents[k] == 2:
                    self.bad({"C07"}, "identity_dup", f"logical file {idx}: two {s.type} objects are {tuple(o.name)}")
        d = lf.defining()
        if d is None:
            return
        self.def_ref = d.live.origin_reference
        orefs = {o.name.origin for s in x.sets if s.type == "ORIGIN" for o in s.objects}
        for s in x.sets:
            if s.type == "FILE-HEADER":
                continue
            for o in s.objects:
                if o.name.origin not in orefs:
                    self.bad({"C07"}, "origin_unknown", f"logical file {idx}: {s.type} {tuple(o.name)} has origin "
                             f"{o.name.origin}, origins are {sorted(orefs)}")
        # object by object
        seen = set()
        self.live_idents = {}
        for o in lf.objs:
            st = o.ty.set_type
            s = index.get((st, o.set or None))
            oref = self.expected_oref(o)
            want = (oref, o.live.copy_number, o.name)
            f = None
            if s is not None:
                c = [q for q in s.objects if q.name.name == o.name]
                exact = [q for q in c if tuple(q.name) == want]
                f = exact[0] if exact else None
                if f is None and c:
                    self.bad({"C07", "C05"}, "identity_wrong", f"logical file {idx}: {st} {o.name[:40]!r} expected as {want}, "
                             f"file has {[tuple(q.name) for q in c][:4]}")
                    same = [q for q in c if q.name.copy == want[1]]
                    f = same[0] if same else None
            if f is None:
                self.bad({"C05", "C18"} | ({"C07"} if s is not None else set()), "object_missing",
                         f"logical file {idx}: {st} {o.name[:40]!r} (set {o.set!r}) is not in the file")
                continue
            if (st, o.set or None, tuple(f.name)) in seen:
                self.bad({"C07", "C05"}, "object_merged", f"logical file {idx}: two added {st} objects share {tuple(f.name)}")
            seen.add((st, o.set or None, tuple(f.name)))
            self.live_idents[o.id] = tuple(f.name)
            self.object(idx, lf, o, f, s)
        for s in x.sets:
            if s.type == "FILE-HEADER":
                continue
            for o in s.objects:
                if (s.type, s.name or None, tuple(o.name)) not in seen:
                    self.bad({"C18", "C20", "C05"}, "object_extra", f"logical file {idx}: {s.type} {tuple(o.name)} "
                             f"(set {s.name!r}) was never added to this logical file")
        self.iflrs(idx, lf, x)
        if self.sim_hc(lf):
            self.hc_file(idx, lf, x)

    def expected_oref(self, o):
        if o.t == "origin":
            return o.oref if o.oref is not None else o.live.origin_reference
        return o.oref if o.oref is not None else self.def_ref

    # --------------------------------------------------------------------------------------------- order (C09)
    def order(self, idx, lf, x):
        ok = True
        s0 = x.sets[0] if x.sets else None
        if s0 is None or s0.type != "FILE-HEADER" or x.sequence[0][1] is not s0:
            self.bad({"C09"}, "no_header", f"logical file {idx} does not start with a FILE-HEADER")
            return True
        if len(s0.objects) != 1:
            self.bad({"C09"}, "header_objects", f"logical file {idx}: FILE-HEADER holds {len(s0.objects)} objects")
        if s0.lr_type != 0:
            self.bad({"C09"}, "lr_type", f"FILE-HEADER has record type {s0.lr_type}")
        if s0.objects:
            h = s0.objects[0]
            a, b = h.attrs.get("SEQUENCE-NUMBER"), h.attrs.get("ID")
            want = (str(lf.seq).rjust(10), lf.fh_id.ljust(65))
            got = tuple(q.values[0] if q is not None and q.values and q.code == 20 else None for q in (a, b))
            if h.name.name != lf.ident:
                self.bad({"C05"}, "header_ident", f"logical file {idx}: header object {h.name.name!r}, expected {lf.ident!r}")
            if got[0] != want[0]:
                self.bad({"C09"}, "header_seq", f"logical file {idx}: SEQUENCE-NUMBER {got[0]!r}, expected {want[0]!r}")
            if got[1] != want[1]:
                self.bad({"C09"}, "header_id", f"logical file {idx}: header ID {got[1]!r}, expected {want[1]!r}")
        # sets
        phase = 0
        seen = set()
        defined = set()
        first = True
        for kind, r in x.sequence[1:]:
            if kind == "E":
                if r.type == "ORIGIN":
                    if phase > 0:
                        self.bad({"C09"}, "origin_late", f"logical file {idx}: an ORIGIN set comes after other records")
                    if first:
                        self.defining(idx, lf, r)
                        first = False
                else:
                    if first:
                        self.bad({"C09"}, "origin_missing", f"logical file {idx}: {r.type} comes before any ORIGIN set")
                        first = False
                    phase = max(phase, 1)
                if r.type == "FILE-HEADER":
                    self.bad({"C09"}, "second_header", f"logical file {idx} has a second FILE-HEADER")
                k = (r.type, r.name or None)
                if k in seen:
                    self.bad({"C09"}, "set_repeated", f"logical file {idx}: set {k} appears twice")
                seen.add(k)
                if not r.objects:
                    self.bad({"C09"}, "set_empty", f"logical file {idx}: set {k} holds no object")
                t = spec.BY_SET_TYPE.get(r.type)
                if t is None:
                    self.bad({"C05", "C18"}, "set_unknown", f"logical file {idx}: unknown set type {r.type}")
                elif r.lr_type != t.lr_type:
                    self.bad({"C02", "C09"}, "lr_type", f"logical file {idx}: {r.type} set in a record of type {r.lr_type}")
                for o in r.objects:
                    defined.add((r.type, tuple(o.name)))
                if phase == 2:
                    self.bad({"C09"}, "set_after_data", f"logical file {idx}: set {k} comes after data records")
            else:
                # the record's reference must be defined by now; a set that comes later is reported here too
                st = "FRAME" if r.type == 0 else "NO-FORMAT"
                if (st, tuple(r.ref)) not in defined:
                    self.bad({"C09", "C07"}, "ref_before_def", f"logical file {idx}: data record refers to {st} "
                             f"{tuple(r.ref)}, not defined before it")
                    return ok
                phase = 2
        return ok

    def defining(self, idx, lf, s):
        d = lf.defining()
        if d is None or not s.objects:
            return
        o = s.objects[0]
        fid = o.attrs.get("FILE-ID")
        if fid is None or fid.values != [lf.fh_id]:
            self.bad({"C09"}, "origin_file_id", f"logical file {idx}: FILE-ID of the first origin is "
                     f"{None if fid is None else fid.values}, header id is {lf.fh_id!r}")
        n = o.attrs.get("FILE-SET-NUMBER")
        if n is None or not n.has_value or not n.values:
            self.bad({"C09"}, "origin_fsn", f"logical file {idx}: the first origin has no FILE-SET-NUMBER")
        if o.name.name != d.name or o.name.origin != d.live.origin_reference:
            self.bad({"C09"}, "origin_first", f"logical file {idx}: first origin is {tuple(o.name)}, the defining origin is "
                     f"{d.name!r} ({d.live.origin_reference})")

    # ------------------------------------------------------------------------------------------------- objects
    def object(self, idx, lf, o, f, s):
        where = f"lf {idx} {s.type} {o.name[:30]!r}"
        known = set()
        for kw, (py, label, kind) in o.ty.attrs.items():
            known.add(label)
            a = f.attrs.get(label)
            m = o.attrs.get(kw)
            tags = {"C05"}
            if o.t == "frame" and kw in ("spacing", "direction", "index_min", "index_max"):
                tags = {"C05", "C13"}
            if o.t == "channel" and kw in ("dimension", "element_limit"):
                tags = {"C05", "C08"}
            if o.t == "frame" and kw == "channels":
                self.refs(where, label, [("ref", c) for c in o.channels], a, "RL:channel", idx, lf)
                continue
            if m is not None and m.has_v:
                if m.wild:
                    continue
                self.attr(where, o, kw, label, kind, m, a, tags, idx, lf)
            else:
                self.unset(where, o, kw, label, kind, m, a, tags, lf)
        for label in f.attrs:
            if label in known:
                continue
            a = f.attrs[label]
            if label in spec.EXTRA_LABELS.get(o.t, ()):
                if label == "REPRESENTATION-CODE" or label == "FILE-ID":
                    continue
            if a.has_value:
                self.bad({"C05"}, "attr_unknown", f"{where}: {label} = {a.values!r} was never assigned")
        if o.t == "frame" and o.id in self.frames and o.id not in self.skip_frames:
            self.index_meta(where, o, f, lf)

    @staticmethod
    def isset(a):
        return a is not None and a.present and a.has_value and a.count

    def attr(self, where, o, kw, label, kind, m, a, tags, idx, lf):
        k = kind.split(":")[0]
        want = model.flat(m.v)
        if o.t == "calibration_measurement" and kw == "sample_count":
            kind = k = "WS"
        if not want:
            # an empty list has no value: absent or an explicit count of zero
            if self.isset(a):
                self.bad(tags, "attr_empty", f"{where}: {label} was set to an empty list, file has {a.values!r}")
            return
        if any(x is None for x in want):
            return
        if not self.isset(a):
            self.bad(tags, "attr_missing", f"{where}: {label} was set to {want!r:.80}, file has no value")
            return
        if k.startswith("R") and any(isinstance(x, tuple) for x in want):
            self.refs(where, label, want, a, kind, idx, lf)
        else:
            if len(want) != len(a.values):
                self.bad(tags, "attr_count", f"{where}: {label} has {len(a.values)} values, set {len(want)}")
                return
            tzs = set(self.tz) | set(m.tzs or ())
            for x, y in zip(want, a.values):
                if not scalar_equal(kind, x, a.code, y, tzs):
                    self.bad(tags, "attr_value", f"{where}: {label} was set to {x!r:.120}, file says {y!r:.120} "
                             f"({rp66.CODE_NAME.get(a.code, a.code)})")
                    break
        if m.u is not None:
            if a.units != m.u:
                self.bad({"C05"}, "attr_units", f"{where}: units of {label} were set to {m.u!r:.60}, file says {a.units!r:.60}")
        elif a.units:
            if not (o.t == "frame" and kw in ("spacing", "index_min", "index_max") and a.units == self.index_units(o)):
                self.bad({"C05"}, "attr_units_extra", f"{where}: {label} has units {a.units!r} that were never set")

    def index_units(self, fr):
        c = self.byid.get(fr.channels[0]) if fr.channels else None
        u = c.attrs.get("units") if c else None
        if u is None or not u.has_v or u.wild:
            return ""
        return values.plain(u.v)

    def refs(self, where, label, want, a, kind, idx, lf):
        tags = {"C07", "C05"}
        got = a.values if self.isset(a) else []
        if len(got) != len(want):
            self.bad(tags, "ref_count", f"{where}: {label} has {len(got)} references, set {len(want)}")
            return
        for x, y in zip(want, got):
            t = self.byid.get(x[1])
            if t is None:
                continue
            st = t.ty.set_type
            w = (self.expected_oref(t), t.live.copy_number, t.name)
            if isinstance(y, rp66.ObjRef):
                if y[0] != st:
                    self.bad(tags, "ref_type", f"{where}: {label} refers to set type {y[0]!r}, object passed is a {st}")
                    return
                y = y[1]
            elif not isinstance(y, rp66.ObName):
                self.bad(tags, "ref_code", f"{where}: {label} is not a reference: {y!r}")
                return
            elif kind.split(":")[0] in ("RA", "RAL", "RA1"):
                self.bad(tags, "ref_code", f"{where}: {label} may refer to any type but is written without one")
                return
            if tuple(y) != w:
                self.bad(tags, "ref_wrong", f"{where}: {label} refers to {tuple(y)}, object passed is {st} {w}")
            n = self.idents.get((st, tuple(y)), 0)
            if n != 1:
                self.bad({"C07"}, "ref_dangling", f"{where}: {label} -> {st} {tuple(y)} names {n} objects of logical file {idx}")

    def unset(self, where, o, kw, label, kind, m, a, tags, lf):
        """Attributes the user never gave a value: absent, or the documented default."""
        if not self.isset(a):
            if o.t == "channel" and kw in ("dimension", "element_limit") and o.data_dim is not None \
                    and o.id not in self.skip_frames:
                self.bad({"C08"}, "channel_no_dim", f"{where}: no {label}")
            return
        v = a.values
        if m is not None and m.u is not None and a.units != m.u:
            self.bad({"C05"}, "attr_units", f"{where}: units of {label} were set to {m.u!r:.60}, file says {a.units!r:.60}")
        if o.t == "origin":
            if kw == "field_name" and v == ["WILDCAT"]:
                return
            if kw == "file_set_number" and len(v) == 1 and isinstance(v[0], int) and v[0] >= 1:
                return
            if kw == "creation_time" and a.code == 21:
                got = file_dt(v[0], self.tz)
                told = set()
                for t, x in simio.W.reads:
                    told.add(t * 1000)
                    told |= dt_utc(x, self.tz)      # the zone may have changed since
                real = time.time() * 1000
                if told and not any(abs(g - t) <= 1 for g in got for t in told) \
                        and not any(abs(g - real) < 86400000 for g in got):
                    self.bad({"C05"}, "creation_time", f"{where}: CREATION-TIME {v} is no time the clock ever showed")
                return
        elif o.t == "channel":
            if kw == "long_name" and v == [o.name] and a.code == 20:
                return
            if kw in ("dimension", "element_limit"):
                if o.data_dim is not None:
                    if kw == "dimension" and v != o.data_dim:
                        self.bad({"C08"}, "channel_dim", f"{where}: DIMENSION {v}, data has {o.data_dim}")
                    if kw == "element_limit" and not _bounds(v, o.data_dim):
                        self.bad({"C08"}, "channel_limit", f"{where}: ELEMENT-LIMIT {v} for data {o.data_dim}")
                    return
                other = o.attrs.get("element_limit" if kw == "dimension" else "dimension")
                if other is not None and other.has_v:
                    return
                # a channel outside every frame of this write: nothing to derive it from
                self.bad({"C05", "C14"}, "attr_default", f"{where}: {label} = {v} although the channel has no data here")
                return
        elif o.t == "frame" and kw in ("spacing", "direction", "index_min", "index_max"):
            return                       # judged by index_meta
        elif o.t in ("computation", "parameter", "calibration_measurement") and kw == "dimension":
            ks = ("values",) if o.t != "calibration_measurement" else \
                ("maximum_deviation", "standard_deviation", "standard", "plus_tolerance", "minus_tolerance", "measurement",
                 "reference")
            shs = []
            for q in ks:
                z = o.attrs.get(q)
                if z is not None and z.has_v:
                    p = values.plain(z.v)
                    shs.append(values.shape_of(p if isinstance(p, list) else [p]))
            if not shs or any(h is not None and v in (list(h[1:]) or [1], list(h[1:])) for h in shs):
                if shs:
                    return
        self.bad({"C05"}, "attr_extra", f"{where}: {label} = {v!r:.80} was never assigned")

    # --------------------------------------------------------------------------------------------- index (C13)
    def index_meta(self, where, o, f, lf):
        fd = self.frames[o.id]
        if fd.index is None or fd.n is None:
            return
        get = lambda k: o.attrs.get(k) if o.attrs.get(k) is not None and o.attrs[k].has_v else None
        val = lambda l: (f.attrs[l].values[0] if l in f.attrs and self.isset(f.attrs[l]) else None)
        ixt = get("index_type")
        T = {"C13"}
        mn, mx, sp, di = val("INDEX-MIN"), val("INDEX-MAX"), val("SPACING"), val("DIRECTION")
        if ixt is None:
            if get("index_min") is None and mn != 1:
                self.bad(T | {"C05"}, "index_min", f"{where}: no index type, INDEX-MIN {mn!r}, expected 1")
            if get("index_max") is None and mx != fd.n:
                self.bad(T | {"C05"}, "index_max", f"{where}: no index type, INDEX-MAX {mx!r}, {fd.n} rows written")
            if get("spacing") is None and sp not in (None, 1):
                self.bad(T | {"C05"}, "index_spacing", f"{where}: no index type, SPACING {sp!r}")
            if get("direction") is None and di is not None:
                self.bad(T | {"C05"}, "index_direction", f"{where}: no index type, DIRECTION {di!r}")
            return
        ix = fd.index
        if ix.ndim != 1 or not ix.shape[0]:
            return
        vals = [float(q) for q in ix] if ix.dtype.kind == "f" else [int(q) for q in ix]
        nan = any(isinstance(q, float) and math.isnan(q) for q in vals)
        clean = [q for q in vals if q == q]
        for key, label, got, fn in (("index_min", "INDEX-MIN", mn, min), ("index_max", "INDEX-MAX", mx, max)):
            if get(key) is not None:
                continue
            ok = got is not None and ((nan and isinstance(got, float) and math.isnan(got)) or
                                      (clean and isinstance(got, (int, float)) and got == fn(clean)))
            if nan and got is None:
                ok = True
            if not ok:
                self.bad(T, key, f"{where}: {label} {got!r}, rows written have {fn(clean) if clean else 'nan'!r}")
            u = f.attrs[label].units if label in f.attrs and self.isset(f.attrs[label]) else ""
            self.ix_units(where, o, key, label, u)
        if get("spacing") is None and sp is not None:
            self.ix_units(where, o, "spacing", "SPACING", f.attrs["SPACING"].units)
        kind, lo, hi, sense = classify_index(vals)
        if get("spacing") is None:
            if kind == "none" and sp is not None:
                self.bad(T, "spacing_invented", f"{where}: SPACING {sp!r} although index differences are not uniform")
            if kind == "single" and sp is not None:
                self.bad(T, "spacing_invented", f"{where}: SPACING {sp!r} for a single row")
            if kind == "exact":
                if sp is None and lo != 0:
                    self.bad(T, "spacing_missing", f"{where}: uniform index, difference {lo!r}, no SPACING")
                elif sp is not None and sp != lo and not (ix.dtype.itemsize < 8 and ix.dtype.kind == "f"
                                                          and float(np.float32(lo)) == sp):
                    self.bad(T, "spacing_wrong", f"{where}: SPACING {sp!r}, every index difference is {lo!r}")
            if kind == "uniform":
                if sp is None:
                    self.bad(T, "spacing_missing", f"{where}: differences within tolerance ({lo!r}..{hi!r}), no SPACING")
            if kind in ("uniform", "grey") and sp is not None:
                e = 1e-6 * max(abs(lo), abs(hi))
                if not math.isinf(lo) and not lo - e <= sp <= hi + e:
                    self.bad(T, "spacing_wrong", f"{where}: SPACING {sp!r}, index differences are {lo!r}..{hi!r}")
        if get("direction") is None:
            if di is not None and sense is not False and di != {1: "INCREASING", -1: "DECREASING"}.get(sense):
                self.bad(T, "direction_wrong", f"{where}: DIRECTION {di!r}, index sense is {sense}")
            if di is None and kind == "none" and sp is None and sense in (1, -1):
                self.bad(T, "direction_missing", f"{where}: no SPACING and no DIRECTION although the index is monotonic ({sense})")

    def ix_units(self, where, o, key, label, u):
        m = o.attrs.get(key)
        if m is not None and m.u is not None:
            return                        # judged by unset()
        if u not in ("", self.index_units(o)):
            self.bad({"C13", "C05"}, "index_units", f"{where}: {label} has units {u!r}, index channel has {self.index_units(o)!r}")

    # ------------------------------------------------------------------------------------- data records (C03, ...)
    def iflrs(self, idx, lf, x):
        nf = [r for r in x.iflrs if r.type == 1]
        fd = [r for r in x.iflrs if r.type == 0]
        # no-format
        want = [(self.byid[o], d) for o, d in lf.nf if o in self.byid]
        got = [(tuple(r.ref), bytes(r.data)) for r in nf]
        exp = [((self.expected_oref(o), o.live.copy_number, o.name), d) for o, d in want]
        if len(got) != len(exp):
            self.bad({"C16", "C18", "C02"}, "noformat_count", f"logical file {idx}: {len(got)} no-format records, {len(exp)} were added")
        for i, (g, e) in enumerate(zip(got, exp)):
            if g != e:
                tags = {"C16"}
                if g[0] != e[0]:
                    tags |= {"C07"}
                if g not in exp:
                    tags |= {"C02"} if len(g[1]) != len(e[1]) else set()
                self.bad(tags, "noformat_payload", f"logical file {idx}: no-format record {i} is {g[0]} {g[1][:24].hex()} "
                         f"({len(g[1])} bytes), expected {e[0]} {e[1][:24].hex()} ({len(e[1])} bytes)")
                break
        # frame data
        byref = {}
        for r in fd:
            byref.setdefault(tuple(r.ref), []).append(r)
        expected_refs = {}
        for fr in lf.of("frame"):
            ident = (self.expected_oref(fr), fr.live.copy_number, fr.name)
            expected_refs[ident] = fr
        for ref in byref:
            if ref not in expected_refs:
                self.bad({"C03", "C07", "C18"}, "fdata_ref", f"logical file {idx}: frame data for {ref}, not a frame of this logical file")
        parsed_ch = {tuple(o.name): o for s in x.sets if s.type == "CHANNEL" for o in s.objects}
        parsed_fr = {tuple(o.name): o for s in x.sets if s.type == "FRAME" for o in s.objects}
        self.file_only(idx, byref, parsed_ch, parsed_fr)
        for ident, fr in expected_refs.items():
            if fr.id in self.skip_frames or fr.id not in self.frames or self.frames[fr.id].n is None:
                continue
            self.frame_rows(idx, lf, fr, self.frames[fr.id], byref.get(ident, []), parsed_ch, parsed_fr.get(ident))

    def file_only(self, idx, byref, parsed_ch, parsed_fr):
        """A reader knowing only the file must be able to slice every row (C08)."""
        for ref, f in parsed_fr.items():
            rows = byref.get(ref, [])
            a = f.attrs.get("CHANNELS")
            if not self.isset(a):
                if rows:
                    self.bad({"C08"}, "frame_no_channels", f"logical file {idx}: frame {ref} has rows but lists no channels")
                continue
            width = 0
            for c in a.values:
                p = parsed_ch.get(tuple(c))
                if p is None:
                    self.bad({"C08", "C07"}, "channel_undefined", f"logical file {idx}: frame {ref} lists undefined channel {tuple(c)}")
                    width = None
                    break
                g = lambda l: p.attrs[l].values if l in p.attrs and self.isset(p.attrs[l]) else None
                rc, dim, el = g("REPRESENTATION-CODE"), g("DIMENSION"), g("ELEMENT-LIMIT")
                if not rc or rc[0] not in rp66.FIXED_SIZE:
                    self.bad({"C08"}, "channel_code", f"logical file {idx}: channel {tuple(c)} has REPRESENTATION-CODE {rc}")
                    width = None
                    break
                if not dim:
                    self.bad({"C08"}, "channel_no_dim", f"logical file {idx}: channel {tuple(c)} has no DIMENSION")
                    width = None
                    break
                if el is None or not _bounds(el, dim):
                    self.bad({"C08"}, "channel_limit", f"logical file {idx}: channel {tuple(c)} ELEMENT-LIMIT {el} for DIMENSION {dim}")
                n = rp66.FIXED_SIZE[rc[0]]
                for q in dim:
                    n *= q
                width += n
            if width is None:
                continue
            for r in rows:
                if len(r.data) != width:
                    self.bad({"C08"}, "row_width", f"logical file {idx}: frame {ref} record {r.number} has {len(r.data)} data bytes, "
                             f"its channels declare {width}")
                    break

    def frame_rows(self, idx, lf, fr, fd, rows, parsed_ch, pf):
        where = f"lf {idx} frame {fr.name[:30]!r}"
        if len(rows) != fd.n:
            tags = {"C03", "C18"}
            if self.w.get("from") or self.w.get("to") is not None:
                tags |= {"C11"}
            else:
                tags |= {"C02"}
            self.bad(tags, "row_count", f"{where}: {len(rows)} records, {fd.n} rows were to be written")
        nums = [r.number for r in rows]
        if nums != list(range(1, len(rows) + 1)):
            self.bad({"C03", "C18"}, "row_numbers", f"{where}: records are numbered {nums[:8]}...")
        # declared layout against the data (C08)
        declared = None
        if pf is not None and self.isset(pf.attrs.get("CHANNELS")):
            declared = []
            for cid, code, dim in zip(fr.channels, fd.codes, fd.dims):
                c = self.byid[cid]
                ident = (self.expected_oref(c), c.live.copy_number, c.name)
                p = parsed_ch.get(ident)
                if p is None:
                    continue
                rc = p.attrs.get("REPRESENTATION-CODE")
                if not self.isset(rc) or rc.values[0] != code:
                    self.bad({"C08"}, "channel_code", f"{where}: channel {c.name!r} REPRESENTATION-CODE "
                             f"{rc.values if self.isset(rc) else None}, data written as {code}")
                dm = p.attrs.get("DIMENSION")
                if self.isset(dm) and dm.values != dim:
                    self.bad({"C08"}, "channel_dim", f"{where}: channel {c.name!r} DIMENSION {dm.values}, data has {dim}")
        want = [b"".join(col[i] for col in fd.slots) for i in range(fd.n)]
        for i, (r, wb) in enumerate(zip(rows, want)):
            if bytes(r.data) != wb:
                tags = {"C03"}
                rb = bytes(r.data)
                if self.w.get("from") or self.w.get("to") is not None:
                    tags |= {"C11"}
                if len(rb) != len(wb) and (rb.startswith(wb) or wb.startswith(rb)):
                    tags |= {"C02"}                  # a record that lost or gained bytes at its end
                if any(rb in o for o in self.other_rows(lf, fr)):
                    tags |= {"C18"}
                elif len(rb) == len(wb) and self._foreign(lf, fr, fd, rb):
                    tags |= {"C18"}
                self.bad(tags, "row_data", f"{where}: record {r.number} holds {rb[:32].hex()} ({len(rb)} bytes), "
                         f"row {i} is {wb[:32].hex()} ({len(wb)} bytes)")
                break

    def other_rows(self, lf, fr):
        for fid, fd in self.frames.items():
            if fid != fr.id and fd.n is not None:
                yield {b"".join(col[i] for col in fd.slots) for i in range(fd.n)}

    def _foreign(self, lf, fr, fd, rb):
        """Does some slot of the row hold a value of another frame's or logical file's channel?"""
        pos = 0
        for col in fd.slots:
            w = len(col[0]) if col else 0
            got = rb[pos:pos + w]
            pos += w
            if w >= 4 and got not in col:
                for fid, o in self.frames.items():
                    if fid != fr.id and o.n is not None and any(got in c for c in o.slots):
                        return True
        return False

    # ---------------------------------------------------------------------------------- high compatibility (C17)
    def sim_hc(self, lf):
        return self.w.get("_hc") and all(o.hc for o in lf.objs) and getattr(self.mf, "hc", False) and lf.hc

    def hc_file(self, idx, lf, x):
        T = {"C17"}
        H = lambda rule, msg: self.bad(T, rule, msg)
        si = self.parsed.phys.sul["id"].rstrip() if self.parsed.phys.sul else ""
        if not HC_NAME.match(si):
            H("hc_setid", f"set identifier {si!r} in a high-compatibility file")
        if not HC_NAME.match(lf.fh_id):
            H("hc_header", f"header id {lf.fh_id!r} in a high-compatibility file")
        counts = {}
        units_ok = set(spec.ENUMS["Unit"].values())
        fsn = []
        for s in x.sets:
            for o in s.objects:
                if s.type != "FILE-HEADER" and not HC_NAME.match(o.name.name):
                    H("hc_name", f"{s.type} name {o.name.name!r} in a high-compatibility file")
                g = lambda l: o.attrs[l].values if l in o.attrs and self.isset(o.attrs[l]) else None
                for a in o.attrs.values():
                    if a.present and a.units and a.units not in units_ok:
                        H("hc_units", f"{s.type} {o.name.name!r} {a.label}: units {a.units!r} in a high-compatibility file")
                checks = []
                if s.type == "CHANNEL":
                    checks = [("UNITS", "Unit")]
                    counts.setdefault(tuple(o.name), 0)
                elif s.type == "FRAME":
                    checks = [("INDEX-TYPE", "FrameIndexType")]
                elif s.type == "EQUIPMENT":
                    checks = [("TYPE", "EquipmentType"), ("LOCATION", "EquipmentLocation")]
                for label, en in checks:
                    v = g(label)
                    if v and v[0] not in spec.ENUMS[en].values():
                        H("hc_enum", f"{s.type} {o.name.name!r} {label} = {v[0]!r} in a high-compatibility file")
                if s.type == "ORIGIN":
                    m = [q for q in lf.of("origin") if q.name == o.name.name and q.live.copy_number == o.name.copy]
                    a = m[0].attrs.get("file_set_number") if m else None
                    if m and (a is None or not a.has_v):
                        v = g("FILE-SET-NUMBER")
                        fsn.append(v[0] if v else None)
        ch = {tuple(o.name): o for s in x.sets if s.type == "CHANNEL" for o in s.objects}
        for s in x.sets:
            if s.type != "FRAME":
                continue
            for o in s.objects:
                a = o.attrs.get("CHANNELS")
                for c in (a.values if self.isset(a) else []):
                    counts[tuple(c)] = counts.get(tuple(c), 0) + 1
                    p = ch.get(tuple(c))
                    rc = p.attrs.get("REPRESENTATION-CODE") if p else None
                    if self.isset(rc) and rc.values[0] in (12, 13, 14):
                        H("hc_signed", f"channel {tuple(c)} holds signed integers in a high-compatibility file")
        for fr in lf.of("frame"):
            fd = self.frames.get(fr.id)
            ixt = fr.attrs.get("index_type")
            if fd is None or fd.index is None or ixt is None or not ixt.has_v or fd.index.ndim != 1 or fd.n is None:
                continue
            ix = fd.index
            vals = [float(q) for q in ix] if ix.dtype.kind == "f" else [int(q) for q in ix]
            if classify_index(vals)[0] == "none":
                H("hc_spacing", f"frame {fr.name!r}: index is not uniformly spaced in a high-compatibility file")
        for c, n in counts.items():
            if n != 1:
                H("hc_frames", f"channel {c} is in {n} frames of a high-compatibility file")
        if fsn and (any(not isinstance(q, int) or not 1 <= q <= 1000 for q in fsn)):
            H("hc_fsn", f"file-set numbers {fsn} are not small sequential numbers")
        names = {}
        for q in lf.of("origin"):
            names.setdefault(q.set or None, []).append(q)
        for sn, os_ in names.items():
            nums = []
            s = next((s for s in x.sets if s.type == "ORIGIN" and (s.name or None) == sn), None)
            if s is None or len(s.objects) != len(os_):
                continue
            if any(q.attrs.get("file_set_number") is not None for q in os_):
                continue
            nums = [o.attrs["FILE-SET-NUMBER"].values[0] for o in s.objects if self.isset(o.attrs.get("FILE-SET-NUMBER"))]
            if nums and nums != list(range(nums[0], nums[0] + len(nums))):
                H("hc_fsn", f"file-set numbers {nums} are not sequential")


def _bounds(el, dim):
    return len(el) >= len(dim) and all(e >= d for e, d in zip(el, dim))


def classify_index(vals):
    """('exact'|'uniform'|'grey'|'none'|'single', smallest difference, largest difference, sense).

    sense: 1, -1, None (no monotonic sense) or False (undetermined because of NaN).
    """
    n = len(vals)
    if n < 2:
        return "single", None, None, None
    if any(isinstance(q, float) and (math.isnan(q) or math.isinf(q)) for q in vals):
        return "grey", float("-inf"), float("inf"), False
    d = [b - a for a, b in zip(vals, vals[1:])]
    lo, hi = min(d), max(d)
    sense = None
    if lo >= 0 and hi > 0:
        sense = 1
    elif hi <= 0 and lo < 0:
        sense = -1
    if math.isinf(lo) or math.isinf(hi):
        return "grey", float("-inf"), float("inf"), sense
    if lo == hi:
        return "exact", lo, hi, sense
    s = sorted(d)
    med = s[len(s) // 2] if len(s) % 2 else (s[len(s) // 2 - 1] + s[len(s) // 2]) / 2
    if med == 0:
        # the documented tolerance is relative to the median difference
        if sense is None or max(abs(lo), abs(hi)) > 0:
            return "none", lo, hi, sense
    dev = max((1 - q / med) ** 2 for q in (lo, hi))
    if dev < 0.0008:
        return "uniform", lo, hi, sense
    if dev <= 0.0012:
        return "grey", lo, hi, sense
    return "none", lo, hi, sense
