"""Strict, independent reader for RP66 V1 (DLIS) files.

Shares no code with the library under test and none with dlisio.  It reports *every* departure from the
standard it finds as a ``Problem`` tagged with the property the departure belongs to, and it never guesses:
what cannot be decoded is reported, not skipped.
"""
import struct
from datetime import datetime, timedelta, timezone


class Problem:
    __slots__ = ("tag", "rule", "msg")

    def __init__(self, tag, rule, msg):
        self.tag, self.rule, self.msg = tag, rule, msg

    def __repr__(self):
        return f"[{self.tag}/{self.rule}] {self.msg}"


class Undecodable(Exception):
    """Raised inside component decoding; carries a rule id."""

    def __init__(self, rule, msg):
        super().__init__(msg)
        self.rule = rule


# ---------------------------------------------------------------------------------------------- primitives

class Cursor:
    __slots__ = ("b", "p", "end")

    def __init__(self, b, p=0, end=None):
        self.b, self.p, self.end = b, p, len(b) if end is None else end

    def take(self, n):
        if n < 0 or self.p + n > self.end:
            raise Undecodable("truncated", f"need {n} bytes at {self.p}, have {self.end - self.p}")
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def left(self):
        return self.end - self.p


def r_uvari(c):
    b0 = c.take(1)[0]
    if b0 < 0x80:
        return b0
    if b0 < 0xC0:
        return ((b0 & 0x3F) << 8) | c.take(1)[0]
    r = c.take(3)
    return ((b0 & 0x3F) << 24) | (r[0] << 16) | (r[1] << 8) | r[2]


def _ascii(raw, what):
    if any(x > 127 for x in raw):
        raise Undecodable("non_ascii", f"non-ASCII byte in {what}: {raw[:40]!r}")
    return raw.decode("ascii")


def r_ident(c):
    return _ascii(c.take(c.take(1)[0]), "IDENT")


def r_ascii(c):
    return _ascii(c.take(r_uvari(c)), "ASCII")


class ObName(tuple):
    """(origin, copy, name)"""
    __slots__ = ()

    def __new__(cls, o, c, n):
        return tuple.__new__(cls, (o, c, n))

    origin = property(lambda s: s[0])
    copy = property(lambda s: s[1])
    name = property(lambda s: s[2])


class ObjRef(tuple):
    """(set_type, ObName)"""
    __slots__ = ()

    def __new__(cls, t, o):
        return tuple.__new__(cls, (t, o))


def r_obname(c):
    o = r_uvari(c)
    cp = c.take(1)[0]
    return ObName(o, cp, r_ident(c))


def r_objref(c):
    t = r_ident(c)
    return ObjRef(t, r_obname(c))


def r_dtime(c):
    y, tzm, d, h, mn, s, ms = struct.unpack(">BBBBBBH", c.take(8))
    tz, m = tzm >> 4, tzm & 15
    if tz not in (0, 1, 2):
        raise Undecodable("dtime", f"time zone code {tz}")
    if ms > 999:
        raise Undecodable("dtime", f"milliseconds {ms}")
    try:
        dt = datetime(1900 + y, m, d, h, mn, s, ms * 1000)
    except ValueError as e:
        raise Undecodable("dtime", f"{e}")
    return (tz, dt)


def _fixed(fmt):
    st = struct.Struct(fmt)
    if len(st.unpack(b"\0" * st.size)) == 1:
        return lambda c: st.unpack(c.take(st.size))[0]
    return lambda c: st.unpack(c.take(st.size))


def r_status(c):
    v = c.take(1)[0]
    if v not in (0, 1):
        raise Undecodable("status", f"STATUS byte {v}")
    return v


READERS = {
    1: _fixed(">h"), 2: _fixed(">f"), 3: _fixed(">ff"), 4: _fixed(">fff"), 5: _fixed(">i"), 6: _fixed(">i"),
    7: _fixed(">d"), 8: _fixed(">dd"), 9: _fixed(">ddd"), 10: _fixed(">ff"), 11: _fixed(">dd"),
    12: _fixed(">b"), 13: _fixed(">h"), 14: _fixed(">i"), 15: _fixed(">B"), 16: _fixed(">H"), 17: _fixed(">I"),
    18: r_uvari, 19: r_ident, 20: r_ascii, 21: r_dtime, 22: r_uvari, 23: r_obname, 24: r_objref,
    25: lambda c: (r_ident(c), r_obname(c), r_ident(c)), 26: r_status, 27: r_ident,
}
CODE_NAME = {1: "FSHORT", 2: "FSINGL", 7: "FDOUBL", 12: "SSHORT", 13: "SNORM", 14: "SLONG", 15: "USHORT",
             16: "UNORM", 17: "ULONG", 18: "UVARI", 19: "IDENT", 20: "ASCII", 21: "DTIME", 22: "ORIGIN",
             23: "OBNAME", 24: "OBJREF", 25: "ATTREF", 26: "STATUS", 27: "UNITS"}
FLOAT_CODES = {2, 7}
INT_CODES = {12, 13, 14, 15, 16, 17, 18}
NUM_CODES = FLOAT_CODES | INT_CODES
TEXT_CODES = {19, 20}
FIXED_SIZE = {2: 4, 7: 8, 12: 1, 13: 2, 14: 4, 15: 1, 16: 2, 17: 4}


# ------------------------------------------------------------------------------------------ physical layout

class Record:
    __slots__ = ("is_eflr", "type", "body", "n_segments", "offset", "seg_lens", "pads")

    def __init__(self, is_eflr, type_, offset):
        self.is_eflr, self.type, self.offset = is_eflr, type_, offset
        self.body = b""
        self.n_segments = 0
        self.seg_lens = []
        self.pads = []


class Physical:
    def __init__(self):
        self.problems = []
        self.sul = None
        self.sul_raw = b""
        self.vr_bounds = []      # offsets at which a prefix ends on a visible record boundary (incl. 80)
        self.vr_lens = []
        self.records = []
        self.broken = False      # framing could not be followed to the end of the file


def parse_sul(raw, P):
    add = lambda rule, msg: P.problems.append(Problem("C01", rule, msg))
    if len(raw) < 80:
        add("sul_short", f"file has only {len(raw)} bytes")
        P.broken = True
        return
    s = raw[:80]
    P.sul_raw = s
    if any(x > 127 for x in s):
        add("sul_non_ascii", f"storage unit label is not ASCII: {s!r}")
    t = s.decode("latin-1")
    seq, ver, struc, mrl, ident = t[:4], t[4:9], t[9:15], t[15:20], t[20:80]
    if not seq.strip().isdigit() or seq != seq.strip().rjust(4):
        add("sul_seq", f"sequence number field {seq!r}")
    if ver != "V1.00":
        add("sul_version", f"{ver!r}")
    if struc != "RECORD":
        add("sul_structure", f"{struc!r}")
    if not mrl.strip().isdigit() or mrl != mrl.strip().rjust(5):
        add("sul_maxlen", f"maximum record length field {mrl!r}")
    P.sul = {"seq": seq.strip(), "max": int(mrl) if mrl.strip().isdigit() else None, "id": ident}


def parse_physical(raw, declared_max=None):
    """Split the file into visible records and logical records, checking every framing rule (C01, C02)."""
    P = Physical()
    parse_sul(raw, P)
    if P.broken:
        return P
    mx = P.sul["max"] if P.sul and P.sul["max"] else (declared_max or 16384)
    add = lambda tag, rule, msg: P.problems.append(Problem(tag, rule, msg))
    n = len(raw)
    pos = 80
    P.vr_bounds.append(80)
    cur = None
    while pos < n:
        if pos + 4 > n:
            add("C01", "vr_truncated_header", f"{n - pos} stray bytes at {pos}")
            P.broken = True
            break
        ln = (raw[pos] << 8) | raw[pos + 1]
        if raw[pos + 2] != 0xFF or raw[pos + 3] != 0x01:
            add("C01", "vr_marker", f"visible record at {pos}: marker {raw[pos+2:pos+4].hex()}")
            P.broken = True
            break
        if ln < 20:
            add("C01", "vr_too_short", f"visible record at {pos}: length {ln} < 20")
        if ln % 2:
            add("C01", "vr_odd", f"visible record at {pos}: odd length {ln}")
        if ln > mx:
            add("C01", "vr_too_long", f"visible record at {pos}: length {ln} > declared maximum {mx}")
        if ln < 8 or pos + ln > n:
            add("C01", "vr_overrun", f"visible record at {pos}: length {ln} overruns file of {n} bytes")
            P.broken = True
            break
        end = pos + ln
        P.vr_lens.append(ln)
        p = pos + 4
        stop = False
        while p < end:
            if p + 4 > end:
                add("C01", "seg_tiling", f"{end - p} bytes at {p} do not hold a segment header")
                P.broken = stop = True
                break
            sl = (raw[p] << 8) | raw[p + 1]
            at = raw[p + 2]
            tp = raw[p + 3]
            if sl % 2:
                add("C01", "seg_odd", f"segment at {p}: odd length {sl}")
            if sl < 16:
                add("C01", "seg_short", f"segment at {p}: length {sl} < 16")
            if sl < 4 or p + sl > end:
                add("C01", "seg_tiling", f"segment at {p}: length {sl} leaves its visible record ({pos}..{end})")
                P.broken = stop = True
                break
            is_eflr = bool(at & 0x80)
            pred = bool(at & 0x40)
            succ = bool(at & 0x20)
            if at & 0x10:
                add("C01", "seg_encrypted", f"segment at {p}: encryption bit set")
            if at & 0x08:
                add("C01", "seg_encpacket", f"segment at {p}: encryption packet bit set")
            if at & 0x04:
                add("C01", "seg_checksum", f"segment at {p}: checksum bit set")
            if at & 0x02:
                add("C01", "seg_trailing", f"segment at {p}: trailing length bit set")
            body = raw[p + 4:p + sl]
            pad = 0
            if at & 0x01:
                pad = body[-1] if body else 0
                if pad < 1 or pad > len(body):
                    add("C01", "seg_padcount", f"segment at {p}: pad count {pad} with {len(body)} body bytes")
                    pad = 0
                body = body[:len(body) - pad]
            # bracketing
            if cur is None:
                if pred:
                    add("C02", "bracket_orphan", f"segment at {p}: predecessor flag but no record is open")
                cur = Record(is_eflr, tp, p)
            else:
                if not pred:
                    add("C02", "bracket_unclosed",
                        f"segment at {p} starts a record while the record at {cur.offset} expects a successor")
                    P.records.append(cur)
                    cur = Record(is_eflr, tp, p)
                else:
                    if cur.is_eflr != is_eflr:
                        add("C02", "seg_flag_differs", f"segment at {p}: explicit flag differs within a record")
                    if cur.type != tp:
                        add("C02", "seg_type_differs", f"segment at {p}: type {tp} differs from {cur.type}")
            cur.body += body
            cur.n_segments += 1
            cur.seg_lens.append(sl)
            cur.pads.append(pad)
            if not succ:
                P.records.append(cur)
                cur = None
            p += sl
        if stop:
            break
        pos = end
        P.vr_bounds.append(pos)
    if cur is not None:
        add("C02", "bracket_open_at_eof", f"record at {cur.offset} never closed")
        P.records.append(cur)
    return P


# --------------------------------------------------------------------------------------------------- EFLR

class Attr:
    __slots__ = ("label", "present", "count", "code", "units", "values", "has_value", "explicit", "raw")

    def __init__(self, label):
        self.label = label
        self.present = False
        self.count = None
        self.code = None
        self.units = ""
        self.values = None
        self.has_value = False
        self.explicit = False
        self.raw = b""

    def __repr__(self):
        return f"Attr({self.label}={self.values!r} code={self.code} units={self.units!r} n={self.count})"


class Obj:
    __slots__ = ("name", "attrs")

    def __init__(self, name):
        self.name = name
        self.attrs = {}


class EflrSet:
    __slots__ = ("type", "name", "lr_type", "labels", "objects", "rec_index", "role")

    def __init__(self):
        self.labels = []
        self.objects = []
        self.name = None


def _attr_component(c, fmt, in_template, tmpl):
    a = Attr(None)
    if in_template:
        if fmt & 0x10:
            a.label = r_ident(c)
        count, code, units = 1, 19, ""
    else:
        a.label = tmpl.label
        if fmt & 0x10:
            raise Undecodable("obj_attr_label", "label repeated in an object's attribute component")
        count, code, units = tmpl.count, tmpl.code, tmpl.units
    if fmt & 0x08:
        count = r_uvari(c)
    if fmt & 0x04:
        code = c.take(1)[0]
        if code not in READERS:
            raise Undecodable("repcode", f"undefined representation code {code}")
    if fmt & 0x02:
        units = r_ident(c)
    a.count, a.code, a.units = count, code, units
    a.present = True
    a.explicit = bool(fmt & 0x0F)
    if fmt & 0x01:
        if count == 0:
            raise Undecodable("value_announced_empty", f"{a.label}: value announced with count 0")
        p0 = c.p
        rd = READERS[code]
        a.values = [rd(c) for _ in range(count)]
        a.raw = c.b[p0:c.p]
        a.has_value = True
    elif not in_template:
        if tmpl.has_value and count == tmpl.count and code == tmpl.code:
            a.values, a.has_value, a.raw = tmpl.values, True, tmpl.raw
        else:
            a.has_value = False
    return a


def parse_eflr(rec):
    """Decode one explicitly formatted record.  Raises Undecodable."""
    c = Cursor(rec.body)
    S = EflrSet()
    S.lr_type = rec.type
    d = c.take(1)[0]
    role, fmt = d >> 5, d & 0x1F
    if role not in (0b101, 0b110, 0b111):
        raise Undecodable("no_set", f"first component descriptor {d:#04x} is not a set")
    S.role = role
    if not fmt & 0x10:
        raise Undecodable("set_type_missing", "set component without a type")
    if fmt & 0x07:
        raise Undecodable("set_reserved", f"reserved set format bits {fmt:#x}")
    S.type = r_ident(c)
    if not S.type:
        raise Undecodable("set_type_missing", "empty set type")
    S.name = r_ident(c) if fmt & 0x08 else None
    tmpl = []
    while c.left() and (c.b[c.p] >> 5) not in (0b011,):
        d = c.take(1)[0]
        role, fmt = d >> 5, d & 0x1F
        if role not in (0b001, 0b010):
            raise Undecodable("template_role", f"descriptor {d:#04x} in template of {S.type}")
        a = _attr_component(c, fmt, True, None)
        if not a.label:
            raise Undecodable("template_label", f"unlabelled template attribute in {S.type}")
        if role == 0b010:
            raise Undecodable("template_invariant", "invariant attribute (not produced by this writer)")
        if any(t.label == a.label for t in tmpl):
            raise Undecodable("template_label", f"label {a.label} repeated in template of {S.type}")
        tmpl.append(a)
    S.labels = [t.label for t in tmpl]
    if not tmpl:
        raise Undecodable("template_empty", f"set {S.type} has no template")
    while c.left():
        d = c.take(1)[0]
        role, fmt = d >> 5, d & 0x1F
        if role != 0b011:
            raise Undecodable("object_role", f"descriptor {d:#04x} where an object was expected in {S.type}")
        if fmt & 0x0F:
            raise Undecodable("object_reserved", f"reserved object format bits {fmt:#x}")
        if not fmt & 0x10:
            raise Undecodable("object_unnamed", "object component without a name")
        o = Obj(r_obname(c))
        i = 0
        while c.left() and (c.b[c.p] >> 5) != 0b011:
            d = c.take(1)[0]
            role, fmt = d >> 5, d & 0x1F
            if i >= len(tmpl):
                raise Undecodable("too_many_attrs", f"object {o.name} of {S.type} has more attributes than template")
            if role == 0b000:
                if fmt:
                    raise Undecodable("absent_reserved", f"absent attribute with format bits {fmt:#x}")
                a = Attr(tmpl[i].label)
            elif role == 0b001:
                try:
                    a = _attr_component(c, fmt, False, tmpl[i])
                except Undecodable as e:
                    raise Undecodable(e.rule, f"{S.type} {tuple(o.name)} {tmpl[i].label}: {e}")
            else:
                raise Undecodable("attr_role", f"descriptor {d:#04x} in object {o.name} of {S.type}")
            o.attrs[a.label] = a
            i += 1
        for t in tmpl[i:]:
            a = Attr(t.label)
            a.present, a.count, a.code, a.units, a.values, a.has_value = \
                True, t.count, t.code, t.units, t.values, t.has_value
            o.attrs[t.label] = a
        S.objects.append(o)
    return S


# -------------------------------------------------------------------------------------------------- logical

class Iflr:
    __slots__ = ("type", "ref", "number", "data", "rec_index", "size")


class LFile:
    __slots__ = ("sets", "iflrs", "sequence", "n_records", "first_rec")

    def __init__(self):
        self.sets = []        # EflrSet, in file order
        self.iflrs = []       # Iflr, in file order
        self.sequence = []    # ("E", set) / ("I", iflr) in file order


class Parsed:
    def __init__(self, phys):
        self.phys = phys
        self.problems = list(phys.problems)
        self.lfiles = []
        self.fatal = phys.broken


def parse(raw, declared_max=None):
    """Full strict decode. ``fatal`` is True when some part of the file cannot be decoded at all."""
    P = parse_physical(raw, declared_max)
    R = Parsed(P)
    lf = None
    for i, rec in enumerate(P.records):
        if rec.is_eflr:
            try:
                s = parse_eflr(rec)
            except Undecodable as e:
                R.problems.append(Problem("C04", e.rule, f"record {i} (type {rec.type}): {e}"))
                R.fatal = True
                continue
            s.rec_index = i
            if s.type == "FILE-HEADER" or lf is None:
                lf = LFile()
                lf.first_rec = i
                R.lfiles.append(lf)
            lf.sets.append(s)
            lf.sequence.append(("E", s))
        else:
            x = Iflr()
            x.type, x.rec_index, x.size = rec.type, i, len(rec.body)
            c = Cursor(rec.body)
            try:
                x.ref = r_obname(c)
                if rec.type == 0:
                    x.number = r_uvari(c)
                else:
                    x.number = None
                    if rec.type != 1:
                        raise Undecodable("iflr_type", f"indirectly formatted record of type {rec.type}")
                x.data = c.b[c.p:]
            except Undecodable as e:
                R.problems.append(Problem("IFLR", e.rule, f"record {i}: {e}"))
                R.fatal = True
                continue
            if lf is None:
                lf = LFile()
                lf.first_rec = i
                R.lfiles.append(lf)
            lf.iflrs.append(x)
            lf.sequence.append(("I", x))
    return R
