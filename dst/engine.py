"""Executes one program (a history of operations) against the real library inside a simulated environment.

One call of ``run_program`` is one deterministic execution: every choice is in the program.  It is meant to be called in
a process forked from a pristine one.
"""
import collections
import os
import random
import sys
import threading
import time
import zlib
import warnings

import numpy as np

from . import model, oracle, rp66, simio, spec, values
from .model import MFile, MLF, MObj
from .simio import W
from .values import Arr


def spoil(kw, spec_):
    """What a caller may do with lists and dictionaries of its own once the call is over."""
    for k, v in kw.items():
        if isinstance(spec_.get(k), dict) and "obj" in spec_[k]:
            continue                                # passed again later
        if isinstance(v, list):
            for x in v:
                if isinstance(x, list):
                    x.clear()
            v.clear()
        elif isinstance(v, dict):
            if isinstance(v.get("value"), list):
                v["value"].clear()
            v.clear()
        elif type(v).__name__ == "AttrSetup":
            if isinstance(v.value, list):
                v.value.clear()
            v.value, v.units = "changed", None


class Stop(BaseException):
    """The simulated process is gone (crash fault)."""


class UserError(Exception):
    """Raised by the simulated user inside a high-compatibility block."""


def _exc(e):
    return f"{type(e).__name__}: {str(e)[:300]}"


class Sim:
    def __init__(self, prog, root, keep=True):
        self.prog, self.root = prog, root
        self.files, self.lfs, self.objs = {}, {}, {}
        self.nfd = {}
        self.outcomes = []           # one per executed op: (path, kind, "ok"/"raise"/"skip", message)
        self.problems = []
        self.writes = {}             # write id -> info
        self.hc = 0
        self.hc_stack = []
        self.tz = "UTC"
        self.unwarned = {}
        self.pyobjs = {}
        self.nfs = {}
        self.srcs = {}                  # (kind, name): what the caller passes as data again and again
        self.steps = 0
        self.sig = []
        self.keep = keep
        self.switches = 0
        self.waits = 0
        self.same = None

    # ------------------------------------------------------------------------------------------ plumbing
    def note(self, tags, rule, msg, op=None):
        self.problems.append(oracle.P(tags, rule, msg, op))

    def live(self, jv):
        """Realise a JSON value with live objects; raises KeyError when an object does not exist."""
        return values.realise(jv, self._lives)

    @property
    def _lives(self):
        return _Lives(self.objs)

    def kw_value(self, jv):
        """What is passed for one keyword argument; "obj" names a Python object that is passed more than once."""
        key = jv.get("obj") if isinstance(jv, dict) else None
        if key is None:
            return self._kw_value(jv)
        if key not in self.pyobjs:
            self.pyobjs[key] = self._kw_value(jv)
        return self.pyobjs[key]

    def _kw_value(self, jv):
        from dliswriter import AttrSetup
        if isinstance(jv, dict) and ("A" in jv or "u" in jv):
            d = {}
            if "A" in jv:
                d["value"] = self.live(jv["A"])
            if jv.get("u") is not None:
                d["units"] = self.live(jv["u"]) if isinstance(jv["u"], dict) else jv["u"]
                if jv.get("ord"):
                    d = dict(reversed(d.items()))
            return AttrSetup(**d) if jv.get("route") == "setup" else d
        return self.live(jv)

    @staticmethod
    def warned():
        return W.warnings + getattr(W, "pywarn", 0)

    @staticmethod
    def in_thread():
        return threading.current_thread() is not threading.main_thread()

    # ------------------------------------------------------------------------------------------ running
    def run(self):
        old = warnings.showwarning
        warnings.showwarning = lambda *a, **k: setattr(W, "pywarn", getattr(W, "pywarn", 0) + 1)
        try:
            self.run_ops(self.prog["ops"], ())
        except Stop:
            pass
        finally:
            warnings.showwarning = old
        return self

    def run_ops(self, ops, path):
        for i, op in enumerate(ops):
            self.step(op, path + (i,))

    def step(self, op, path):
        self.steps += 1
        k = op["op"]
        if k == "hc":
            return self.op_hc(op, path)
        if k == "par":
            return self.op_par(op, path)
        if "clk" in op:
            W.clock = op["clk"]
        if "id" in op:
            # what the operation draws depends on the operation only, not on what ran before it
            rs = op["rs"] if "rs" in op else zlib.crc32(op["id"].encode())
            random.seed(rs)
            np.random.seed(rs & 0xFFFFFFFF)
        w0 = self.warned()
        self.clash = self.shared = False           # the operation repeats an origin reference; shares a set
        try:
            getattr(self, "op_" + k)(op, path)
        except _Missing as e:
            self.outcomes.append([list(path), k, "skip", str(e)])
        except (Stop, simio.SimCrash, HarnessError):
            raise
        except (Exception, simio.InjectedKBI) as e:
            if _ours(e):
                raise HarnessError(f"{list(path)} {k}: {_exc(e)}") from e
            self._raised(op, path, k, e)
        else:
            if self.outcomes and self.outcomes[-1][0] == list(path):
                return
            self.outcomes.append([list(path), k, "ok", ""])
            if op.get("exp") == "rej" and op.get("must"):
                self.note({"C12"}, "accepted_invalid", f"{k} accepted {op.get('why', '')}", path)
            if op.get("hcb") and not self.hc and self.warned() == w0:
                fid = self.file_of(op)
                if fid is not None:
                    self.unwarned.setdefault(fid, []).append(op["hcb"])

    def file_of(self, op):
        if op["op"] == "file":
            return op["id"]
        if "f" in op:
            return op["f"]
        if "lf" in op and op["lf"] in self.lfs:
            return self.lfs[op["lf"]].f.id
        if "o" in op and op["o"] in self.objs:
            return self.objs[op["o"]].lf.f.id
        return None

    def _raised(self, op, path, k, e):
        self.outcomes.append([list(path), k, "raise", _exc(e)])
        if op.get("hcb"):
            if not self.hc and op.get("exp") not in ("rej", "any") and not (self.clash or self.shared):
                self.note({"C17"}, "breach_raises_outside", f"{k} raised outside high-compatibility mode: {_exc(e)}", path)
        elif op.get("exp", "ok") == "ok" and not (self.clash or self.shared):
            self.note(oracle.UNEXPECTED, "unexpected_raise", f"{k} {op.get('t', '')} raised {_exc(e)}", path)

    # ------------------------------------------------------------------------------------------ environment
    def op_env(self, op, path):
        if "tz" in op:
            simio.set_tz(op["tz"])
            self.tz = op["tz"]

    def op_probe(self, op, path):
        """Is the mode what the model says?  Observed from behaviour only."""
        from dliswriter import DLISFile
        try:
            DLISFile(set_identifier="lower case")
            on = False
        except ValueError:
            on = True
        if on != bool(self.hc):
            self.note({"C17", "C14"}, "mode_leak", f"high-compatibility mode is {'on' if on else 'off'}, expected "
                      f"{'on' if self.hc else 'off'}", path)

    # ------------------------------------------------------------------------------------------ build operations
    def op_file(self, op, path):
        from dliswriter import DLISFile
        from dliswriter.logical_record.misc import StorageUnitLabel
        si, sn, ml = values.text(op["si"]), op.get("sn", 1), op.get("ml", 8192)
        if op.get("sul"):
            f = DLISFile(storage_unit_label=StorageUnitLabel(si, sn, ml))
        else:
            f = DLISFile(set_identifier=si, sul_sequence_number=sn, max_record_length=ml)
        m = MFile(op["id"], si, sn, ml)
        m.hc = bool(self.hc)
        m.live = f
        self.files[op["id"]] = m

    def op_lf(self, op, path):
        f = self._get(self.files, op["f"])
        fid, ident, seq = values.text(op["fh"]), op.get("ident", "0"), op.get("seq", 1)
        if op.get("item"):
            from dliswriter.logical_record.eflr_types import FileHeaderItem, FileHeaderSet
            lf = f.live.add_logical_file(file_header=FileHeaderItem(fid, parent=FileHeaderSet(), sequence_number=seq,
                                                                    identifier=ident))
        else:
            lf = f.live.add_logical_file(fh_id=fid, fh_identifier=ident, fh_sequence_number=seq)
        m = MLF(op["id"], f, fid, ident, seq)
        m.hc = bool(self.hc)
        m.live = lf
        f.lfs.append(m)
        self.lfs[op["id"]] = m

    def op_add(self, op, path):
        lf = self._get(self.lfs, op["lf"])
        t = op["t"]
        name = self.live(op["name"])
        kw = {k: self.kw_value(v) for k, v in op.get("kw", {}).items()}
        if "set" in op:
            kw["set_name"] = None if op["set"] is None else self.live(op["set"])
        if "oref" in op and op["oref"] is not None:
            kw["origin_reference"] = self.live(op["oref"]) if isinstance(op["oref"], dict) else op["oref"]
        arr = None
        if t == "channel":
            if op.get("data") is not None:
                if "x" in op["data"]:
                    kw["data"] = values.realise(op["data"])
                elif op["data"].get("share") in self.objs and self.objs[op["data"]["share"]].arr is not None:
                    arr = self.objs[op["data"]["share"]].arr
                    kw["data"] = arr.a
                else:
                    arr = Arr(op["data"])
                    kw["data"] = arr.a
            if op.get("ds") is not None:
                kw["dataset_name"] = self.live(op["ds"])
            if op.get("cast") is not None:
                kw["cast_dtype"] = _dt(op["cast"])
        sn = None if op.get("set") is None else values.text(op["set"])
        # the set of another logical file: to be refused, here or when writing
        self.shared = any(x.t == t and (x.set or None) == (sn or None)
                          for other in lf.f.lfs if other is not lf for x in other.objs)
        if t == "origin" and isinstance(op.get("oref"), int):
            self.clash = any(x.live.origin_reference == op["oref"] for x in lf.of("origin"))
        adder = getattr(lf.live, spec.TYPES[t].adder)
        try:
            live = adder(name, **kw)
        finally:
            if op.get("mut"):
                spoil(kw, op.get("kw", {}))
        if live is None:
            self.note(oracle.UNEXPECTED, "no_object", f"add_{t} returned None", path)
            raise Stop()
        if self.clash:
            self.note({"C07"}, "duplicate_origin", f"a second origin with reference {op['oref']} was accepted", path)
        # accepted: update the model
        oref = op.get("oref")
        o = MObj(op["id"], lf, t, name, sn, oref if isinstance(oref, int) else None, len(lf.objs))
        o.live, o.hc, o.clk = live, bool(self.hc), W.clock
        o.fid = lf.fh_id
        o.arr = arr
        o.ordinal = sum(1 for x in lf.objs if x.t == t and (x.set or None) == (sn or None)) + 1
        for k, v in op.get("kw", {}).items():
            if k == "channels" and t == "frame":
                continue
            if not (isinstance(v, dict) and "n" in v):
                model.set_attr(o, k, v, self.tz)
        if t == "frame":
            o.channels = [r["r"] for r in _items(op["kw"]["channels"])]
        if t == "channel":
            used = [c.ds for c in lf.of("channel")]
            if op.get("ds") is not None:
                o.ds = values.text(op["ds"])
            else:
                o.ds = name
                i = 1
                while o.ds in used:
                    o.ds = f"{name}__{i}"
                    i += 1
            o.cast = _dt_name(op.get("cast"))
            if arr is not None:
                lf.inline[o.ds] = arr
        lf.objs.append(o)
        self.objs[op["id"]] = o

    def op_setv(self, op, path):
        o = self._get(self.objs, op["o"])
        py = o.ty.attrs[op["a"]][0]
        at = getattr(o.live, py)
        v = self.live(op["v"])
        at.value = v
        if op.get("mut"):
            spoil({0: v}, {})
        if o.t == "frame" and op["a"] == "channels":
            o.channels = [r["r"] for r in _items(op["v"])]
        else:
            model.set_attr(o, op["a"], op["v"], self.tz)

    def op_setu(self, op, path):
        o = self._get(self.objs, op["o"])
        at = getattr(o.live, o.ty.attrs[op["a"]][0])
        at.units = self.live(op["v"]) if isinstance(op["v"], dict) else op["v"]
        if op["v"] is None:
            if op["a"] in o.attrs:
                o.attrs[op["a"]].u = None
            return
        model.set_attr(o, op["a"], {"u": op["v"]})

    def op_rename(self, op, path):
        o = self._get(self.objs, op["o"])
        o.live.name = self.live(op["v"])
        o.name = values.text(op["v"])
        o.hc = o.hc and bool(self.hc)

    def op_oref(self, op, path):
        o = self._get(self.objs, op["o"])
        o.live.origin_reference = op["v"]
        o.oref = op["v"]

    def op_cast(self, op, path):
        o = self._get(self.objs, op["o"])
        o.live.cast_dtype = None if op["v"] is None else _dt(op["v"])
        o.cast = _dt_name(op["v"])

    def op_dsname(self, op, path):
        o = self._get(self.objs, op["o"])
        o.live.dataset_name = values.text(op["v"])
        o.ds = values.text(op["v"])

    def op_header(self, op, path):
        lf = self._get(self.lfs, op["lf"])
        if "fh" in op:
            lf.live.file_header.header_id = values.text(op["fh"])
            lf.fh_id = values.text(op["fh"])
            if op.get("fid") and lf.of("origin"):
                lf.of("origin")[0].live.file_id.value = values.text(op["fh"])
                lf.of("origin")[0].fid = lf.fh_id
        if "seq" in op:
            lf.live.file_header.sequence_number = op["seq"]
            lf.seq = op["seq"]

    def op_sul(self, op, path):
        f = self._get(self.files, op["f"])
        sul = f.live.storage_unit_label
        if "si" in op:
            sul.set_identifier = f.si = values.text(op["si"])
        if "sn" in op:
            sul.sequence_number = f.sn = op["sn"]
        if "ml" in op:
            sul.max_record_length = f.ml = op["ml"]

    def op_nf(self, op, path):
        lf = self._get(self.lfs, op["lf"])
        o = self._get(self.objs, op["o"]) if "o" in op else None
        d = payload(op["data"])
        live = lf.live.add_no_format_frame_data(o.live if o else object(), d)
        if "id" in op:
            self.nfs[op["id"]] = lf, len(lf.nf), live
        lf.nf.append((op.get("o"), self.nf_bytes(d)))

    @staticmethod
    def nf_bytes(d):
        return bytes(d) if not isinstance(d, str) else d.encode("ascii") if model.is_ascii(d) else d

    def op_nfset(self, op, path):
        """Other contents, or another object, for a no-format record that was added before."""
        lf, i, live = self._get(self.nfs, op["id"])
        o = self._get(self.objs, op["o"]) if "o" in op else None
        d = payload(op["data"])
        live.data = d
        if o is not None:
            live.no_format_object = o.live
        lf.nf[i] = (op.get("o", lf.nf[i][0]), self.nf_bytes(d))

    def op_seta(self, op, path):
        """Several attributes at once, through EFLRItem.set_attributes."""
        o = self._get(self.objs, op["o"])
        o.live.set_attributes(**{o.ty.attrs[a][0]: self.kw_value(v) for a, v in op["kw"].items()})
        for a, v in op["kw"].items():
            model.set_attr(o, a, v, self.tz)

    def op_read(self, op, path):
        """Reading properties and printing objects must not influence any output."""
        w = op["what"]
        if w == "lf":
            lf = self._get(self.lfs, op["lf"]).live
            looks = [lambda n=n: str(getattr(lf, n)) for n in
                     ("channels", "frames", "origins", "defining_origin", "file_header", "default_origin_reference")]
        elif w == "obj":
            o = self._get(self.objs, op["o"]).live
            looks = [lambda: str(o), lambda: o.copy_number, lambda: o.origin_reference, lambda: str(o.parent)]
            for a in o.attributes.values():
                looks += [lambda a=a: str(a), lambda a=a: a.value, lambda a=a: a.units, lambda a=a: a.count,
                          lambda a=a: a.representation_code]
            looks.append(lambda: o.obname)
        else:
            f = self._get(self.files, op["f"]).live
            looks = [lambda: str(f.storage_unit_label), lambda: [lf.file_header for lf in f.logical_files]]
        for look in looks:
            try:
                look()
            except Exception:
                pass               # that looking may fail is no property's business, that it changes something is

    # ------------------------------------------------------------------------------------------ writing
    def op_write(self, op, path):
        do_write(self, op, path)

    # ------------------------------------------------------------------------------------------ HC blocks
    def op_hc(self, op, path):
        import dliswriter as d
        from dliswriter.utils import high_compatibility_mode as hm
        ctx = getattr(hm, "high_compatibility_mode")
        deco = getattr(hm, "high_compatibility_mode_decorator")
        exc = {"ValueError": UserError, "KBI": simio.InjectedKBI, "Exit": GeneratorExit}.get(op.get("exc"))

        ran = []

        def body():
            ran.append(1)
            self.hc += 1
            try:
                self.run_ops(op["ops"], path)
                if exc:
                    raise exc()
            finally:
                self.hc -= 1

        self.outcomes.append([list(path), "hc", "ok", op.get("form", "ctx")])
        try:
            if op.get("form") == "deco":
                deco(body)()
            elif op.get("form") == "same":
                # one decorated function for the whole process, called again and again and from within itself
                if self.same is None:
                    self.same = deco(lambda run, *, twice=None: run())
                self.same(body, twice=1)
            else:
                with ctx():
                    body()
        except (UserError, simio.InjectedKBI, GeneratorExit):
            pass
        except (Stop, simio.SimCrash, HarnessError):
            raise
        except Exception as e:
            self.note({"C17"}, "hc_block_raised", f"entering or leaving a block ({op.get('form', 'ctx')}) raised {_exc(e)}", path)
        if not ran:
            self.note({"C17"}, "hc_block_skipped", f"a block ({op.get('form', 'ctx')}) was not run", path)
        self.op_probe({}, path)

    # ------------------------------------------------------------------------------------------ threads
    def op_par(self, op, path):
        """Two user threads, each running its own operations, handed control line by line as ``sched`` says."""
        self.outcomes.append([list(path), "par", "ok", ""])
        Baton(self, op, path).run()

    def _get(self, d, k):
        if k not in d:
            raise _Missing(k)
        return d[k]


def _ours(e):
    """Did the exception come from the harness rather than from the library?"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if simio._in_lib(fn):
            return False
        last = fn
        tb = tb.tb_next
    return last is not None and not isinstance(e, simio.InjectedKBI)


class _Missing(KeyError):
    pass


class _Lives:
    def __init__(self, objs):
        self.objs = objs

    def __getitem__(self, k):
        if k not in self.objs:
            raise _Missing(k)
        return self.objs[k].live


def _items(v):
    return v.get("l", v.get("t", [])) if isinstance(v, dict) else []


def _dt(s):
    """'<f4' or 'f4' -> dtype instance; 'np.float32' -> the scalar type."""
    if isinstance(s, dict):
        return values.realise(s)
    if s.startswith("np."):
        return getattr(np, s[3:])
    return np.dtype(s)


def _dt_name(s):
    if s is None or isinstance(s, dict):
        return None
    return s[3:] if s.startswith("np.") else np.dtype(s).newbyteorder("=").str


def payload(j):
    if "s" in j:
        return values.text(j)
    if "y" in j:
        y = j["y"]
        b = bytes.fromhex(y) if isinstance(y, str) else bytes.fromhex(y[0]) * y[1]
        return bytearray(b) if j.get("ba") else b
    if "seed" in j:
        b = random.Random(j["seed"]).randbytes(j["n"])
        return bytearray(b) if j.get("ba") else b
    raise ValueError(j)


# --------------------------------------------------------------------------------------------------- write

SURVIVABLE = ("SHORT", "STALL")      # a write hit by nothing else has no excuse to fail
MUST_TAGS = (
    ("refers outside", {"C07", "C18"}), ("another logical file", {"C07", "C18"}), ("names no origin", {"C07"}),
    ("DIMENSION", {"C08", "C05"}), ("ELEMENT-LIMIT", {"C08", "C05"}), ("no origin", {"C09"}),
    ("256 objects", {"C07"}), ("unsupported dtype", {"C03", "C08"}),
)


class Source:
    """The data argument of one write and everything about it the caller could notice changing."""

    def __init__(self, sim, op):
        src = op.get("src") or {"k": "inline"}
        self.kind = src["k"]
        self.arrays, self.data, self.path = {}, None, None
        for n, sp in src.get("d", {}).items():
            sh = sp.get("share")
            if sh is not None:
                if sh in sim.objs and sim.objs[sh].arr is not None:
                    self.arrays[n] = sim.objs[sh].arr
            else:
                self.arrays[n] = Arr(sp)
        self.order = [n for n in (src.get("order") or list(self.arrays)) if n in self.arrays]
        self.struct = None
        self.at = None if sim.in_thread() else src.get("at")
        if self.kind == "dict":
            if self.at:
                self._again(sim, src)
            self.data = {n: self.arrays[n].a for n in self.order}
            if src.get("dk") == "ordered":
                self.data = collections.OrderedDict(self.data)
            elif src.get("dk") == "default":
                self.data = collections.defaultdict(list, self.data)
            if self.at:
                d = sim.srcs.setdefault(("data", self.at), {})
                d.clear()
                d.update(self.data)
                self.data = d
            if "bad" in src:
                self.data["__bad"] = values.realise(src["bad"])
        elif self.kind == "struct":
            self._struct(sim, src)
        elif self.kind == "h5":
            self._h5(sim, op, src)
        self.plain = {n: self.arrays[n].rows() for n in self.order}
        self.fp = self.fingerprint()

    def _struct(self, sim, src):
        ns = {n: self.arrays[n].a for n in self.order}
        fields = [(n, a.dtype, a.shape[1:]) if a.shape[1:] else (n, a.dtype) for n, a in ns.items()]
        dt = np.dtype(fields, align=bool(src.get("align")))
        nrow = max((a.shape[0] for a in ns.values()), default=0)
        arr = np.zeros(nrow, dtype=dt)
        for n, a in ns.items():
            arr[n] = a
        lay = src.get("slay")
        if lay == "strided":
            big = np.zeros(nrow * 2, dtype=dt)
            big[::2] = arr
            arr = big[::2]
        elif lay == "rev":
            arr = np.ascontiguousarray(arr[::-1])[::-1]
        elif lay == "ro":
            arr.flags.writeable = False
        elif lay == "fields":
            big = np.zeros(nrow, dtype=np.dtype([("__pre", "u1")] + fields + [("__post", "f8")]))
            for n in ns:
                big[n] = arr[n]
            arr = big[list(ns)]
        elif lay == "rec":
            arr = arr.view(np.recarray)
        if self.at:
            old = sim.srcs.get(("struct", self.at))
            if old is not None and old.dtype == arr.dtype and old.shape == arr.shape and old.flags.writeable:
                for n in ns:
                    old[n] = arr[n]
                arr = old
            sim.srcs["struct", self.at] = arr
        self.struct = self.data = arr

    def _again(self, sim, src):
        """The caller's arrays of an earlier write, where they fit, filled with the new values."""
        mine = sim.srcs.setdefault(("dict", self.at), {})
        for n, sp in src["d"].items():
            new, old = self.arrays.get(n), mine.get(n)
            if new is None or "share" in sp:
                continue
            if old is not None and old.a.dtype.str == new.a.dtype.str and old.a.shape == new.a.shape and old.a.flags.writeable:
                old.a[...] = new.a
                self.arrays[n] = old
            mine[n] = self.arrays[n]

    def _h5(self, sim, op, src):
        import h5py
        import pathlib
        self.path = os.path.join(sim.root, ("src_" + self.at if self.at else op["id"]) + (".hdf5" if src.get("ext") else ".h5"))
        if os.path.exists(self.path):
            os.unlink(self.path)                     # a new file under an old name
        with h5py.File(self.path, "w") as h:
            for n in self.order:
                kw = {}
                a = self.arrays[n].a
                if src.get("chunked") and a.ndim and all(a.shape):
                    kw["chunks"] = (max(1, min(a.shape[0], 7)),) + a.shape[1:]
                h.create_dataset(n, data=a, **kw)
        self.data = pathlib.Path(self.path) if src.get("pathlib") else self.path

    def fingerprint(self):
        r = {"arrays": [a.fingerprint() for a in self.arrays.values()]}
        if self.kind == "dict":
            r["dict"] = [(k, id(v)) for k, v in self.data.items()]
        if self.struct is not None:
            r["struct"] = (self.struct.tobytes(), self.struct.dtype, self.struct.flags.writeable)
        if self.path:
            with simio.REAL_OPEN(self.path, "rb") as fh:
                r["h5"] = fh.read()
        return r

    def changed(self):
        now = self.fingerprint()
        return [k for k in self.fp if now[k] != self.fp[k]]


def do_write(sim, op, path):
    f = sim._get(sim.files, op["f"])
    wid = op["id"]
    threaded = sim.in_thread()
    # two user threads never write to the same path: that is a race of the user's
    target = os.path.join(sim.root, (not threaded and op.get("name") or wid) + ".dlis")
    src = Source(sim, op)
    watched = [a for lf in f.lfs for a in lf.inline.values()]
    fp = [a.fingerprint() for a in watched]
    for o in f.objs():
        o.data_dim = None
    why, frames = model.why_invalid(f, op, src.plain, sim.objs)
    prior = op.get("prior")
    if prior and prior != "none":
        n = {"short": 10, "long": 300000}.get(prior, 1000)
        with simio.REAL_OPEN(target, "wb") as fh:
            fh.write(b"\x5a" * n)
    if not threaded:
        W.reset_op(op.get("faults", ()))
        W.watch, W.flushes, W.last, W.reported_size, W.observed = target, [], [], None, 0
    if not threaded:
        W.tick = op.get("tick", 1e-6)
    w0 = sim.warned()
    kw = {"output_chunk_size": op["ocs"]} if op.get("ocs", "def") != "def" else {}
    for k, name in (("ics", "input_chunk_size"), ("from", "from_idx"), ("to", "to_idx")):
        if op.get(k) is not None:
            kw[name] = op[k]
    if src.data is not None:
        kw["data"] = src.data
    if op.get("nodata"):
        kw["data"] = None
    tgt = target
    if op.get("pathlib"):
        import pathlib
        tgt = pathlib.Path(target)
    line = next((x for x in op.get("faults", ()) if x["site"] == "line"), None) if not threaded else None
    exc, crashed = None, False
    try:
        if line:
            with simio.LineFault(line) as LF:
                f.live.write(tgt, **kw)
        else:
            f.live.write(tgt, **kw)
    except simio.SimCrash:
        crashed = True
    except (Exception, simio.InjectedKBI) as e:
        exc = _exc(e)
        e.__traceback__ = None
        if isinstance(e, oracle_errors()):
            raise
    fired = [] if threaded else list(W.fired_now)
    flushes, last = ([], []) if threaded else (W.flushes, W.last)
    counts = {} if threaded else dict(W.count)
    if line:
        counts["line"] = LF.lines
    if not threaded:
        W.reset_op()
        W.watch = None
    info = {"ok": exc is None and not crashed, "exc": exc, "fired": fired, "crashed": crashed, "path": list(path),
            "why": [list(x) for x in why[:6]], "warned": sim.warned() - w0, "hc": bool(sim.hc),
            "reported": None if threaded else W.reported_size, "prior": prior,
            "flushes": [x[0] for x in flushes], "counts": counts}
    info["hard"] = [k for k in fired if k.split(":")[1] not in SURVIVABLE]
    sim.writes[wid] = info
    raw = b""
    if os.path.exists(target):
        with simio.REAL_OPEN(target, "rb") as fh:
            raw = fh.read()
    info["size"], info["sha"] = len(raw), simio.sha(raw)
    if sim.keep and info["ok"]:
        cp = os.path.join(sim.root, wid + ".out")
        with simio.REAL_OPEN(cp, "wb") as fh:
            fh.write(raw)
        info["copy"] = cp
    if not threaded:
        oracle.check_flushes(sim.problems, path, flushes, last, raw, info, [f.ml])
    how = "successful" if info["ok"] else f"failed ({exc})"
    bad = [i for i, a in enumerate(watched) if a.fingerprint() != fp[i]]
    if bad:
        sim.note({"C19"}, "inline_changed", f"{len(bad)} inline arrays changed by {how} write {wid}", path)
    for k in src.changed():
        sim.note({"C19"}, f"{k}_changed", f"the caller's {k} data changed by {how} write {wid}", path)
    info["frames"] = {k: fd.n for k, fd in frames.items()}
    judge(sim, op, path, f, exc, crashed, raw, frames, why, info)
    if crashed:
        raise Stop()
    if exc is not None:
        sim.outcomes.append([list(path), "write", "raise", exc])


def oracle_errors():
    return (AssertionError,) if False else ()


def judge(sim, op, path, f, exc, crashed, raw, frames, why, info):
    if crashed:
        return
    breaches = model.hc_breaches(f, frames, sim.objs)
    info["breaches"] = sorted(breaches)
    musts = [m for s, m in why if s == "must"]
    if exc is not None:
        if info["hard"] or why or op.get("exp") in ("any", "rej") or (sim.hc and breaches):
            return
        if breaches and not sim.hc and exc.startswith("RuntimeError"):
            sim.note({"C17"}, "breach_raises_outside", f"write raised outside high-compatibility mode although "
                     f"{sorted(breaches)} only warn there: {exc}", path)
        sim.note(oracle.UNEXPECTED, "unexpected_raise", f"write of a valid specification raised {exc}", path)
        return
    if musts:
        tags = {"C12"}
        for pat, t in MUST_TAGS:
            if any(pat in m for m in musts):
                tags |= t
        sim.note(tags, "accepted_invalid", f"write returned normally although: {'; '.join(musts[:3])}", path)
        return
    skip = [fid for fid, fd in frames.items() if any("negative window" in m for _, m in fd.why)]
    w = dict(op)
    w["_hc"] = bool(sim.hc)
    c = oracle.Check(sim, f, raw, w, frames, path, sim.problems, {sim.tz}, skip)
    R = c.run()
    info["records"] = len(R.phys.records)
    sim.sig.append(file_sig(R))
    if not sim.hc:
        quiet = sim.unwarned.pop(f.id, [])
        if quiet and not info["warned"]:
            sim.note({"C17"}, "no_warning", f"breaches {quiet[:3]} outside high-compatibility mode gave no warning", path)
        late = breaches & {"frames", "signed", "spacing"}
        if late and not info["warned"]:
            sim.note({"C17"}, "no_warning", f"write with {sorted(late)} outside high-compatibility mode gave no warning", path)


def file_sig(R):
    """Shape of a produced file: what the coverage measure counts as one state."""
    segs = R.phys.records
    return (tuple(sorted({(r.is_eflr, r.type, min(r.n_segments, 4), bool(r.pads and r.pads[-1]), len(r.body) < 12)
                          for r in segs})),
            tuple((tuple(sorted((s.type, min(len(s.objects), 3), s.name is not None) for s in lf.sets)),
                   tuple(sorted({(i.type, min(len(i.data), 40) // 8) for i in lf.iflrs}))) for lf in R.lfiles))


class Baton:
    """Runs the operation lists of several user threads, one library line at a time, in the order ``sched`` dictates.

    Only the owner of the baton runs. A thread that blocks (on a lock the library holds in another thread) while it owns
    the baton is set aside until it runs again; it is recognised by every thread of the process being asleep."""

    def __init__(self, sim, op, path):
        self.sim, self.op, self.path = sim, op, path
        self.sched = list(op["sched"])
        self.k = 0
        self.n = len(op["threads"])
        self.sem = [threading.Semaphore(0) for _ in range(self.n)]
        self.main = threading.Semaphore(0)
        self.alive = [True] * self.n
        self.parked = [True] * self.n
        self.blocked = [False] * self.n
        self.owner = None
        self.left = 0
        self.beat = 0
        self.mutex = threading.Lock()              # about the fields above, held for moments only
        self.err = None

    def quota(self):
        q = self.sched[self.k] if self.k < len(self.sched) else 1 << 60
        self.k += 1
        return q

    def give(self, me):
        """The next thread becomes the owner (the mutex is held)."""
        order = [(me + d) % self.n for d in range(1, self.n + 1)]
        order = [j for j in order if self.alive[j]]
        if not order:
            self.owner = None
            self.main.release()
            return
        j = next((j for j in order if not self.blocked[j]), order[0])
        self.left = self.quota()
        self.owner = j
        if j != me:
            self.sim.switches += 1
        if self.parked[j]:
            self.parked[j] = False
            self.sem[j].release()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.beat += 1
                if self.owner == me:
                    self.left -= 1
                    if self.left > 0:
                        return local
                with self.mutex:
                    self.blocked[me] = False
                    if self.owner == me:
                        self.give(me)
                    wait = self.owner != me
                    if wait:
                        self.parked[me] = True
                if wait:
                    self.sem[me].acquire()
            return local

        def glob(frame, event, arg):
            return local if simio._in_lib(frame.f_code.co_filename) else None
        return glob

    def body(self, me):
        self.sem[me].acquire()
        sys.settrace(self.tracer(me))
        try:
            self.sim.run_ops(self.op["threads"][me], self.path + (me,))
        except BaseException as e:                                           # noqa: a harness error or a crash
            self.err = e
        finally:
            sys.settrace(None)
            with self.mutex:
                self.alive[me] = False
                self.blocked[me] = False
                if self.owner == me:
                    self.give(me)

    def asleep(self):
        me = threading.get_native_id()
        for t in os.listdir("/proc/self/task"):
            if int(t) == me:
                continue
            try:
                with simio.REAL_OPEN(f"/proc/self/task/{t}/stat", "rb") as fh:
                    if fh.read().rsplit(b")", 1)[1].split()[0] != b"S":
                        return False
            except OSError:
                return False
        return True

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        with self.mutex:
            self.give(self.n - 1)
        quiet, beat, end = 0, -1, time.monotonic() + 120
        while not self.main.acquire(timeout=.03):
            if time.monotonic() > end:
                raise HarnessError("threads did not finish")
            with self.mutex:
                if self.beat == beat and self.asleep():
                    quiet += 1
                else:
                    quiet = 0
                beat = self.beat
                o = self.owner
                if quiet >= 3 and o is not None and not self.parked[o]:
                    quiet = 0
                    self.blocked[o] = True
                    self.sim.waits += 1
                    if not all(self.blocked[j] for j in range(self.n) if self.alive[j]):
                        self.give(o)
        for t in ts:
            t.join(10)
        if self.err is not None:
            raise self.err


class HarnessError(BaseException):
    pass


def run_program(prog, root, keep=True):
    """Execute a program in this (pristine) process."""
    simio.set_tz("UTC")
    sim = Sim(prog, root, keep)
    return sim.run()
