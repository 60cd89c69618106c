"""Seeded generation of programs: histories of operations over the library's public API, with faults.

Everything is drawn from one ``random.Random``; a program is plain JSON.  ``profile(prop, rnd)`` draws the knobs of one
run (swarm style: every run enables its own subset of features and fault kinds).
"""
import calendar
import random

from . import spec

NAMES = ["A", "B", "CH-1", "DEPTH", "TIME_2", "X", "GR", "N0", "Z9-_", "MAIN"]
LOW = ["depth", "Ch 1", "a.b/c", "x#y", "mixed Case", "q\"'", "p~", "ab cd  ef", "(1)", "lower"]
# names which only just break the rule of the high-compatibility mode
NEAR = ["AB\n", "N1\n", "A-1\n", "A_B\n", "A B", " A", "A ", "A\tB", "\nA", "A\nB", "A+B", "A.B", "a", "AbC", "A\x00", "A:B", "N1\r", "A,B", "N/1", "\x7f",
        "N1 \n", "\n", "A^B", "[A]", "A@B", "`A", "Az", "A\\B"]
NEAR8 = ["\u00c4B", "\uff21", "\u0391", "A\u0663", "A\u2013B", "A\u2028", "A\u00a0", "\u00b9"]
DTYPES = ["i1", "i2", "i4", "u1", "u2", "u4", "f4", "f8"]
BAD_DTYPES = ["<i8", "<u8", "<f2", "|b1", "<c16", "|S4"]
TZS = ["UTC", "Asia/Tokyo", "America/New_York", "Europe/Oslo", "Asia/Kathmandu"]
MLS = [20, 22, 24, 26, 28, 30, 32, 34, 36, 40, 48, 64, 80, 100, 128, 200, 256, 512, 1000, 1024, 2048, 4096, 8192,
       8192, 16384]


def S(s):
    return {"s": s}


def N(n):
    return {"i": n}


def F(x):
    x = float(x)
    return {"f": "nan" if x != x else x.hex()}


def L(xs):
    return {"l": list(xs)}


def R(oid):
    return {"r": oid}


# ------------------------------------------------------------------------------------------------------- knobs

def profile(prop, r, tier="quick"):
    """Knobs of one run."""
    K = {
        "files": r.choice([1, 1, 1, 2]), "lfs": r.choice([1, 1, 1, 2]), "frames": r.choice([1, 1, 2, 3]),
        "chans": r.choice([1, 2, 3, 5]), "rows": r.choice([1, 2, 3, 7, 20, 40]), "ml": r.choice(MLS),
        "dense": r.choice([0, 0, 2, 5, 10]), "attr_p": r.choice([.1, .3, .6, .9]), "edge_p": r.choice([0, 0, .05, .2]),
        "set_p": r.choice([0, .2, .6]), "collide": r.choice([.1, .5, .9]), "lower_p": r.choice([0, .2, .6]),
        "origin2": r.random() < .25, "late_origin": r.random() < .15, "oref_p": r.choice([0, 0, .3]),
        "cast_p": r.choice([0, 0, .3]), "lay_p": r.choice([0, .3, .8]), "be_p": r.choice([0, .2, .5]),
        "twod_p": r.choice([0, .3, .6]), "g": r.choice(["bits", "bits", "special", "seq", "small"]),
        "twin_p": 0, "at_p": r.choice([0, 0, .3, .9]), "index_p": r.choice([0, .5, 1]), "nf": r.choice([0, 0, 1, 3, 8]), "ext": r.choice(["inline", "dict", "any", "mix"]),
        "writes": r.choice([1, 1, 2, 3]), "fault_p": r.choice([0, .3, .7]), "surv_p": r.choice([0, .3]),
        "ics_p": .5, "win_p": r.choice([0, .3]), "prior_p": .2, "explicit_p": r.choice([.3, 1]),
        "later_p": r.choice([0, .3]), "reject_p": 0, "invalid_p": 0, "read_p": r.choice([0, .1]), "env_p": r.choice([0, .1]),
        "hc_p": 0, "breach_p": 0, "lfset": .9, "rename_p": r.choice([0, 0, .1]), "reref_p": r.choice([0, 0, .1]), "dsname_p": r.choice([0, 0, .08]), "header_p": r.choice([0, 0, .1]),
        "kinds": None, "min_explicit": False, "par_p": 0, "share_p": r.choice([0, .2]), "sites": None, "redata_p": .3,
        "recast_p": r.choice([0, 0, .1]), "crash_p": 0, "hist": r.choice([0, 0, 1]), "nfobjs": r.choice([1, 1, 2, 3]),
        "nfdup": r.choice([0, 0, .3]), "obj_p": r.choice([0, 0, .3, .7]), "sul_p": r.choice([0, 0, .15]), "pair": False,
    }
    K["sites"] = r.sample(["open", "write", "close", "flushed", "h5open", "h5read", "alloc", "line"], r.randint(2, 8))
    up = getattr(_Prof, prop, None)
    if up:
        up(K, r)
    if prop in ("C02", "C03", "C08", "C10", "C11", "C18") and r.random() < .008:
        big(K, r)
    elif r.random() < (.02 if prop != "C17" else .006):
        scale(K, r, tier, prop)
    if tier == "thorough" and r.random() < .2:
        K["rows"] = r.choice([127, 128, 129, 200, 400])
        if r.random() < .05:
            K["rows"] = r.choice([16500, 16500, 65535, 65540])
            K["chans"], K["frames"], K["lfs"] = 1, 1, 1
        K["dense"] = r.choice([0, 10, 25])
    return K


def big(K, r):
    """A frame whose record numbers need four bytes; nothing else of size."""
    K.update(rows=r.choice([16383, 16384, 16390]), chans=1, frames=1, lfs=1, files=1, hist=0, writes=1, dense=0, nf=0, big=1,
             ml=r.choice([512, 8192, 16384]), twod_p=0, share_p=0, par_p=0, twin_p=0)
    K["sites"] = [s for s in K["sites"] if s != "line"] or ["write"]


def scale(K, r, tier, prop):
    """Much of one thing, and little of everything else."""
    k = r.choice(["list", "list", "chans", "width", "lfs", "frames", "nf", "rows"])
    if k == "rows" and (prop not in ("C02", "C03", "C18") or tier == "quick" and r.random() < .7):
        k = "width"
    K["scale"] = k
    K.update(files=1, writes=min(K["writes"], 2), par_p=0)
    if k == "list":
        # counts and dimensions that need two bytes, or four
        K.update(long=r.choice([127, 128, 129, 255, 256, 300]), dense=6, attr_p=r.choice([.3, .6]), rows=2)
        if r.random() < .06:
            K.update(long=r.choice([16383, 16384]), dense=3, attr_p=.3, ml=r.choice([512, 8192, 16384]), hist=0, lfs=1)
    elif k == "chans":
        K.update(nch=r.choice([60, 126, 127, 128, 129, 255, 256, 257]), frames=1, lfs=1, rows=r.choice([1, 2, 3]), attr_p=.1,
                 dense=r.choice([0, 2]), later_p=0)
    elif k == "width":
        K.update(width=r.choice([127, 128, 255, 256, 257, 1000, 4096, 16383, 16384, 32768, 65535, 65536]), frames=1, lfs=1,
                 rows=r.choice([1, 2, 3]), chans=r.choice([1, 2]), twod_p=.9, dense=r.choice([0, 2]))
        if K["width"] > 1000:
            K.update(ml=r.choice([256, 512, 8192, 16384]), chans=1, hist=0)
    elif k == "lfs":
        K.update(nlf=r.randint(8, 14), lfset=.997, frames=1, chans=1, dense=r.choice([0, 1]), rows=2, hist=0)
    elif k == "frames":
        K.update(nframes=r.choice([10, 20, 40]), chans=r.choice([1, 2]), lfs=1, rows=3, dense=r.choice([0, 2]))
    elif k == "nf":
        K.update(nfbig=r.choice([16383, 16384, 32767, 65535, 65536, 65537, 70000, 131072, 131073]), nf=3, dense=0, lfs=1,
                 ml=r.choice([200, 512, 4096, 8192, 16384]))
    else:
        K.update(rows=r.choice([65535, 65536, 65540]), big=1, chans=1, frames=1, lfs=1, hist=0, writes=1, dense=0, nf=0,
                 ml=r.choice([8192, 16384]), twod_p=0, share_p=0, twin_p=0)
        K["sites"] = [x for x in K["sites"] if x != "line"] or ["write"]


# what may change once such an object exists, whatever its other attributes are
LATER = {"parameter": ("long_name",), "computation": ("long_name", "properties", "source"), "zone": ("description",),
         "calibration_coefficient": ("label",),
         "calibration_measurement": ("phase", "measurement_source", "measurement_type", "sample_count", "begin_time",
                                     "duration"),
         "frame": ("description", "encrypted", "spacing", "index_min", "index_max", "direction")}
# attributes that have to agree with others of the same object, in number, shape or kind
AGREE = ("values", "coefficients", "references", "plus_tolerances", "minus_tolerances", "maximum_deviation",
         "standard_deviation", "standard", "plus_tolerance", "minus_tolerance", "measurement", "reference", "maximum",
         "minimum", "coordinates")


CROWD = {"C07": .015, "C12": .007, "C20": .007, "C05": .004, "C14": .004, "C16": .004}


class _Prof:
    @staticmethod
    def C01(K, r):
        K["ml"] = r.choice(MLS[:14] + [8192])
        K["nf"] = r.choice([0, 2, 5])
        K["fault_p"] = r.choice([.3, .6])
        K["surv_p"] = r.choice([.2, .6])

    @staticmethod
    def C02(K, r):
        _Prof.C01(K, r)
        K["nf"] = r.choice([1, 4, 8])
        K["dense"] = r.choice([0, 1, 3])

    @staticmethod
    def C03(K, r):
        K["dense"] = r.choice([0, 0, 1])
        K["chans"] = r.choice([1, 2, 4, 6])
        K["lay_p"], K["be_p"], K["twod_p"] = r.choice([0, .8]), r.choice([0, .5, .8]), r.choice([0, .5])
        K["g"] = r.choice(["bits", "special"])
        K["cast_p"] = r.choice([0, 0, .4])
        K["fault_p"] = r.choice([.3, .6])
        K["ext"] = r.choice(["inline", "any", "any", "mix"])
        K["recast_p"] = r.choice([0, .3])
        K["redata_p"] = .6

    @staticmethod
    def C05(K, r):
        K["dense"] = r.choice([5, 10, 15])
        K["attr_p"] = r.choice([.3, .6, .9])
        K["later_p"] = r.choice([.2, .6])
        K["hist"] = r.choice([0, 1, 2])
        K["chans"], K["rows"] = r.choice([1, 2]), r.choice([1, 3])
        K["env_p"] = r.choice([0, .2, .6])
        K["edge_p"] = r.choice([0, .05, .2])
        K["writes"] = r.choice([1, 2, 3])

    @staticmethod
    def C07(K, r):
        K["dense"] = r.choice([4, 8, 12])
        K["collide"] = r.choice([.5, .9, 1])
        K["set_p"] = r.choice([0, .4, .7])
        K["rows"], K["chans"] = r.choice([1, 2]), r.choice([1, 3])
        K["origin2"] = r.random() < .5
        K["late_origin"] = r.random() < .3
        K["oref_p"] = r.choice([0, .3])
        K["reref_p"] = r.choice([0, .2, .4])
        K["rename_p"] = r.choice([0, .15])
        K["lfs"] = r.choice([1, 2, 3])
        K["files"] = r.choice([1, 2])
        K["invalid_p"] = r.choice([0, 0, .05])
        K["reject_p"] = r.choice([0, .1])
        K["kinds"] = ["foreign"]

    @staticmethod
    def C08(K, r):
        K["twod_p"] = r.choice([.3, .7])
        K["cast_p"] = r.choice([0, .5])
        K["dense"] = r.choice([0, 2])
        K["frames"] = r.choice([1, 2, 3])
        K["recast_p"] = r.choice([0, .3])
        K["redata_p"] = .8
        K["be_p"] = r.choice([0, .4])
        K["writes"] = r.choice([1, 2, 3])
        K["share_p"] = r.choice([0, .4])

    @staticmethod
    def C09(K, r):
        K["lfs"] = r.choice([1, 2, 3])
        K["set_p"] = r.choice([0, .4, .7])
        K["origin2"] = r.random() < .4
        K["late_origin"] = r.random() < .4
        K["header_p"] = r.choice([0, .3])
        K["reject_p"] = r.choice([0, .15])
        K["read_p"] = r.choice([0, .3])
        K["nf"] = r.choice([0, 1, 3])
        K["writes"] = r.choice([1, 2, 3])

    @staticmethod
    def C10(K, r):
        K["files"], K["writes"] = 1, 1
        K["rows"] = r.choice([3, 7, 20, 40])
        K["fault_p"] = 0
        K["explicit_p"] = .5
        K["dense"] = r.choice([0, 2, 5])
        K["lfs"] = r.choice([1, 1, 2])

    @staticmethod
    def C11(K, r):
        K["files"], K["writes"] = 1, r.choice([1, 1, 1, 2])
        K["lfs"] = r.choice([1, 1, 1, 2])
        K["rows"] = r.choice([2, 3, 7, 20])
        K["fault_p"] = 0
        K["dense"] = r.choice([0, 0, 2])
        K["nf"] = r.choice([0, 0, 1])
        K["ext"] = "dict"
        K["collide"] = r.choice([.1, .5])
        K["win_p"] = r.choice([0, .6, 1])
        K["dsname_p"] = r.choice([0, .3, .7])
        K["chans"] = r.choice([2, 3, 4])
        K["index_p"] = r.choice([0, 1])
        K["frames"] = r.choice([1, 2])

    @staticmethod
    def C12(K, r):
        K["invalid_p"] = r.choice([0, .05, .15])
        K["fault_p"] = r.choice([0, .5])
        K["edge_p"] = r.choice([.05, .3])
        K["surv_p"] = r.choice([0, .3])

    @staticmethod
    def C13(K, r):
        K["index_p"] = r.choice([.7, 1])
        K["rows"] = r.choice([1, 2, 3, 4, 6, 10, 25])
        long = r.random() < .05
        if long:
            K["rows"] = r.choice([130, 300, 700, 2100])
        K["dense"] = 0
        K["chans"] = r.choice([1, 2])
        K["writes"] = r.choice([2, 3, 4])
        K["redata_p"] = .8
        K["win_p"] = r.choice([.3, .8])
        K["frames"] = r.choice([1, 2, 3])
        K["cast_p"] = r.choice([0, .3])
        K["fault_p"] = r.choice([0, .4])
        K["later_p"] = r.choice([0, .5])
        K["recast_p"] = r.choice([0, .2])
        K["nf"] = 0
        if long:
            K.update(chans=1, frames=1, writes=r.choice([1, 2]), hist=0, files=1)

    @staticmethod
    def C14(K, r):
        K["files"] = r.choice([2, 3, 3, 4])
        K["writes"] = r.choice([1, 2, 3])
        K["collide"] = r.choice([.7, 1])
        K["attr_p"] = r.choice([.3, .6])
        K["dense"] = r.choice([1, 3, 6])
        K["rows"] = r.choice([1, 2, 4])
        K["hist"] = r.choice([0, 1, 2])
        K["fault_p"] = r.choice([0, .4])
        K["reject_p"] = r.choice([0, .05])
        K["hc_p"] = r.choice([0, .3])
        K["par_p"] = .12
        K["twin_p"] = r.choice([0, .5])
        K["at_p"] = r.choice([0, .5, 1])
        K["ext"] = r.choice(["inline", "dict", "any", "any", "mix"])
        K["win_p"] = r.choice([0, .5])
        K["later_p"] = r.choice([0, .4])
        K["rename_p"] = r.choice([0, .1])
        K["dsname_p"] = r.choice([0, .1, .25])
        K["env_p"] = r.choice([0, .1])
        K["ml"] = r.choice([64, 256, 1024, 8192])
        K["redata_p"] = .6

    @staticmethod
    def C16(K, r):
        K["nf"] = r.choice([2, 5, 10, 20])
        K["nfobjs"] = r.choice([1, 2, 2, 3, 4])
        K["nfdup"] = r.choice([0, .2, .5])
        K["dense"] = 0
        K["rows"], K["chans"], K["frames"] = r.choice([1, 2]), 1, 1
        K["ml"] = r.choice(MLS)
        K["lfs"] = r.choice([1, 1, 2, 3])
        K["fault_p"] = r.choice([.2, .6])
        K["writes"] = r.choice([1, 2, 3])
        K["surv_p"] = r.choice([.2, .6])

    @staticmethod
    def C17(K, r):
        K["hc_p"] = r.choice([.5, .8, 1])
        K["breach_p"] = r.choice([0, .05, .2, .4])
        K["pair"] = r.random() < .35
        K["lower_p"] = 0
        K["files"] = r.choice([1, 2, 3])
        K["rows"] = r.choice([1, 2, 5])
        K["dense"] = r.choice([1, 3, 6])
        K["writes"] = r.choice([1, 2])
        K["fault_p"] = r.choice([0, .3])
        K["index_p"] = r.choice([.3, 1])
        K["explicit_p"] = r.choice([0, .5])
        K["origin2"] = r.random() < .4
        if K["pair"]:
            # the same few breaches in several files, some inside the mode and some not
            K["files"], K["hc_p"], K["breach_p"], K["dense"] = r.choice([2, 3]), .5, .4, r.choice([0, 1])

    @staticmethod
    def C18(K, r):
        K["frames"] = r.choice([1, 2, 3, 4])
        K["lfs"] = r.choice([1, 2, 2, 3, 4])
        K["lfset"] = r.choice([1, 1, .8, .5])
        K["collide"] = r.choice([.5, .9])
        K["dense"] = r.choice([0, 2, 5])
        K["nf"] = r.choice([0, 2, 5])
        K["rows"] = r.choice([1, 3, 7])
        K["ext"] = r.choice(["inline", "dict", "any", "mix"])
        K["par_p"] = .08
        K["share_p"] = r.choice([0, .4])
        K["late_origin"] = r.random() < .3

    @staticmethod
    def C19(K, r):
        K["ext"] = r.choice(["inline", "dict", "any", "any", "mix"])
        K["lay_p"], K["be_p"], K["cast_p"] = r.choice([.3, .8]), r.choice([0, .5]), r.choice([0, .5])
        K["win_p"], K["ics_p"] = r.choice([0, .5]), .7
        K["dense"] = 0
        K["fault_p"] = r.choice([.3, .8])
        K["writes"] = r.choice([1, 2, 3])
        K["share_p"] = r.choice([0, .4])
        K["g"] = r.choice(["bits", "special", "seq"])
        K["recast_p"] = r.choice([0, .3])
        K["nf"] = 0

    @staticmethod
    def C20(K, r):
        K["files"] = r.choice([1, 1, 2])
        K["reject_p"] = r.choice([.15, .3, .5])
        K["fault_p"] = r.choice([0, .7, 1])
        K["writes"] = r.choice([1, 2, 3])
        K["collide"] = r.choice([.5, .9])
        K["rows"] = r.choice([1, 3, 7])
        K["dense"] = r.choice([2, 5, 8])
        K["set_p"] = r.choice([0, .4])
        K["invalid_p"] = 0
        K["redata_p"] = .5
        K["win_p"] = r.choice([0, .3])
        K["badlimit_p"] = r.choice([0, 0, 0, .05])
        K["crash_p"] = 0
        K["ext"] = r.choice(["inline", "dict", "any", "any", "mix"])


# ---------------------------------------------------------------------------------------------------- generator

class FB:
    """One file under construction in the generator."""

    def __init__(self, fid, ml):
        self.id, self.ml = fid, ml
        self.ops = []
        self.lfs = []
        self.ext = {}            # dataset name -> array spec, for external data
        self.stale = set()       # dataset names that external data may still hold but no channel refers to
        self.mode = "inline"
        self.hc = False
        self.n = 0
        self.tail = []


class LB:
    def __init__(self, lid, fb, idx):
        self.id, self.fb, self.idx = lid, fb, idx
        self.by = {}             # type -> [oid]
        self.names = {}          # oid -> name
        self.dim = {}            # channel oid -> width (1-D: None)
        self.ds = []             # dataset names in use
        self.dsof = {}
        self.cast = {}
        self.arr = {}            # channel oid -> array spec
        self.frames = []
        self.orefp = 0
        self.infr = set()
        self.orefs = []
        self.axdim = {}          # axis oid -> number of coordinates, None without any
        self.ncalls = 0
        self.nf = []
        self.later = []
        self.ok = True


class Gen:
    def __init__(self, prop, seed, tier="quick"):
        self.r = random.Random(f"{prop}:{seed}")
        self.prop = prop
        self.K = profile(prop, self.r, tier)
        self.n = 0
        self.wn = 0
        self.all_oids = []
        self.pyobjs = {}         # (kind, hc) -> attribute specifications that may be passed again as the same object
        self.pyspec = {}
        self.breaches = None

    # ------------------------------------------------------------------------------------------------- helpers
    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def nid(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def name(self, fb, cls="N"):
        r, K = self.r, self.K
        if not fb.hc and self.chance(K["edge_p"] * .3):
            return [self.pick("aB3-"), self.pick([1, 2, 3, 11, 12, 60, 126, 127, 128, 129, 200, 254, 255])]
        if fb.hc and self.chance(K["edge_p"] * .3):
            return [self.pick("B3-"), self.pick([1, 60, 127, 128, 255])]
        if not fb.hc and self.chance(.03):
            # blanks at the ends, other printable and control characters
            return self.pick([" A", "A ", "  N1", "N1", " ", " a b ", "A\tB", "\tA", "x\x7f", "a\nb", "'q'", '"', "A;B", "A&B%s{0}", "0", "\\"])
        if self.chance(K["collide"]):
            pool = NAMES if fb.hc or not self.chance(K["lower_p"]) else LOW
            return self.pick(pool[:3] if self.chance(K["collide"]) else pool)
        base = self.pick(NAMES) + "-" + str(r.randrange(1000))
        if not fb.hc and self.chance(K["lower_p"]):
            base = base.lower() + " " + self.pick(LOW)
        return base

    def text(self, maxlen=40):
        r, K = self.r, self.K
        if self.chance(K["edge_p"]):
            return [self.pick("xY 1"), self.pick([0, 1, 126, 127, 128, 255, 256, 300, 1000, 16383, 16384])]
        if self.chance(.1):
            return self.pick(["", " ", "  lead", "trail ", "12", "1.50", "a\nb", "a\r\nb", "\r", "\t", "\x00", "end\x00", "\x7f\x1b", "two  blanks", "~!@#$%^&*()", "None", "0"])
        return "".join(self.pick("abcdefghij KLMNOP-_.,/0123") for _ in range(r.randint(1, maxlen)))

    def plain_text(self):
        t = self.text(12)
        return t if isinstance(t, str) else "zz"

    def ident(self, hc=False):
        if self.chance(self.K["edge_p"]):
            return [self.pick("IJ9" if hc else "iJ9"), self.pick([1, 126, 127, 128, 200, 255])]
        if hc:
            return "".join(self.pick("ABCXYZ-_019") for _ in range(self.r.randint(1, 12)))
        return "".join(self.pick("abcXYZ-_ 019") for _ in range(self.r.randint(1, 12)))

    def num(self, ints=True, np=True):
        r = self.r
        k = r.randrange(9)
        if not np and k in (2, 3):
            k = 8
        if k == 0 and ints:
            return N(self.pick([0, 1, -1, 127, 128, 255, 256, 32767, 32768, -32768, 65535, 2147483647, -2147483648]))
        if k == 1:
            return F(self.pick([0.0, -0.0, 1.0, -1.0, 0.1, 1e300, -1e-300, 5e-324, float("inf"), float("-inf"), 1 / 3]))
        if k == 2 and ints:
            return {"np": [self.pick(["int32", "int16", "uint8", "float64", "float32", "uint32"]), r.randrange(100)]}
        if k == 3:
            return {"np": ["float64", (r.uniform(-1e3, 1e3)).hex()]}
        if k < 6 and ints:
            return N(r.randint(-1000, 1000))
        return F(r.uniform(-1e4, 1e4))

    def dtv(self):
        r = self.r
        k = r.randrange(6)
        y = self.pick([1901, 1905, 1970, 1999, 2000, 2024, 2100, 2154])
        mo = r.randint(2, 11) if y in (1901, 2154) else r.randint(1, 12)
        d = [y, mo, self.pick([1, 28, 29, 30, 31, r.randint(1, 28)]) if self.chance(.5) else r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)]
        d[2] = min(d[2], calendar.monthrange(y, mo)[1])
        if k == 0:
            return S(f"{d[0]:04d}/{d[1]:02d}/{d[2]:02d} {d[3]:02d}:{d[4]:02d}:{d[5]:02d}")
        if k == 1:
            return S(f"{d[0]:04d}.{d[1]:02d}.{d[2]:02d} {d[3]:02d}:{d[4]:02d}:{d[5]:02d}")
        d.append(self.pick([0, 0, 1000, 999000, 123456, 999499, 500000, 999500, 999999, 1500, 499]))
        v = {"d": d}
        if k == 2 and self.chance(.4):
            # the hour that is passed twice, in New York or in Oslo
            d[:4] = self.pick([[2024, 11, 3, 1], [2023, 11, 5, 1], [1999, 10, 31, 1], [2024, 10, 27, 2], [2023, 10, 29, 2], [1999, 10, 31, 2]])
            v["fold"] = r.randrange(2)
        if k > 3:
            v["tz"] = self.pick([0, 60, -300, 345, 840, -720])
        return v

    def refs(self, lb, types, n=None, dup=False):
        pool = [o for t in types for o in lb.by.get(t, [])]
        if not pool:
            return None
        if n is None:
            n = self.r.randint(1, min(4, len(pool)))
        xs = self.r.sample(pool, min(n, len(pool)))
        return [R(x) for x in xs]

    def any_ref(self, lb):
        pool = [o for xs in lb.by.values() for o in xs]
        return R(self.pick(pool)) if pool else None

    def enum(self, en, fb, soft=False):
        m = spec.ENUMS[en]
        k = self.pick(sorted(m))
        if soft and not fb.hc and self.chance(.15):
            return S(self.pick(["custom unit", "bogus", "M", "Ft."]))
        return S(m[k]) if self.chance(.6) else {"e": [en, k]}

    def many(self, n=4):
        """A number of values."""
        if "long" in self.K and self.chance(.2):
            return self.K["long"]
        return self.r.randint(1, n)

    def value(self, lb, kind):
        """A value that is valid for the kind, or None when there is nothing to refer to."""
        v = self.value_(lb, kind)
        if isinstance(v, dict) and "l" in v and self.chance(.1):
            v["tu"] = 1                         # a tuple instead of a list
        return v

    def value_(self, lb, kind):
        r, k = self.r, kind.split(":")[0]
        fb = lb.fb
        if k in ("T",):
            return S(self.text())
        if k == "TL":
            n = self.many()
            return L(S(self.text(15) if n < 5 else self.pick("abc")) for _ in range(n)) if not self.chance(.1) else S(self.text())
        if k == "I":
            return S(self.ident(fb.hc))
        if k in ("E", "S"):
            return self.enum(kind[2:], fb, k == "S")
        if k == "P":
            return L(self.enum("Property", fb) for _ in range(r.randint(1, 3)))
        if k in ("F", "FL", "FM") and self.chance(.04):
            # integers that fit doubles but not the 32-bit codes
            n = N(self.pick([1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 53) - 1, -(1 << 31) - 1, -(1 << 53) + 1]))
            return n if k == "F" else L([n] + [self.num() for _ in range(r.randint(0, 2))])
        if k == "F":
            return self.num()
        if k == "FL":
            return L(self.num() for _ in range(self.many()))
        if k == "FM":
            return L(self.num() for _ in range(self.many()))
        if k in ("W", "W16"):
            v = self.pick([0, 1, 127, 128, 16383, 16384, (1 << 30) - 1, r.randrange(1 << 20)]) if k == "W" else \
                self.pick([0, 1, 255, 256, 65535, r.randrange(65536)])
            # a whole number may come as a float or a numpy number as well
            return N(v) if self.chance(.85) else F(float(v)) if self.chance(.6) else \
                {"np": [self.pick(["int64", "float64", "uint32"]), v]}
        if k == "D":
            return self.dtv()
        if k == "DF":
            if self.chance(.08):
                return S(self.pick(["12.5", "0", "3", "1e3", "-7.25"]))       # numbers of seconds as text
            return self.dtv() if self.chance(.5) else F(r.uniform(-100, 1e6))
        if k == "V":
            return L([self.num(np=False)]) if self.chance(.6) else L([S(self.plain_text() + "q")])
        if k == "C":
            n = self.many()
            return L(F(i * 1.5) for i in range(n)) if self.chance(.6) else L(S("c" + str(i)) for i in range(n))
        if k == "R":
            x = self.refs(lb, [kind[2:]], 1)
            return x[0] if x else None
        if k == "RL":
            x = self.refs(lb, [kind[3:]])
            return L(x) if x else None
        if k == "RO":
            return self.any_ref(lb)
        if k == "RT":
            x = self.refs(lb, ["long_name"], 1)
            return x[0] if x and self.chance(.6) else S(self.text() or "t") if not self.chance(.02) else S("t")
        if k in ("RA", "RA1"):
            return self.any_ref(lb)
        if k == "RAL":
            n = self.many()
            xs = [self.any_ref(lb) for _ in range(n)]
            # one list of object references holds objects of one type in this library's data model or of many
            return L(x for x in xs if x) if xs and xs[0] else None
        if k == "ST":
            return self.pick([N(0), N(1), {"b": True}, {"b": False}, F(1.0), F(0.0), {"np": ["int64", 1]}])
        if k == "B":
            return self.pick([N(0), N(1), {"b": True}, {"b": False}])
        if k == "DIM":
            return None
        raise ValueError(kind)

    def wrap(self, kind, v, fb):
        """Maybe pass the value as an attribute set-up with units."""
        k = kind.split(":")[0]
        o = v
        if k in spec.UNITS_OK and self.chance(.3):
            o = {"A": v, "route": self.pick(["setup", "dict"])}
            if self.chance(.8):
                u = self.enum("Unit", fb, True)
                o["u"] = u["s"] if "s" in u else u
                if o["route"] == "dict" and self.chance(.4):
                    o["ord"] = 1                # the caller's dictionary names the units first
        elif self.chance(max(.1, self.K["obj_p"] * .5)):
            o = {"A": v, "route": self.pick(["setup", "dict"])}
        if self.K["obj_p"] and k not in ("R", "RL", "RO", "RT", "RA", "RA1", "RAL", "DF") and ("A" in o or "l" in o):
            # the caller passes one and the same dictionary, set-up or list more than once
            pool = self.pyobjs.setdefault((kind, fb.hc), [])
            if pool and self.chance(self.K["obj_p"]):
                return dict(self.pick(pool))
            key = f"py{len(self.pyspec)}"
            self.pyspec[key] = dict(o)
            o = dict(o, obj=key)
            pool.append(o)
        return o

    # ------------------------------------------------------------------------------------------------- objects
    def setname(self, lb, t):
        """None means: do not pass a set name."""
        K = self.K
        if lb.idx and self.chance(K["lfset"]):
            return f"LF{lb.idx}" if not self.chance(K["set_p"] * .5) else f"LF{lb.idx}-{self.pick('AB')}"
        if self.chance(K["set_p"]):
            return self.pick(["SA", "SB", "SC"]) if lb.idx == 0 or not self.chance(K["lfset"]) else f"LF{lb.idx}-S"
        return None

    def add(self, lb, t, kw=None, name=None, **extra):
        fb = lb.fb
        oid = self.nid("o")
        nm = name if name is not None else self.name(fb)
        kw = self.units_only(fb, t, kw or {})
        op = {"op": "add", "id": oid, "lf": lb.id, "t": t, "name": S(nm), "kw": kw or {}}
        sn = self.setname(lb, t)
        if sn is not None:
            op["set"] = S(sn)
        elif self.chance(.03):
            op["set"] = None
        if t != "origin" and lb.orefs and self.chance(max(lb.orefp, self.K["oref_p"])):
            op["oref"] = self.pick(lb.orefs)
        op.update(extra)
        if kw and self.chance(.15):
            op["mut"] = 1                       # the caller changes its lists and dictionaries afterwards
        fb.ops.append(op)
        # a shared set name across logical files may be refused; everything after is then uncertain
        if lb.idx and not (sn or "").startswith(f"LF{lb.idx}"):
            op["exp"] = "any"
        lb.by.setdefault(t, []).append(oid)
        lb.names[oid] = nm if isinstance(nm, str) else nm[0] * nm[1]
        self.all_oids.append((oid, t, lb))
        return oid

    def obj(self, lb, t):
        """Add one object of type t with a random valid selection of attributes."""
        K, r, fb = self.K, self.r, lb.fb
        kw = {}
        ty = spec.TYPES[t]
        for a, (py, label, kind) in ty.attrs.items():
            if kind == "DIM" or not self.chance(K["attr_p"]):
                continue
            if t == "origin" and a in ("file_set_number", "creation_time"):
                continue
            if a in ("axis",):
                continue
            v = self.value(lb, kind)
            if v is None or (kind == "RAL" and not v["l"]):
                continue
            kw[a] = self.wrap(kind, v, fb)
        fix = getattr(self, "_fix_" + t, None)
        if fix:
            fix(lb, kw)
        for a, v in kw.items():
            if "obj" in v and self.pyspec[v["obj"]] != {k: x for k, x in v.items() if k != "obj"}:
                kw[a] = {k: x for k, x in v.items() if k != "obj"}
        o = self.add(lb, t, kw)
        if t == "axis":
            c = self._val(kw, "coordinates")
            lb.axdim[o] = None if c is None else len(c["l"]) if "l" in c else -1
        return o

    def units_only(self, fb, t, kw):
        """Units for attributes that have no value (yet): one is assigned later, determined by the write, or never."""
        if self.chance(.12):
            pool = [a for a, (py, lab, k) in spec.TYPES[t].attrs.items() if k.split(":")[0] in spec.UNITS_OK and a not in kw]
            for a in self.r.sample(pool, min(len(pool), self.r.randint(1, 2))):
                u = self.enum("Unit", fb, True)
                kw[a] = {"u": u["s"] if "s" in u else u, "route": self.pick(["setup", "dict"])}
        return kw

    @staticmethod
    def _val(kw, a):
        v = kw.get(a)
        return v["A"] if isinstance(v, dict) and "A" in v else v

    def nest(self, tail):
        """A number, or nested lists (or tuples) of numbers of the given shape."""
        if not tail:
            return self.num(np=False)
        v = L(self.nest(tail[1:]) for _ in range(tail[0]))
        return dict(v, tu=1) if self.chance(.05) else v

    def tail(self):
        """Shape of one of several values."""
        if "long" in self.K and self.chance(.2):
            return self.pick([[self.K["long"]], [2, self.K["long"] // 2], [12, 11]])
        return self.pick([[], [], [], [1], [2], [3], [2, 3], [1, 2], [2, 1, 2]])

    def axes(self, lb, dims):
        """An axis for each dimension, of as many coordinates (or none), if there are such."""
        out = []
        for d in dims:
            pool = [x for x in lb.by.get("axis", []) if lb.axdim.get(x) in (None, d)]
            if not pool:
                kw = {"coordinates": self.unit(lb, L(self.num(np=False) for _ in range(d)))} if self.chance(.8) else {}
                o = self.add(lb, "axis", kw)
                if lb.fb.ops[-1].get("exp"):
                    return None                 # may be refused: nothing else shall depend on it
                lb.axdim[o] = d if kw else None
                pool = [o]
            out.append(R(self.pick(pool)))
        return L(out)

    def dims(self, lb, kw, tail, p=.4):
        """Spell the dimension of the values out, with or without axes for it."""
        if self.chance(p):
            dims = tail or [1]
            kw["dimension"] = L(N(x) for x in dims)
            if self.chance(.5):
                ax = self.axes(lb, dims)
                if ax:
                    kw["axis"] = ax

    def unit(self, lb, v, old=None):
        """The value, maybe with units (kept from `old` if that had some)."""
        if isinstance(old, dict) and "u" in old:
            return {**{k: x for k, x in old.items() if k != "obj"}, "A": v}
        if self.chance(.3):
            u = self.enum("Unit", lb.fb, True)
            return {"A": v, "route": self.pick(["setup", "dict"]), "u": u["s"] if "s" in u else u}
        return v

    def again(self, v):
        """Other values of the same shape and kinds."""
        if "l" in v:
            return L(self.again(x) for x in v["l"])
        if "A" in v:
            return self.again(v["A"])
        if "s" in v:
            return S(v["s"] + "w")
        if "d" in v:
            return self.dtv()
        return self.num(np=False)

    def _fix_parameter(self, lb, kw):
        if "values" not in kw:
            kw.pop("zones", None)
            self.dims(lb, kw, self.tail(), .2)
            return
        z = self._val(kw, "zones")
        n = len(z["l"]) if z is not None and "l" in z else 1
        r = self.r
        tail = []
        if r.random() < .3:           # values of several dimensions, with or without the dimension spelled out
            tail = (self.tail() if z is not None else self.pick([[1], [1, 1]]))
            v = L(self.nest(tail) for _ in range(n))
        elif r.random() < .6:
            v = L(self.num(np=False) for _ in range(n))
        else:
            v = L(S("v" + self.pick("abcz") + str(i)) for i in range(n))
        if z is None and n == 1 and self.chance(.3):
            v = v["l"][0] if "l" in v and "l" not in v["l"][0] else v
        self.dims(lb, kw, tail)
        kw["values"] = self.unit(lb, v, kw["values"])

    def _fix_computation(self, lb, kw):
        if "values" not in kw:
            self.dims(lb, kw, self.tail(), .2)
            return
        z = self._val(kw, "zones")
        n = len(z["l"]) if z is not None and "l" in z else self.r.randint(1, 3)
        tail = self.tail()
        v = L(self.nest(tail) for _ in range(n))
        self.dims(lb, kw, tail)
        kw["values"] = self.unit(lb, v)

    def _fix_calibration_coefficient(self, lb, kw):
        n = self.many(3)
        for a in ("coefficients", "references", "plus_tolerances", "minus_tolerances"):
            if a in kw:
                kw[a] = self.unit(lb, L(self.num() for _ in range(n)))

    def _fix_calibration_measurement(self, lb, kw):
        n, tail = self.many(3), self.pick([[], [], [2], [3], [2, 2]])
        some = False
        for a in ("maximum_deviation", "standard_deviation", "standard", "plus_tolerance", "minus_tolerance",
                  "measurement", "reference"):
            if a in kw:
                some = True
                kw[a] = self.unit(lb, L((self.nest(tail) if tail else self.num()) for _ in range(n)))
        if "sample_count" in kw:
            kw["sample_count"] = N(self.r.randint(0, 100))
        self.dims(lb, kw, tail, .4 if some else .2)

    def _fix_zone(self, lb, kw):
        d = self._val(kw, "domain")
        dom = None if d is None else (d.get("s") or spec.ENUMS["ZoneDomain"][d["e"][1]])
        for a in ("maximum", "minimum"):
            if a in kw:
                kw[a] = self.unit(lb, self.dtv() if dom == "TIME" else F(self.r.uniform(0, 1e4)))
        if dom is None and "maximum" in kw and "minimum" in kw and self.chance(.3):
            kw["maximum"], kw["minimum"] = self.dtv(), self.dtv()

    def _fix_axis(self, lb, kw):
        pass

    def origin(self, lb, first, ref=None):
        K, r, fb = self.K, self.r, lb.fb
        kw = {}
        explicit = self.chance(K["explicit_p"])
        if explicit and not fb.hc:
            kw["file_set_number"] = N(self.pick([1, 2, 5, 100, 127, 128, 16383, 16384, 12345]))
        if explicit:
            kw["creation_time"] = self.dtv()
        if self.chance(K["attr_p"]):
            for a, (py, label, kind) in spec.TYPES["origin"].attrs.items():
                if a in ("file_set_number", "creation_time") or not self.chance(K["attr_p"]):
                    continue
                kw[a] = self.wrap(kind, self.value(lb, kind), fb)
        ex = {}
        if ref is not None:
            ex["oref"] = ref
        elif self.chance(.4):
            ref = self.pick([1, 2, 3, 7, 127, 128, 16384, 0]) if self.chance(.7) else r.randrange(1, 1 << 20)
            if ref not in lb.orefs:
                ex["oref"] = ref
                lb.orefs.append(ref)
        if not ex:
            ref = len(lb.by.get("origin", []))          # what the library would choose
            while ref in lb.orefs:
                ref += 1
            lb.orefs.append(ref)
        return self.add(lb, "origin", kw, **ex)

    # ---------------------------------------------------------------------------------------------------- data
    def arr_spec(self, n, hc=False, index=None, width=False, small=False):
        K, r = self.K, self.r
        dts = [d for d in DTYPES if d[0] != "i"] if hc else DTYPES
        dt = self.pick(dts)
        if dt[1] != "1":
            dt = (">" if self.chance(K["be_p"]) else "<") + dt
        shape = [n]
        w = None
        if width and self.chance(K["twod_p"]):
            w = self.pick([1, 2, 3, 5, 8]) if not self.chance(.05) else self.pick([100, 130])
            if "width" in K and self.chance(.8):
                w = K["width"]
            shape.append(w)
        g = {"k": K["g"], "s": r.randrange(1 << 30)}
        if self.chance(.1):
            g["k"] = self.pick(["bits", "special", "seq", "small"])
        if small:
            g["k"] = "small"
            g["nn"] = 1
        if g["k"] == "seq":
            g["o"] = r.randrange(1, 200)
        a = {"dt": dt, "shape": shape, "g": g}
        if self.chance(K["lay_p"]):
            a["lay"] = self.pick(["F", "strided", "rev", "view", "colview", "ro", "bcast", "sub"])
            if a["lay"] == "bcast" and index:
                a["lay"] = "rev"
        if index:
            self.index_fill(a, hc)
        return a, w

    def index_fill(self, a, hc):
        """Give a one-dimensional array the values of some index."""
        r = self.r
        dt = a["dt"].lstrip("<>")
        fl = dt[0] == "f"
        k = self.pick(["lin", "lin", "lin", "dec", "const", "mono", "zig", "jit", "rand", "nan", "wide"])
        if hc:
            k = self.pick(["lin", "dec"])
        n = a["shape"][0]
        g = a["g"]
        g.clear()
        if fl:
            a0, st = self.pick([0.0, 1.0, 100.5, -3.25, 1000.0]), self.pick([1.0, 0.5, 0.1, 0.1524, 2.0, 1 / 3])
            if k == "lin":
                g.update(k="lin", a=a0.hex(), b=st.hex())
                if not hc and n > 3 and self.chance(.35):
                    # one step (or one point) that differs
                    g["at"] = [[r.randrange(1, n), (st * self.pick([.01, .02, .05, 1, -1, 5])).hex(), self.pick([1, 1 << 20])]]
            elif k == "dec":
                g.update(k="lin", a=a0.hex(), b=(-st).hex())
            elif k == "const":
                g.update(k="lin", a=a0.hex(), b=(0.0).hex())
            elif k in ("mono", "wide"):
                v, x = [], a0
                for _ in range(min(n, 50)):
                    v.append(x.hex())
                    x += self.pick([.1, 1.0, 5.0])
                g.update(k="list", v=v)
            elif k == "jit":
                e = self.pick([1e-6, 1e-3, 0.01, 0.02, 0.05, 0.3])
                g.update(k="list", v=[(a0 + st * (i + e * r.uniform(-1, 1))).hex() for i in range(min(n, 50))])
            elif k == "nan":
                v = [(a0 + st * i).hex() for i in range(min(n, 50))]
                v[r.randrange(len(v))] = "nan"
                g.update(k="list", v=v)
            else:
                g.update(k="list", v=[r.uniform(-100, 100).hex() for _ in range(min(n, 50))])
        else:
            uns, size = dt[0] == "u", int(dt[1])
            mx = min((1 << (8 * size - (0 if uns else 1))) - 1, 10000)
            lo = 0 if uns else -mx
            if k == "lin":
                g.update(k="lin", a=self.pick([0, 1, 3]), b=self.pick([1, 2] if n < 60 else [1]))
                if n > 120 and size == 1:
                    g["k"] = "list"
                    g["v"] = [i % 100 for i in range(50)]
                elif not hc and n > 3 and self.chance(.35):
                    d, i = self.pick([1, 2, 7]), r.randrange(1, n)
                    if g["a"] + n * g["b"] + d <= mx:
                        g["at"] = [[i, d, self.pick([1, 1 << 20])]]
            elif k == "dec":
                b = 2 if 2 * n + 10 < mx else 1
                g.update(k="lin", a=min(mx, n * b + 5), b=-b)
                if n + 10 > mx:
                    g.clear()
                    g.update(k="list", v=[100, 99, 98])
            elif k == "const":
                g.update(k="lin", a=self.pick([0, 5, mx]), b=0)
            elif k == "wide":
                g.update(k="list", v=[lo, mx, lo, mx - 1] if self.chance(.5) else [mx, lo])
            elif k == "mono":
                v, x = [], lo
                for _ in range(min(n, 50)):
                    v.append(min(x, mx))
                    x += self.pick([0, 1, 2, 30])
                g.update(k="list", v=v)
            else:
                g.update(k="list", v=[r.randint(lo, mx) for _ in range(min(n, 50))])

    def cast_for(self, a, hc):
        """A cast under which the chosen data have a defined value."""
        k = a["g"]["k"]
        dt = a["dt"].lstrip("<>")
        if dt[0] == "f":
            # float to int is undefined outside the range: only for small integral values
            opts = ["f4", "f8"] + (DTYPES if k == "small" and a["g"].get("nn") else [])
        else:
            opts = DTYPES if k in ("small",) else DTYPES
        if hc:
            opts = [o for o in opts if o[0] != "i"]
        c = self.pick(opts)
        if self.chance(.4):
            full = {"i1": "int8", "i2": "int16", "i4": "int32", "u1": "uint8", "u2": "uint16", "u4": "uint32",
                    "f4": "float32", "f8": "float64"}
            return "np." + full[c]
        return (c if c[1] == "1" else (">" if self.chance(self.K["be_p"]) else "<") + c)

    def frame(self, lb, rows=None):
        """Add channels and a frame over them."""
        K, r, fb = self.K, self.r, lb.fb
        n = rows if rows is not None else K["rows"] if K.get("big") else max(1, self.pick([K["rows"], K["rows"], 1, 2, r.randint(1, 1 + K["rows"])]))
        idx = self.chance(K["index_p"])
        nch = K.get("nch") or r.randint(1, K["chans"])
        chans, used = [], set()
        for i in range(nch):
            c = self.channel(lb, n, index=idx and i == 0)
            if lb.names[c] in used:
                continue
            used.add(lb.names[c])
            chans.append(c)
        if not fb.hc and self.chance(K["share_p"]):
            # a channel of another frame with as many rows may be listed again
            extra = [c for c in lb.by.get("channel", []) if c in lb.arr and lb.arr[c]["shape"][0] == n and
                     lb.names[c] not in used]
            if extra:
                chans.append(self.pick(extra))
        if len(chans) > 1 and not idx and self.chance(.3):
            r.shuffle(chans)
        kw = {"channels": L(R(c) for c in chans)}
        if idx:
            kw["index_type"] = self.enum("FrameIndexType", fb, True)
        if self.chance(K["attr_p"]):
            for a in ("description", "encrypted"):
                if self.chance(.5):
                    kw[a] = self.value(lb, spec.kind_of("frame", a))
            if self.chance(.25) and self.prop not in ("C17",):
                for a in ("spacing", "index_min", "index_max", "direction"):
                    if self.chance(.4):
                        kw[a] = self.wrap(spec.kind_of("frame", a), S(self.pick(["INCREASING", "DECREASING"]))
                                          if a == "direction" else self.num(), fb)
        fo = self.add(lb, "frame", kw)
        lb.frames.append((fo, chans, n, idx))
        lb.infr.update(chans)
        return fo

    def channel(self, lb, n, index=False, orphan=False):
        K, r, fb = self.K, self.r, lb.fb
        mode = fb.mode
        if mode == "mix":
            mode = self.pick(["inline", "dict"])
        name = self.name(fb)
        nm = name if isinstance(name, str) else name[0] * name[1]
        castp = self.chance(K["cast_p"])
        a, w = self.arr_spec(n, fb.hc, index, not index and not orphan, small=castp and self.chance(.5))
        kw = {}
        ex = {}
        for at in ("properties", "units", "minimum_value", "maximum_value", "source", "long_name"):
            kind = spec.kind_of("channel", at)
            if self.chance(K["attr_p"] * .5):
                v = self.value(lb, kind)
                if v is not None:
                    kw[at] = self.wrap(kind, v, fb) if at != "units" else v
        if self.chance(.15):
            kw["dimension"] = L([N(w or 1)])
        if self.chance(.1):
            kw["element_limit"] = L([N((w or 1) + self.pick([0, 0, 1, 5]))] + [N(x) for x in self.pick([[], [], [1], [3, 2]])])
        elif not index and self.chance(K.get("badlimit_p", 0)):
            # less than the data needs in its first dimension, whatever the others add
            kw["element_limit"] = L([N(max((w or 1) - 1, 0))] + [N(x) for x in self.pick([[], [2], [9], [4, 4]])])
        if "dimension" in kw and self.chance(.4):
            ax = self.axes(lb, [w or 1])
            if ax:
                kw["axis"] = ax
        ds = nm
        if self.chance(.25):
            ds = self.pick(["data", "arr_", "ch ", "grp/"]) + str(self.n)
            if self.chance(.5):
                # a path, of which the last part may be that of another one
                ds = self.pick(["g1/", "g2/", "/g1/", "g2/h/", "/", ""]) + self.pick(["x", "y", "DEPTH", "A"])
            ex["ds"] = S(ds)
        else:
            i = 1
            while ds in lb.ds:
                ds = f"{nm}__{i}"
                i += 1
        if ds in lb.ds or (mode != "inline" and not spec.h5_names(list(fb.ext) + [ds])) \
                or (mode != "inline" and ds in fb.ext) or ds in fb.stale:
            ds = f"u{self.n}"
            ex["ds"] = S(ds)
            i = 0
            while ds in lb.ds or ds in fb.ext:
                i += 1
                ds = f"u{self.n}.{i}"
                ex["ds"] = S(ds)
        lb.ds.append(ds)
        if castp:
            ex["cast"] = self.cast_for(a, fb.hc)
        if mode == "inline":
            ex["data"] = dict(a)
        else:
            fb.ext[ds] = dict(a)
        o = self.add(lb, "channel", kw, name=name, **ex)
        lb.dim[o], lb.dsof[o], lb.arr[o] = w, ds, a
        lb.cast[o] = ex.get("cast")
        return o

    def nofmt(self, lb):
        K, r, fb = self.K, self.r, lb.fb
        pool = lb.by.get("no_format", [])
        if not pool or len(pool) < K["nfobjs"] and self.chance(.4):
            self.obj(lb, "no_format")
            pool = lb.by["no_format"]
        cap = max(12, fb.ml - 8)
        o = self.pick(pool)
        if lb.nf and self.chance(K["nfdup"]):
            # a payload that was given before, for this or another object
            op = dict(self.pick(lb.nf), o=o, id=self.nid("p"))
            lb.nf.append(op)
            fb.ops.append(op)
            return
        head = 3 + len(lb.names[o])
        k = r.randrange(6)
        if k == 0:
            n = self.pick([0, 1, 2, 3, 5, 8, 9, 10, 11, 12, 13])
        elif k == 1:
            n = max(0, self.pick([1, 2, 3]) * cap + r.randint(-26, 26) - head)
        elif k == 2:
            n = max(0, cap - head + r.randint(-14, 14))
        else:
            n = r.randint(0, 60)
        if n > 60000:
            n = 100
        if "nfbig" in K and self.chance(.5):
            n = K["nfbig"]
        if self.chance(.3):
            d = S([self.pick("abc\x01 "), n]) if self.chance(.5) else S("".join(self.pick(self.pick(["abcXYZ 012\n", ["a", "\r\n", "\n", "\r", "\t"], "\x00\x01\x7f a"])) for _ in range(min(n, 300))))
        elif self.chance(.15):
            d = {"y": [self.pick(["01", "00", "ff", "0c"]), n]}
        else:
            d = {"seed": r.randrange(1 << 30), "n": n}
            if self.chance(.2):
                d["ba"] = 1
        op = {"op": "nf", "id": self.nid("p"), "lf": lb.id, "o": o, "data": d}
        lb.nf.append(op)
        fb.ops.append(op)

    def crowd(self, lb):
        """As many objects of one type and name as copy numbers can tell apart, or nearly."""
        t = self.pick(["zone", "comment", "long_name", "axis", "no_format", "parameter"])
        n = self.pick([100, 127, 128, 129, 200, 254, 255, 256])
        if self.prop in ("C12", "C20") and self.chance(.3):
            n = self.pick([257, 258, 300])
        nm = self.pick(NAMES)
        for _ in range(n):
            self.add(lb, t, {}, name=nm)
            if lb.fb.ops[-1].get("exp") == "any":
                return
        self.obj(lb, "group")
        if t == "no_format":
            self.nofmt(lb)
            self.nofmt(lb)

    # ----------------------------------------------------------------------------------------- a logical file
    ORDER = ["long_name", "axis", "zone", "equipment", "comment", "message", "well_reference_point", "no_format",
             "calibration_coefficient", "calibration_measurement", "parameter", "computation", "calibration", "tool",
             "process", "splice", "path", "group"]

    def lf(self, fb, idx):
        K, r = self.K, self.r
        lb = LB(self.nid("l"), fb, idx)
        fh = self.name(fb) if not self.chance(.3) else "HEADER"
        fhs = fh if isinstance(fh, str) else fh[0] * fh[1]
        if len(fhs) > 65:
            fh = fhs[:65]
        op = {"op": "lf", "id": lb.id, "f": fb.id, "fh": S(fh)}
        if self.chance(.3):
            op["seq"] = self.pick([1, 2, 9, 10, 99999, 9999999999])
        if self.chance(.2):
            op["ident"] = self.pick("1A-_9") if fb.hc else self.pick("1A-_9b ~")
        if self.chance(.1):
            op["item"] = 1
        fb.ops.append(op)
        fb.lfs.append(lb)
        late = K["late_origin"] and not fb.hc
        start = len(fb.ops)
        plan = None
        if not late:
            self.origin(lb, True)
        elif self.chance(.5):
            # objects refer to the origins that will come
            plan = r.sample([0, 1, 2, 5, 127, 128, 16384], 2)
            lb.orefs += plan
            lb.orefp = .4
        body0 = len(fb.ops)
        kinds = list(self.ORDER)
        nd = r.randint(0, K["dense"]) if K["dense"] else 0
        todo = ["frame"] * (K.get("nframes") or max(1, r.randint(1, K["frames"]))) + [self.pick(kinds) for _ in range(nd)] + \
            ["nf"] * (r.randint(0, K["nf"]) if K["nf"] else 0)
        if K["origin2"] and self.chance(.6):
            todo.append("origin2")
        if self.chance(.1):
            todo.append("orphan")
        if self.chance(CROWD.get(self.prop, 0)):
            todo.append("crowd")
        r.shuffle(todo)
        for t in todo:
            if t == "frame":
                self.frame(lb)
                if self.chance(K["dsname_p"]):
                    self.dataset(lb, self.pick(lb.by["channel"]))
            elif t == "nf":
                self.nofmt(lb)
            elif t == "crowd":
                self.crowd(lb)
            elif t == "origin2":
                if not late:
                    self.origin(lb, False)
            elif t == "orphan":
                if not fb.hc:
                    self.channel(lb, self.K["rows"], orphan=True)
            else:
                self.obj(lb, t)
            if self.chance(K["reject_p"]):
                self.reject(lb)
            if self.chance(K["read_p"]):
                self.read(lb)
            if self.chance(K["later_p"] * .5):
                self.later(lb)
            if self.chance(K["breach_p"]):
                self.breach(lb)
            if self.chance(K["invalid_p"]):
                self.invalid(lb)
        if late:
            # origin-dependent operations cannot come before the origin; objects are back-filled
            for i, ref in enumerate(plan or [None]):
                self.origin(lb, not i, ref)
        return lb

    # ------------------------------------------------------------------------------------- changes after creation
    def dataset(self, lb, c):
        """Another dataset for a channel that exists: its data under another name, or those of another channel."""
        r, fb = self.r, lb.fb
        old = lb.dsof.get(c)
        if c not in lb.arr or lb.ds.count(old) != 1:
            return False
        a = lb.arr[c]
        if old not in fb.ext and fb.mode == "inline" or old in fb.ext and self.chance(.5):
            if old in fb.ext and not lb.cast.get(c) and not any(f[3] and c == f[1][0] for f in lb.frames):
                # make the data of another channel like those of this one, so that the two can change places
                for x in lb.arr:
                    if x != c and lb.dsof[x] in fb.ext and lb.arr[x]["shape"] == a["shape"] and not lb.cast.get(x) \
                            and not any(f[3] and x == f[1][0] for f in lb.frames) and "share" not in a:
                        fb.ext[lb.dsof[x]] = lb.arr[x] = dict(a, g=dict(a["g"], s=r.randrange(1 << 20)))
                        break
            twins = [x for x in lb.arr if x != c and lb.arr[x]["dt"] == a["dt"] and lb.arr[x]["shape"] == a["shape"]
                     and (lb.dsof[x] in fb.ext) == (old in fb.ext) and not lb.cast.get(x) and lb.ds.count(lb.dsof[x]) == 1]
            if lb.cast.get(c) or not twins:
                return False
            x = self.pick(twins)
            fb.ops.append({"op": "dsname", "o": c, "v": S(lb.dsof[x])})
            fb.ops.append({"op": "dsname", "o": x, "v": S(old)})
            lb.dsof[c], lb.dsof[x] = lb.dsof[x], old
            lb.arr[c], lb.arr[x] = lb.arr[x], a
            return True
        new = self.pick(["m", "moved ", "g3/m", "M_"]) + str(self.n)
        keep = old in fb.ext and self.chance(.5)
        names = [n for n in fb.ext if n != old or keep] + [new]
        if new in lb.ds or new in fb.ext or new in fb.stale or not spec.h5_names(names):
            return False
        b = dict(a)
        if old in fb.ext:
            if keep:
                # what the channel had before stays there, with other contents
                if a["dt"].lstrip("<>=|") in ("f4", "f8"):
                    fb.ext[old] = {"dt": a["dt"], "shape": list(a["shape"]), "g": {"k": "small", "nn": 1, "s": r.randrange(1 << 20)}}
            else:
                fb.ext.pop(old)
        fb.ext[new] = b
        fb.stale.add(old)
        lb.ds[lb.ds.index(old)] = new
        lb.dsof[c] = new
        fb.ops.append({"op": "dsname", "o": c, "v": S(new)})
        return True

    def later(self, lb):
        """Assign, reassign or rename something that exists already."""
        K, r, fb = self.K, self.r, lb.fb
        pool = [(o, t) for t, xs in lb.by.items() for o in xs]
        if not pool:
            return
        if lb.nf and self.chance(.12):
            # other contents, or the contents of another record, for a record that exists
            i = r.randrange(len(lb.nf))
            old = lb.nf[i]
            op = {"op": "nfset", "id": old["id"], "lf": lb.id, "data": self.pick(lb.nf)["data"]}
            if self.chance(.5):
                op["data"] = {"seed": r.randrange(1 << 30), "n": r.randint(0, 40)}
            if self.chance(.4):
                op["o"] = self.pick(lb.by["no_format"])
            lb.nf[i] = dict(old, data=op["data"], o=op.get("o", old["o"]))
            fb.ops.append(op)
            return
        o, t = self.pick(pool)
        if lb.by.get("channel") and self.chance(K["dsname_p"]):
            self.dataset(lb, self.pick(lb.by["channel"]))
            return
        if t != "origin" and lb.orefs and self.chance(K["reref_p"]):
            fb.ops.append({"op": "oref", "o": o, "v": self.pick(lb.orefs)})
            return
        if self.chance(K["rename_p"]):
            nm = self.name(fb)
            fb.ops.append({"op": "rename", "o": o, "v": S(nm)})
            if not isinstance(nm, str):
                nm = nm[0] * nm[1]
            lb.names[o] = nm
            if t == "channel":
                # keep names unique within a frame
                for fo, chans, n, idx in lb.frames:
                    if o in chans and sum(lb.names[c] == nm for c in chans) > 1:
                        fb.ops.pop()
                        return
            return
        attrs = [(a, k) for a, (py, lab, k) in spec.TYPES[t].attrs.items() if k not in ("DIM",) and a != "axis"]
        if t in LATER:
            attrs = [(a, k) for a, k in attrs if a in LATER[t]]
        if t in LATER or t == "axis":
            # attributes whose values have to agree with one another: other values of the same shape
            add = next((x for x in fb.ops if x["op"] == "add" and x["id"] == o), {"kw": {}})
            vs = [(a, v) for a, v in add["kw"].items() if a in AGREE and t != "frame" and set(v) != {"u", "route"}]
            if vs and self.chance(.5):
                a, v = self.pick(vs)
                v = self.again(v) if t != "zone" or "f" in (v.get("A") or v) else self.dtv()
                if self.chance(.4):
                    fb.ops.append({"op": "seta", "o": o, "kw": {a: self.unit(lb, v)}})
                else:
                    fb.ops.append({"op": "setv", "o": o, "a": a, "v": v})
                if self.chance(.3):
                    u = self.enum("Unit", fb, True)
                    fb.ops.append({"op": "setu", "o": o, "a": a, "v": u["s"] if "s" in u else u})
                return
        if t == "axis":
            attrs = [(a, k) for a, k in attrs if a != "coordinates"]       # their number may be the dimension of others
        if t == "frame":
            if self.prop == "C17":
                attrs = attrs[:1]
        if t == "origin":
            attrs = [(a, k) for a, k in attrs if a not in ("file_set_number",)]
        if not attrs:
            return
        if self.chance(.3):
            # several attributes in one call
            kw = {}
            for a, k in r.sample(attrs, min(len(attrs), r.randint(1, 3))):
                v = S("INCREASING") if t == "frame" and a == "direction" else self.value(lb, k)
                if v is not None and not (isinstance(v, dict) and v.get("l") == []):
                    kw[a] = self.wrap(k, v, fb)
            if kw:
                fb.ops.append({"op": "seta", "o": o, "kw": kw})
            return
        a, k = self.pick(attrs)
        if t == "frame" and a == "direction":
            v = S("INCREASING")
        else:
            v = self.value(lb, k)
        if v is None or (isinstance(v, dict) and v.get("l") == []):
            return
        if k.split(":")[0] in spec.UNITS_OK and self.chance(.15):
            u = self.enum("Unit", fb, True)     # the units first
            fb.ops.append({"op": "setu", "o": o, "a": a, "v": u["s"] if "s" in u else u})
        fb.ops.append({"op": "setv", "o": o, "a": a, "v": v})
        if self.chance(.15):
            fb.ops[-1]["mut"] = 1
        if k.split(":")[0] in spec.UNITS_OK and self.chance(.4):
            u = self.enum("Unit", fb, True)
            fb.ops.append({"op": "setu", "o": o, "a": a, "v": u["s"] if "s" in u else u})
        elif k.split(":")[0] in spec.UNITS_OK and self.chance(.2):
            fb.ops.append({"op": "setu", "o": o, "a": a, "v": None})

    def read(self, lb):
        k = self.pick(["lf", "obj", "file"])
        op = {"op": "read", "what": k}
        if k == "lf":
            op["lf"] = lb.id
        elif k == "file":
            op["f"] = lb.fb.id
        else:
            pool = [o for xs in lb.by.values() for o in xs]
            if not pool:
                return
            op["o"] = self.pick(pool)
        lb.fb.ops.append(op)

    # ----------------------------------------------------------------------------------------- rejected calls
    def reject(self, lb):
        """A call that the library must or may refuse; nothing later depends on it."""
        K, r, fb = self.K, self.r, lb.fb
        X = lambda k: {"x": k}
        opts = []

        def add(t, kw, **ex):
            nm = self.name(fb)
            if self.chance(.5) and lb.by.get(t):
                nm = lb.names[self.pick(lb.by[t])] or nm
            op = {"op": "add", "id": self.nid("x"), "lf": lb.id, "t": t, "name": S(nm), "kw": kw, "exp": "rej"}
            sn = self.setname(lb, t)
            if self.chance(.3):
                sn = f"R{self.n}" if lb.idx == 0 else f"LF{lb.idx}-R{self.n}"
            if sn is not None:
                op["set"] = S(sn)
            op.update(ex)
            opts.append(op)

        t = self.pick(self.ORDER + ["channel"] * 4 + ["frame", "origin"])
        ty = spec.TYPES[t]
        for a, (py, lab, kind) in ty.attrs.items():
            k = kind.split(":")[0]
            if t == "frame" and a == "channels":
                add(t, {a: L([X("obj")])})
                add(t, {a: L([R(self.pick(lb.by["origin"]))])} if lb.by.get("origin") else {a: L([X("dict")])})
                continue
            pre = {}
            if t == "frame" and lb.by.get("channel"):
                pre = {"channels": L([R(self.pick(lb.by["channel"]))])}
            elif t == "frame":
                continue
            if k in ("F", "FL", "FM", "W", "W16", "D", "DF", "T", "TL", "RT", "R", "RL", "DIM", "ST", "B"):
                add(t, {**pre, a: X("obj")})
            if k in ("E", "P"):
                add(t, {**pre, a: S("NOT-A-MEMBER")})
            if k in ("R", "RL") and lb.by.get("origin"):
                add(t, {**pre, a: R(lb.by["origin"][0]) if k == "R" else L([R(lb.by["origin"][0])])})
            if k in ("FL",):
                add(t, {**pre, a: L([N(1), S("text")])})
            if k in spec.UNITS_OK:
                add(t, {**pre, a: {"A": X("obj"), "u": "m", "route": "setup"}})
        if t == "channel":
            ds = lb.ds[-1] if lb.ds else "d"
            add(t, {}, cast="<i8")
            add(t, {}, cast={"x": "obj"})
            if lb.ds:
                add(t, {}, ds=S(ds), data={"dt": "<f8", "shape": [K["rows"]], "g": {"k": "seq", "s": 1}})
            add(t, {}, data={"x": "bytes"})
            add(t, {"units": X("obj")}, data={"dt": "<f4", "shape": [K["rows"]], "g": {"k": "seq", "s": 1}}, ds=S(f"rj{self.n}"))
            add(t, {"dimension": L([F(1.5)])})
        if t == "frame":
            add(t, {"channels": X("obj")})
        if t == "origin":
            add(t, {"creation_time": S("not a time")}, oref=self.pick([77, 78]))
        add(t, {"channels": L([R(lb.by["channel"][0])])} if t == "frame" and lb.by.get("channel") else
            {"channels": L([])} if t == "frame" else {}, name=X("obj"))
        if not opts:
            return
        op = self.pick(opts)
        if t == "channel" and "data" not in op and self.chance(.5):
            op["data"] = {"dt": "<f8", "shape": [self.pick([K["rows"], 1, 2])], "g": {"k": "seq", "s": r.randrange(1000)}}
        if self.chance(.05):
            op = {"op": "nf", "lf": lb.id, "data": S("x"), "exp": "rej"}
        fb.ops.append(op)

    # ---------------------------------------------------------------------- configurations that may or must fail
    def invalid(self, lb):
        """Put something into the specification that cannot (or may not) be represented.  The model decides."""
        K, r, fb = self.K, self.r, lb.fb
        kinds = ["long_name_len", "nonascii_name", "nonascii_text", "long_units", "w16", "w", "badref", "empty_list",
                 "rows", "ndim", "dtype", "long_set", "none_in_list", "year", "nonascii_nf", "foreign", "dim", "limit",
                 "label", "nonascii_units", "neg", "mixed", "header", "bigint", "oref_dangling", "same_twice", "none_attr"]
        k = self.pick(K["kinds"] or kinds)
        A = lambda t, kw, **ex: (self.add(lb, t, kw, **ex), fb.ops[-1].__setitem__("exp", "any"))
        if k == "long_name_len":
            A("zone", {}, name=["n", self.pick([256, 257, 300, 16384])])
        elif k == "nonascii_name":
            A("zone", {}, name=self.pick(["é", "na\u0141me", "\u2603"]))
        elif k == "nonascii_text":
            A("comment", {"text": L([S("ok"), S(self.pick(["\xe9", "\u0394", "a\xa0b"]))])})
        elif k == "long_units":
            A("axis", {"spacing": {"A": F(1.0), "u": "u" * self.pick([256, 300]), "route": "dict"}})
        elif k == "nonascii_units":
            A("axis", {"spacing": {"A": F(1.0), "u": "\u00b5m", "route": "setup"}})
        elif k == "w16":
            A("origin", {"run_number": N(self.pick([65536, 70000, -1, 1 << 31]))})
        elif k == "w":
            A("origin", {self.pick(["file_number", "name_space_version"]): N(self.pick([1 << 30, (1 << 30) + 5, 1 << 32, -1]))})
        elif k == "neg":
            A("calibration_measurement", {"sample_count": N(self.pick([-1, 1 << 31, -(1 << 31) - 1]))})
        elif k == "bigint":
            A("parameter", {"values": L([N(self.pick([1 << 31, -(1 << 31) - 1, 1 << 63, (1 << 53) + 1]))])})
        elif k == "badref":
            A("zone", {}, oref=self.pick([-1, 1 << 30, 1 << 33]))
        elif k == "oref_dangling":
            A("zone", {}, oref=self.pick([99, 54321]))
        elif k == "empty_list":
            t, a = self.pick([("comment", "text"), ("axis", "coordinates"), ("parameter", "values"), ("process", "comments"),
                              ("calibration_coefficient", "coefficients"), ("group", "object_list"), ("tool", "parts"),
                              ("long_name", "conditions"), ("channel", "minimum_value"), ("origin", "programs")])
            A(t, {a: L([])})
        elif k == "none_in_list":
            A("comment", {"text": L([S("a"), {"n": 1}])})
        elif k == "none_attr":
            A("comment", {"text": {"n": 1}})
        elif k == "year":
            A("zone", {"maximum": {"d": [self.pick([1850, 1899, 1900, 2155, 2156, 2200, 3000]), 1, 2, 3, 4, 5]}})
        elif k == "nonascii_nf":
            if lb.by.get("no_format"):
                fb.ops.append({"op": "nf", "lf": lb.id, "o": lb.by["no_format"][0], "data": S("\xe9"), "exp": "any"})
        elif k == "foreign":
            mine = {o for xs in lb.by.values() for o in xs}
            other = [(o, t) for o, t, q in self.all_oids if q is not lb]
            if not other:
                return
            o, t = self.pick(other)
            m = {"zone": ("parameter", {"zones": L([R(o)]), "values": L([F(1.0)])}),
                 "channel": ("splice", {"input_channels": L([R(o)])}), "equipment": ("tool", {"parts": L([R(o)])}),
                 "frame": ("path", {"frame_type": R(o)}), "parameter": ("tool", {"parameters": L([R(o)])})}
            tt, kw = m.get(t, ("group", {"object_list": L([R(o)])}))
            if t == "channel" and self.chance(.4):
                tt, kw = "frame", {"channels": L([R(o)])}
            if t == "no_format" and self.chance(.6):
                fb.ops.append({"op": "nf", "lf": lb.id, "o": o, "data": S("foreign"), "exp": "any"})
                return
            A(tt, kw)
        elif k == "rows":
            a, b = self.channel(lb, 3), self.channel(lb, self.pick([2, 4, 5]))
            self.cf(lb, [a, b])
        elif k == "ndim":
            c = self.channel(lb, 2)
            self.respec(lb, c, {"dt": "<f4", "shape": self.pick([[2, 2, 2], [2, 1, 1], []]), "g": {"k": "seq", "s": 1}})
            self.cf(lb, [c])
        elif k == "dtype":
            c = self.channel(lb, 2)
            self.respec(lb, c, {"dt": self.pick(BAD_DTYPES), "shape": [2], "g": {"k": "zero", "s": 1}})
            self.cf(lb, [c])
        elif k == "dim":
            c = self.channel(lb, 2)
            fb.ops[-1]["kw"]["dimension"] = L([N(self.pick([0, 2, 7, 1 << 30]))])
            self.cf(lb, [c])
        elif k == "limit":
            c = self.channel(lb, 2)
            fb.ops[-1]["kw"]["element_limit"] = L([N(x) for x in self.pick([[0], [1], [7], [1, 2], [0, 9], [1, 8, 2]])])
            self.cf(lb, [c])
        elif k == "long_set":
            A("zone", {}, set=S(["s", self.pick([255, 256, 300])] if lb.idx == 0 else "LF%d-\xe9" % lb.idx))
        elif k == "label":
            A("axis", {"axis_id": S(["i", self.pick([256, 300])])})
        elif k == "mixed":
            A("axis", {"coordinates": L([F(1.0), S("text")])})
        elif k == "same_twice":
            c = self.channel(lb, 2)
            self.cf(lb, [c, c])
        elif k == "header":
            self.fb_header(lb, bad=True)
        # nothing later may rely on these objects
        lb.frames = [x for x in lb.frames]

    def fb_header(self, lb, bad=False):
        op = {"op": "header", "lf": lb.id, "fh": S(self.pick(["NEW-HEADER", "H2", "X" * 65]))}
        if bad:
            op["fh"] = S(self.pick([["H", 66], "\xe9", ["H", 100]]))
            op["exp"] = "any"
        else:
            if self.chance(.4):
                op["seq"] = self.pick([1, 3, 42])
            if self.chance(.8):
                op["fid"] = 1                            # the defining origin's copy of the header ID follows
        lb.fb.ops.append(op)

    def cf(self, lb, chans):
        self.add(lb, "frame", {"channels": L(R(c) for c in chans)})
        lb.fb.ops[-1]["exp"] = "any"

    def respec(self, lb, c, a):
        op = lb.fb.ops[-1]
        op["exp"] = "any"
        op.pop("cast", None)
        if "data" in op:
            op["data"] = a
        else:
            lb.fb.ext[lb.dsof[c]] = a

    # ------------------------------------------------------------------------------------ compatibility breaches
    def breach(self, lb):
        K, r, fb = self.K, self.r, lb.fb
        kinds = ["name", "units", "enum", "signed", "twoframes", "noframe", "spacing", "fsn"]
        if K["pair"]:
            if self.breaches is None:
                self.breaches = r.sample(["name", "units", "enum", "enum", "fsn", "signed"], 2)
            kinds = self.breaches
        k = self.pick(kinds)
        if k == "name":
            if not K["pair"] and self.chance(.3):
                # another name for an object that exists
                pool = [o for t, xs in lb.by.items() if t not in ("channel", "origin") for o in xs]
                if pool:
                    o, nm = self.pick(pool), self.badname(fb)
                    fb.ops.append({"op": "rename", "o": o, "v": S(nm), "hcb": "name"})
                    if not fb.hc:
                        lb.names[o] = nm
                    return
            if K["pair"]:
                self.add(lb, "zone", {}, name=self.pick(LOW[:2]), hcb="name")
            else:
                self.add(lb, self.pick(["zone", "zone", "comment", "group", "axis", "message", "equipment", "tool", "process"]), {},
                         name=self.badname(fb), hcb="name")
        elif k == "units":
            self.add(lb, "axis", {"spacing": {"A": F(1.0), "u": "furlong", "route": self.pick(["setup", "dict"])}}, hcb="units")
        elif k == "enum" and not K["pair"] and self.chance(.4):
            # another value for an object that exists
            pool = [(o, a, v) for o in lb.by.get("equipment", []) for a, v in (("eq_type", "Gizmo"), ("location", "Moon"))]
            pool += [(o, "units", self.pick(["parsec", "M", "m "])) for o in lb.by.get("channel", [])]
            pool += [(x[0], "index_type", self.pick(["DEPTH", "borehole-depth", "BOREHOLE-DEPTH "])) for x in lb.frames if x[3]]
            if not pool:
                return
            o, a, v = self.pick(pool)
            if self.chance(.5):
                fb.ops.append({"op": "setv", "o": o, "a": a, "v": S(v), "hcb": "enum"})
            else:
                fb.ops.append({"op": "seta", "o": o, "kw": {a: S(v)}, "hcb": "enum"})
        elif k == "enum":
            t, kw = self.pick([("equipment", {"eq_type": S("Gizmo")}), ("equipment", {"location": S("Moon")}),
                               ("channel", {"units": S("parsec")})])
            if t == "channel":
                c = self.channel(lb, 2)
                fb.ops[-1]["kw"].update(kw)
                fb.ops[-1]["hcb"] = "enum"
                self.cf(lb, [c])
                fb.ops[-1].pop("exp")
            else:
                self.add(lb, t, kw, hcb="enum")
        elif k == "signed":
            c = self.channel(lb, 2)
            op = fb.ops[-1]
            op.pop("cast", None)
            a = {"dt": self.pick(["|i1", "<i2", ">i4"]), "shape": [2], "g": {"k": "seq", "s": 1}}
            if self.chance(.4):
                op["cast"] = self.pick(["<i2", "np.int32", "np.int8"])
                a = {"dt": "<f4", "shape": [2], "g": {"k": "small", "nn": 1, "s": 2}}
            if "data" in op:
                op["data"] = a
            else:
                fb.ext[lb.dsof[c]] = a
            lb.arr[c] = a
            self.add(lb, "frame", {"channels": L([R(c)])})
        elif k == "twoframes":
            c = self.channel(lb, 2)
            self.add(lb, "frame", {"channels": L([R(c)])})
            self.add(lb, "frame", {"channels": L([R(c)])})
        elif k == "noframe":
            self.channel(lb, 2)
        elif k == "spacing":
            c = self.channel(lb, 4, index=True)
            op = fb.ops[-1]
            op.pop("cast", None)
            a = {"dt": "<f8", "shape": [4], "g": {"k": "list", "v": [x.hex() for x in (1.0, 2.0, 4.0, 9.0)]}}
            if "data" in op:
                op["data"] = a
            else:
                fb.ext[lb.dsof[c]] = a
            lb.arr[c] = a
            self.add(lb, "frame", {"channels": L([R(c)]), "index_type": S("BOREHOLE-DEPTH")})
        elif k == "fsn":
            fb.ops.append({"op": "lf", "id": self.nid("l"), "f": fb.id, "fh": S(self.pick(["bad header", self.badname(fb, True)])), "hcb": "name"})
            lb2 = LB(fb.ops[-1]["id"], fb, len(fb.lfs))
            fb.lfs.append(lb2)
            self.origin(lb2, True)
            self.frame(lb2)

    def badname(self, fb, padded=False):
        """A name outside the rule of the high-compatibility mode; 'padded' - for a field where blanks at the end are lost."""
        if fb.hc and self.chance(.2):
            return self.pick(NEAR8)
        s = self.pick(LOW) if self.chance(.3) else self.pick(NEAR[:5] if self.chance(.3) else NEAR)
        return "a" if padded and s.endswith(" ") else s

    # ----------------------------------------------------------------------------------------------------- writes
    def faults(self, fb, wop):
        K, r = self.K, self.r
        src = (wop.get("src") or {}).get("k")
        sites = [s for s in K["sites"] if src == "h5" or not s.startswith("h5")] or ["write"]
        out = []
        for _ in range(1 if self.chance(.8) else 2):
            s = self.pick(sites)
            f = {"site": s, "n": self.pick([1, 1, 1, 2, 2, 3, 4, 6, 10])}
            if s == "open":
                f["kind"] = self.pick(["ENOSPC", "EACCES", "EMFILE", "EROFS", "KBI"])
            elif s == "write":
                f["kind"] = self.pick(["ENOSPC", "EIO", "EDQUOT", "KBI", "ENOSPC"])
                if self.chance(.6):
                    f["partial"], f["frac"] = 1, self.pick([.01, .3, .5, .9])
                if f["kind"] in ("ENOSPC", "EDQUOT") and self.chance(.5):
                    f["sticky"] = 1
            elif s == "close":
                f["kind"] = self.pick(["EIO", "ENOSPC", "EDQUOT", "ESTALE"])
            elif s == "flushed":
                f["kind"] = "KBI"
            elif s == "h5open":
                f["kind"] = self.pick(["H5", "EMFILE", "EACCES"])
            elif s == "h5read":
                f["kind"], f["n"] = self.pick(["H5", "EIO", "KBI"]), self.pick([1, 2, 3, 5, 8, 12])
            elif s == "alloc":
                f["kind"] = "MEM"
            else:
                f["kind"] = self.pick(["KBI", "MEM"])
                f["n"] = int(10 ** r.uniform(0, 4))
            out.append(f)
        return out

    def survivable(self):
        f = {"site": "write", "n": self.pick([1, 2, 3, 5]), "kind": self.pick(["SHORT", "SHORT", "EINTR", "STALL"]),
             "frac": self.pick([.01, .1, .5, .9, .99])}
        return [f]

    def src_for(self, fb):
        """Where the external data of a file come from in one write."""
        K, r = self.K, self.r
        inline = any(o["op"] == "add" and o.get("data") and o.get("exp") != "rej" for o in fb.ops)
        d = {n: dict(a) for n, a in fb.ext.items()}
        if not d:
            return None
        order = sorted(d)
        r.shuffle(order)
        kinds = ["dict"]
        rows = {tuple(a["shape"][:1]) for a in d.values()}
        plain = all(a["shape"] for a in d.values())
        if fb.mode in ("any",) and not inline:
            kinds.append("h5")
            if len(rows) == 1 and plain:
                kinds.append("struct")
        k = self.pick(kinds)
        if k != "h5" and k != "struct":
            pass
        src = {"k": k, "d": d, "order": order}
        if k == "h5":
            if not spec.h5_names(d):
                src["k"] = "dict"
            for a in d.values():
                if a["dt"].lstrip("<>|")[0] in "SO":
                    src["k"] = "dict"
            src["ext"], src["chunked"], src["pathlib"] = r.randrange(2), r.randrange(2), r.randrange(2)
        if k == "struct":
            src["align"] = r.randrange(2)
            src["slay"] = self.pick([None, None, "strided", "rev", "ro", "fields", "rec"])
            if any(n == "" for n in d) or len({n for n in d}) != len(d):
                src["k"] = "dict"
        if src["k"] == "dict" and self.chance(.15):
            src["dk"] = self.pick(["ordered", "default"])
        if self.chance(K["at_p"]):
            # the same path, dictionary or array again, with what it holds by now
            src["at"] = self.pick(["u", "u", "v"])
        deep = [n for n in sorted(d) if "/" in n]
        if deep and self.chance(.4):
            # another dataset that is called the same in another group
            n = self.pick(deep)
            m = self.pick(["", "g3/", "/g4/", "g1/"]) + n.split("/")[-1]
            if m not in d and spec.h5_names(list(d) + [m]):
                a = dict(d[n])
                a["g"] = {"k": "seq", "s": 77}
                src["d"][m] = a
                src["order"].insert(r.randrange(len(src["order"]) + 1), m)
        if self.chance(.2):
            src["d"]["unused_ds"] = {"dt": "<f4", "shape": [next(iter(rows))[0] if rows and plain and k == "struct" else self.pick([1, 5])],
                                     "g": {"k": "seq", "s": 1}}
            src["order"].insert(r.randrange(len(src["order"]) + 1), "unused_ds")
        return src

    def rows_of(self, fb):
        return [n for lb in fb.lfs for _, _, n, _ in lb.frames] or [1]

    def redata(self, fb):
        """New values, and perhaps new row counts, widths or dtypes, for the external data of a file."""
        r = self.r
        byframe = []
        seen = set()
        for lb in fb.lfs:
            newn = {}
            for i, (fo, chans, n, idx) in enumerate(lb.frames):
                # channels shared between frames must keep equal counts
                n2 = n
                if self.chance(.6) and not any(c in seen for c in chans):
                    n2 = max(1, self.pick([n, n + 1, n - 1, 1, 2 * n]))
                    if any(c in ch2 for c in chans for j, (_, ch2, _, _) in enumerate(lb.frames) if j != i):
                        n2 = n
                for j, c in enumerate(chans):
                    if c in seen:
                        continue
                    seen.add(c)
                    ds = lb.dsof.get(c)
                    if ds not in fb.ext:
                        n2c = n
                        if n2 != n:
                            n2 = n
                        continue
                    newn[c] = (ds, idx and j == 0)
                if any(lb.dsof.get(c) not in fb.ext for c in chans):
                    n2 = n
                for c in chans:
                    if c in newn:
                        ds, ix = newn[c]
                        a, w = self.arr_spec(n2, fb.hc, ix, not ix, small=bool(lb.cast.get(c)))
                        old = lb.arr[c]
                        if not self.chance(.3) or lb.cast.get(c) or ix:
                            # same shape per row, other values
                            a["shape"] = [n2] + old["shape"][1:]
                            if ix and len(a["shape"]) > 1:
                                a["shape"] = [n2]
                        if self.chance(.6):
                            a["dt"] = old["dt"]
                            if ix:
                                self.index_fill(a, fb.hc)
                        if lb.cast.get(c) and a["g"]["k"] not in ("small",) and a["dt"].lstrip("<>")[0] == "f":
                            a["g"] = {"k": "small", "nn": 1, "s": r.randrange(1 << 20)}
                        lb.arr[c] = a
                        fb.ext[ds] = dict(a)
                        # a user-set dimension would have to follow
                if n2 != n:
                    lb.frames[i] = (fo, chans, n2, idx)

    def write(self, fb, faults=None, **over):
        K, r = self.K, self.r
        self.wn += 1
        ml = fb.ml
        w = {"op": "write", "id": f"w{self.wn}", "f": fb.id,
             "ocs": self.pick([ml, ml + 1, ml + 3, 2 * ml, 3 * ml + 7, 1 << 14, 1 << 16])}
        if w["ocs"] < ml:
            w["ocs"] = ml
        if self.chance(.12):
            w["ocs"] = self.pick([None, "def", float(w["ocs"])])    # the default buffer of 4 GiB, asked for or not
        if self.chance(K["ics_p"]):
            w["ics"] = self.pick([1, 2, 3, 5, max(1, K["rows"] - 1), K["rows"], K["rows"] + 1, 1000])
        src = self.src_for(fb)
        if src:
            w["src"] = src
        if self.chance(K["win_p"]):
            m = min(self.rows_of(fb))
            if m >= 2:
                a = r.randint(0, m - 1)
                b = r.randint(a + 1, m)
                if self.chance(.8):
                    w["from"] = a
                if self.chance(.8):
                    w["to"] = b
        if self.chance(K["prior_p"]):
            w["prior"] = self.pick(["short", "long"])
        if self.chance(.15) and fb.id in getattr(self, "targets", {}):
            w["name"] = self.targets[fb.id]
        elif self.chance(.2):
            w["name"] = self.pick(["same", "out"])
        if self.chance(.2):
            w["pathlib"] = 1
        if self.chance(.15):
            w["tick"] = self.pick([.02, .06, .3, 5.])       # a slow machine or disk
        if faults:
            w["faults"] = self.faults(fb, w)
        elif self.chance(K["surv_p"]):
            w["faults"] = self.survivable()
        w.update(over)
        return w

    def change(self, fb):
        """A change to the specification between two writes."""
        K, r = self.K, self.r
        lb = self.pick(fb.lfs)
        if self.chance(K["sul_p"]):
            self.label(fb)
        k = r.randrange(6)
        if k == 0 and not fb.hc:
            self.obj(lb, self.pick(["zone", "comment", "equipment", "axis"]))
        elif k == 1 and self.chance(K["recast_p"] * 3):
            cs = [c for c in lb.by.get("channel", []) if c in lb.arr]
            if cs:
                c = self.pick(cs)
                a = lb.arr[c]
                v = self.cast_for(a, fb.hc) if self.chance(.7) else None
                if v is not None and a["dt"].lstrip("<>")[0] == "f" and a["g"]["k"] in ("bits", "special"):
                    v = self.pick(["<f4", "np.float64"])
                if fb.hc and v is None and a["dt"].lstrip("<>")[0] == "i":
                    return
                lb.cast[c] = v
                fb.ops.append({"op": "cast", "o": c, "v": v})
        elif k == 2 and lb.by.get("no_format"):
            for _ in range(r.randint(1, 3)):
                self.nofmt(lb)
        elif k == 3 and self.chance(K["header_p"]):
            self.fb_header(lb)
        else:
            self.later(lb)

    def label(self, fb):
        """Other contents of the storage unit label of a file that exists."""
        op = {"op": "sul", "f": fb.id}
        k = self.r.randrange(1, 8)
        if k & 1:
            op["si"] = S(self.pick(["OTHER-SET", "S2", "Z" * 60]))
        if k & 2:
            op["sn"] = self.pick([1, 3, 42, 9999])
        if k & 4 and not self.K.get("big"):
            op["ml"] = fb.ml = self.pick(MLS)
        fb.ops.append(op)

    def file(self, hc=False):
        K, r = self.K, self.r
        ml = K["ml"] if self.chance(.7) or K.get("big") or "scale" in K else self.pick(MLS)
        fb = FB(self.nid("f"), ml)
        fb.hc = hc
        mode = K["ext"]
        fb.mode = "inline" if mode == "inline" else mode
        si = self.name(fb)
        s = si if isinstance(si, str) else si[0] * si[1]
        op = {"op": "file", "id": fb.id, "si": S(s[:60] or "X"), "ml": ml}
        if self.chance(.3):
            op["sn"] = self.pick([1, 2, 99, 9999])
        if self.chance(.3):
            op["sul"] = 1
        if self.chance(K["breach_p"] * .5):
            op["si"], op["hcb"] = S(self.pick(["lower case id", self.badname(fb, True)])), "name"
        if self.chance(K["invalid_p"] * .3):
            op["exp"] = "any"
            k = r.randrange(3)
            if k == 0:
                op["si"] = S(["S", self.pick([61, 80])])
            elif k == 1:
                op["ml"] = fb.ml = self.pick([18, 19, 21, 33, 16386, 20000])
            else:
                op["sn"] = self.pick([10000, 123456])
        fb.ops.append(op)
        n = K.get("nlf") or r.randint(1, K["lfs"])
        if self.chance(K["invalid_p"] * .3):
            n = 0
        for i in range(n):
            self.lf(fb, i)
        if self.chance(K["invalid_p"] * .3) and n:
            # leave out something a file needs
            k = r.randrange(3)
            t = ["origin", "frame", "channel"][k]
            fb.ops = [o for o in fb.ops if not (o["op"] == "add" and o["t"] == t)]
            for o in fb.ops:
                if o["op"] != "file":
                    o.setdefault("exp", "any")
        self.writes(fb)
        return fb

    def writes(self, fb):
        """Interrupted writes, retries and rewrites with other data."""
        K, r = self.K, self.r
        n = r.randint(1, K["writes"])
        for i in range(n):
            if self.chance(K["fault_p"]):
                fb.ops.append(self.write(fb, faults=True))
                if self.chance(.3):
                    fb.ops.append(self.write(fb, faults=True))
            if self.chance(K["invalid_p"]):
                w = self.write(fb)
                self.bad_write(fb, w)
                fb.ops.append(w)
            if self.prop == "C11" and self.chance(.06):
                fb.ops.append(self.write(fb, to=0, exp="any"))       # a window without rows
            fb.ops.append(self.write(fb))
            if i < n - 1:
                if fb.ext and self.chance(K["redata_p"]):
                    self.redata(fb)
                if fb.lfs:
                    for _ in range(r.randint(0, 2)):
                        self.change(fb)

    def bad_write(self, fb, w):
        """A write whose arguments cannot be satisfied."""
        r = self.r
        k = r.randrange(7)
        src = w.get("src")
        m = min(self.rows_of(fb))
        w["exp"] = "any"
        if k == 0:
            w["to"] = self.pick([m + 1, m + 5, 0, 0, -1])
            if w["to"] > 0 and self.chance(.3):
                w["to"] = w["from"] = r.randint(0, m)
        elif k == 1:
            w["from"] = self.pick([m, m + 3, -1])
        elif k == 2:
            w["ics"] = self.pick([0, -1])
        elif k == 3:
            w["ocs"] = max(1, fb.ml - self.pick([1, 2, 10]))
        elif src and src["k"] != "struct" and k == 4:
            n = self.pick(src["order"])
            src["d"].pop(n, None)
            src["order"] = [x for x in src["order"] if x != n]
        elif src and k == 5 and src["k"] == "dict":
            n = self.pick(src["order"])
            src["d"][n] = {"dt": self.pick(BAD_DTYPES[:4]), "shape": src["d"][n]["shape"], "g": {"k": "zero"}}
        elif src and src["k"] == "dict":
            n = self.pick(src["order"])
            sh = list(src["d"][n]["shape"])
            if sh:
                sh[0] += self.pick([1, -1, 2])
                sh[0] = max(0, sh[0])
            src["d"][n] = {**src["d"][n], "shape": sh}

    # ------------------------------------------------------------------------------------------------- programs
    def history(self):
        """Operations on unrelated files that reuse names with other origins, copy numbers, types and values."""
        ops = []
        K = self.K
        fb = self.file()
        return fb.ops

    def riffle(self, lists):
        r = self.r
        lists = [list(x) for x in lists if x]
        out = []
        if self.chance(.3):
            for x in lists:
                out += x
            return out
        while lists:
            x = self.pick(lists)
            for _ in range(r.randint(1, 6)):
                if x:
                    out.append(x.pop(0))
            if not x:
                lists = [y for y in lists if y is not x]
        return out

    def hc_wrap(self, ops):
        """Put the operations of a file inside one or more high-compatibility blocks."""
        r = self.r
        parts = [ops]
        if self.chance(.4) and len(ops) > 2:
            k = r.randint(1, len(ops) - 1)
            parts = [ops[:k], ops[k:]]
        out = []
        for p in parts:
            b = {"op": "hc", "ops": [{"op": "probe"}] * self.chance(.2) + p, "form": self.pick(["ctx", "ctx", "deco", "same"])}
            if self.chance(.3):
                # an inner block that ends, normally or not, before the outer one goes on
                k = r.randint(0, len(p))
                e = self.pick([None, "ValueError", "KBI", "Exit"])
                inner = {"op": "hc", "ops": p[:k] if self.chance(.5) else [{"op": "probe"}], "form": self.pick(["ctx", "deco", "same", "same"])}
                if e:
                    inner["exc"] = e
                b["ops"] = [inner] + (p[k:] if inner["ops"] and inner["ops"][0].get("op") != "probe" else p)
            e = self.pick([None, None, "ValueError", "KBI", "Exit"])
            if e:
                b["exc"] = e
            out.append(b)
        return out

    def program(self):
        K, r = self.K, self.r
        nf = r.randint(1, K["files"]) + (r.randint(0, K["hist"]) if K["hist"] else 0)
        if self.chance(K["par_p"]):
            return self.par_program()
        lists = []
        for _ in range(nf):
            hc = self.chance(K["hc_p"])
            fb = self.file(hc)
            ops = fb.ops
            if hc:
                ops = self.hc_wrap(ops)
            lists.append(ops)
        if self.chance(K["twin_p"]):
            lists[1:2] = [twin(lists[0], r.random() < .8)]
        ops = self.riffle(lists)
        if K["hc_p"]:
            out = []
            for o in ops:
                out.append(o)
                if self.chance(.05):
                    out.append({"op": "probe"})
            ops = out + [{"op": "probe"}]
        if K["env_p"]:
            out = []
            for o in ops:
                if self.chance(K["env_p"] * .3):
                    out.append({"op": "env", "tz": self.pick(TZS)})
                out.append(o)
            ops = out
        self.stamp(ops)
        return {"ops": ops}

    def stamp(self, ops):
        """The clock and the state of the random generators at each operation."""
        for o in ops:
            if o["op"] == "hc":
                self.stamp(o["ops"])
            elif o["op"] == "par":
                for t in o["threads"]:
                    self.stamp(t)
            elif o["op"] in ("add", "write", "lf"):
                if o["op"] != "write" or self.chance(.5):
                    o["clk"] = 1_000_000_000 + self.r.randrange(10 ** 9) + self.r.randrange(1000) / 1000
                o["rs"] = self.r.randrange(1 << 31)

    def par_program(self):
        """Two threads of one process, each with its own file."""
        K, r = self.K, self.r
        K["fault_p"] = K["surv_p"] = K["reject_p"] = K["env_p"] = K["hc_p"] = 0
        K["explicit_p"] = 1
        K["dense"] = min(K["dense"], 3)
        K["ext"] = self.pick(["inline", "inline", "dict"])
        K["writes"] = min(K["writes"], 2)
        K["share_p"] = 0
        pre = self.file().ops if self.chance(.3) else []
        ts = [self.file().ops for _ in range(2)]
        if self.chance(.4):
            ts[1] = twin(ts[0], r.random() < .8)
        if self.chance(.5):
            # construction first, then the writes of both at the same time
            cut = [next(i for i, o in enumerate(t) if o["op"] == "write") for t in ts]
            pre = pre + [o for t, c in zip(ts, cut) for o in t[:c]]
            ts = [t[c:] for t, c in zip(ts, cut)]
        sched, tot = [], 0
        scale = self.pick([3, 20, 100, 500])
        while len(sched) < 400:
            sched.append(1 + int(r.expovariate(1 / scale)))
        ops = pre + [{"op": "par", "threads": ts, "sched": sched}]
        self.stamp(ops)
        for t in ts:
            for o in t:
                o.pop("rs", None)
                o.pop("clk", None)
        return {"ops": ops}


def twin(ops, other=True):
    """The same operations on objects of their own, with other data."""
    ids = set()

    def names(x):
        if isinstance(x, dict):
            ids.update(x[k] for k in ("id", "obj") if isinstance(x.get(k), str))
            for y in x.values():
                names(y)
        elif isinstance(x, list):
            for y in x:
                names(y)

    def t(x, k=None):
        if isinstance(x, dict):
            y = {a: t(b, a) for a, b in x.items()}
            if other and "dt" in y and isinstance(y.get("g"), dict):
                g = y["g"]
                if g["k"] in ("bits", "small", "special"):
                    g["s"] = g.get("s", 0) + 1
                elif g["k"] == "seq":
                    g["o"] = g.get("o", 1) + 17
            return y
        if isinstance(x, list):
            return [t(b) for b in x]
        return x + "t" if k in ("id", "f", "lf", "o", "r", "share", "obj") and isinstance(x, str) and x in ids else x
    names(ops)
    return [t(o) for o in ops]


def generate(prop, seed, tier="quick"):
    g = Gen(prop, seed, tier)
    p = g.program()
    return p, g
