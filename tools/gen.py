"""Script generators.  A script is a list of API calls; generators never see the library's answers."""
import random, struct


def tok(d):
    return struct.pack(">d", d).hex().upper()


ACR = [None] + [tok(i * 1e301) + f"@{i}" for i in range(1, 513)]
SVD = [tok(x) for x in (1.0e300, 2.0e300, 3.0e300, 4.0e300, 5.0e300)]  # und na pinf minf eps
INF, NINF, NAN, NAN2 = "7FF0000000000000", "FFF0000000000000", "7FF8000000000000", "FFF8000000000001"
NAMES = ["s", "t", "u", "v", "w", "S", "T", "x1", "y_2", "zz", "Q"]
BADNAMES = ["", "1x", "a b", "a-b", "_x", "n" * 64, "é", "x.y", "*"]
LABELS = ["a", "b", "c", "d", "e", "A", "B", "i1", "i2", "seattle", "San-Diego"]
ODDLABELS = ["", " ", "a ", "a  ", " a", "x'y", 'x"y', "x'y\"z", "L" * 63, "L" * 64, "L" * 62 + "  ", "é", "ÿ", "a\tb", "a\n",
             "a b c", "#", "*", "1", "-1", "a'", "''", 'x"y\'z', '"\'', '""', "a\x1fb", "a\x7f", "\x80"]


def rstr(r, n=None):
    """a string of characters that matter: quotes, blanks, control and upper characters"""
    n = r.choice([1, 2, 2, 3, 4, 5, 8, 62, 63, 64, 65]) if n is None else n
    al = r.choice(["ab'", 'ab"', "a'\"", "ab ", "a\x1f\x01", "aAbB\x7f\x80\xff\xe4\xc4", "a'\" \t", "xyz"])
    return "".join(r.choice(al) for _ in range(n))

TEXTS = ["", "text", "some longer explanatory text", "it's", 'say "hi"', "mix ' and \"", "tab\tx", "é ü", "x" * 255, "y" * 256,
         "z" * 300, " lead", "trail ", "'", "text"]


class Gen:
    def __init__(self, seed, n=0):
        self.r = random.Random(f"{seed}:{n}")
        self.ev = []

    def e(self, x, o, *a):
        self.ev.append(dict(x=x, o=o, a=list(a)))

    def script(self, id):
        return dict(id=id, ev=self.ev)

    # -- values ----------------------------------------------------------
    def val(self, odd=0.3, acr=True):
        r = self.r
        q = r.random()
        if q > odd:
            return r.choice([tok(float(r.randint(0, 5))), tok(r.randint(-20, 200) / 2), tok(r.random() * 1000), tok(r.gauss(0, 1e6))])
        c = r.randint(0, 11 if acr else 10)
        if c == 0: return r.choice(SVD)
        if c == 1: return r.choice(SVD)
        if c == 2: return "8000000000000000"
        if c == 3: return r.choice([INF, NINF])
        if c == 4: return r.choice([NAN, NAN2, "7FF0000000000001", "7FFFFFFFFFFFFFFF"])
        if c == 5: return tok(r.choice([0.0, 1.0, -1.0, 0.5, 2.0]))
        if c == 6: return tok(r.choice([5e-324, -5e-324, 2.2250738585072014e-308, 1.7e-310]))
        if c == 7: return tok(r.choice([9.99e300, 6e300, -1e300, -5e300, -1e301, -1.79e308, 1e299, 5.0000001e300]))
        if c == 8: return tok(r.choice([1 + 2 ** -52, 1 - 2 ** -53, 2 + 2 ** -51, 0.1, 1 / 3]))
        if c == 9: return tok(struct.unpack(">d", struct.pack(">Q", r.getrandbits(62)))[0]) if r.random() < .7 else tok(-abs(r.random()))
        if c == 10: return tok(float(r.choice([255, 256, 65535, 65536, 2 ** 31, 2 ** 53, -128, -32768])))
        return ACR[r.randint(1, 12)]

    def vals(self, typ, odd=0.3, acr=True):
        n = 5 if typ in (2, 3) else 1
        if typ == 0:
            return [tok(float(self.r.choice([0, 0, 0, 1, 2])))]
        return [self.val(odd, acr) for _ in range(n)]

    def label(self, odd=0.1):
        if self.r.random() < odd: return self.r.choice(ODDLABELS) if self.r.random() < .6 else rstr(self.r)
        return self.r.choice(LABELS)

    def text(self, odd=0.3):
        if self.r.random() < odd: return self.r.choice(TEXTS) if self.r.random() < .6 else rstr(self.r, self.r.choice([1, 2, 3, 4, 6, 9, 30, 254, 255, 256, 257]))
        return "t%d" % self.r.randint(0, 9)

    def name(self, bad=0.1):
        return self.r.choice(BADNAMES if self.r.random() < bad else NAMES)

    def ui(self, typ):
        r = self.r
        return {0: r.choice([0, 0, 1]), 1: 0, 2: r.randint(0, 9), 3: r.randint(53, 59)}.get(typ, 0)


# ------------------------------------------------------------------ arbitrary calls
WRITE_OPS = ["WriteRawStart", "WriteMapStart", "WriteStrStart", "WriteRaw", "WriteMap", "WriteStr", "WriteDone", "SetDomain",
             "SetDomainX", "AddAlias", "AddComment", "RegRawStart", "RegMapStart", "RegStrStart", "RegRaw", "RegStr", "RegMap",
             "RegDone", "RenameUel", "AddSetText", "SetTextNode", "AcrAdd", "AcrSetInfo", "WriteRawStartKB"]
READ_OPS = ["ReadRawStart", "ReadStrStart", "ReadMapStart", "ReadFiltStart", "ReadRaw", "ReadStr", "ReadMap", "ReadDone", "Fast",
            "FastEx", "FastFilt", "SliceStart", "Slice", "SliceUels", "DomElems", "MaxLens", "FiltStart", "FiltReg", "FiltDone",
            "FiltExists"]
QUERY_OPS = ["GetDomain", "GetDomainX", "GetComment", "SymInfo", "SymInfoX", "SymDim", "FindSym", "HasText", "SysInfo", "CurDim",
             "UelInfo", "UelGet", "FindUel", "GetUel", "GetElemText", "AcrCount", "AcrGetInfo", "AcrGetMap", "AcrIndex", "AcrName",
             "AcrValue", "AcrNextNr", "GetSV", "MapValue", "LastError", "ErrCount", "DataErrCount", "DataErrRec", "DataErrRecX",
             "FileInfo", "FileVersion", "UelMaxLen", "SymMaxLen", "GetStoreDomSets", "GetAllowBogus", "GetAcrNaN", "ErrStr", "MemUsed", "DllVersion"]
SET_OPS = ["SetSV", "SetReadSV", "ResetSV", "SetStoreDomSets", "SetAllowBogus", "SetAcrNaN", "AcrNextNr"]
FILE_OPS = ["OpenWrite", "OpenRead", "OpenReadEx", "OpenAppend", "Close", "OpenWriteEx"]


class Wild(Gen):
    """arbitrary calls with plausible arguments"""
    maxkey = 5
    paths = ("f1", "f2")
    ropaths = ()

    def sym(self): return self.r.choice([-1, 0, 1, 1, 2, 2, 3, 3, 4, 5, 7])
    def keys(self): return [self.r.randint(1, self.maxkey) for _ in range(20)]
    def lkeys(self): return [self.label() for _ in range(4)] + ["a"] * 16
    def uel(self): return self.r.choice([0, 1, 1, 2, 3, 4, 5, 6, -1, 9])

    def args(self, o):
        r = self.r
        if o in ("WriteRawStart", "WriteMapStart", "WriteStrStart", "WriteRawStartKB"):
            t = r.choice([0, 0, 1, 1, 2, 3] if r.random() < .9 else [-1, 4, 5])
            d = r.choice([0, 1, 1, 2, 2, 3] if r.random() < .93 else [-1, 20, 21])
            a = [self.name(), self.text(), d, t, self.ui(t)]
            return a + [[1] * 20, [self.maxkey] * 20] if o.endswith("KB") else a
        if o == "WriteRaw": return [sorted(self.keys()) if r.random() < .3 else self.keys(), self.v5()]
        if o == "WriteMap": return [[r.choice([1, 2, 3, 4, 5, 7, 0, -1] if r.random() < .1 else [1, 2, 3]) for _ in range(20)], self.v5()]
        if o == "WriteStr": return [self.lkeys(), self.v5()]
        if o == "SetDomain": return [[r.choice(NAMES + ["*", "*", "nope"]) for _ in range(20)]]
        if o == "SetDomainX": return [self.sym(), [r.choice(NAMES + ["*", "dom1", "dom2", "DOM1", "bad id"]) for _ in range(20)]]
        if o == "AddAlias": return [r.choice(NAMES + ["*"]), r.choice(NAMES + ["*", "al1", "al2"])]
        if o == "AddComment": return [r.choice([0, 1, 2, -1, 9]), self.text()]
        if o == "GetComment": return [self.sym(), r.randint(0, 3)]
        if o in ("RegRaw", "RegStr"): return [self.label()]
        if o == "RegMap": return [r.choice([0, 1, 2, 3, 5, 8, 13, -1]), self.label()]
        if o == "RenameUel": return [self.label(), r.choice([self.label(.3), "n1", "n2", "n3"])]
        if o == "AddSetText": return [self.text()]
        if o == "GetElemText": return [r.randint(-1, 4)]
        if o == "SetTextNode": return [r.randint(-1, 4), r.randint(0, 9)]
        if o == "AcrAdd": return [r.choice(["ac1", "ac2", "AC1", "s", "x y"]), self.text(), r.randint(1, 6)]
        if o == "AcrSetInfo": return [r.randint(0, 4), r.choice(["ac1", "ac2", "AC3", "s", "x y"]), self.text(), r.randint(1, 6)]
        if o in ("AcrGetInfo", "AcrGetMap"): return [r.randint(-1, 4)]
        if o in ("AcrIndex", "AcrName"): return [r.choice([ACR[1], ACR[2], ACR[5], tok(1.0), SVD[1]])]
        if o == "AcrValue": return [r.randint(-1, 9)]
        if o == "AcrNextNr": return [r.choice([-1, -1, 0, 20, 30])]
        if o in ("ReadRawStart", "ReadStrStart", "ReadMapStart", "Fast", "SliceStart", "MaxLens"): return [self.sym()]
        if o == "ReadFiltStart": return [self.sym(), [r.choice([-2, -1, 0, 1, 2, 9]) for _ in range(20)]]
        if o == "FastEx": return [self.sym(), r.choice([-1, 1, 2, 3])]
        if o == "FastFilt": return [self.sym(), self.filt(), r.choice([-1, 1, 2])]
        if o == "Slice": return [self.filt()]
        if o == "SliceUels": return [[r.randint(-1, 4) for _ in range(20)]]
        if o == "DomElems": return [self.sym(), r.choice([1, 1, 2, 0, 4]), r.choice([-1, -1, 1, 2, 9]), r.choice([0, 1, 1])]
        if o in ("FiltStart", "FiltExists"): return [r.choice([1, 2, 2, 0, -1])]
        if o == "FiltReg": return [r.choice([1, 2, 3, 5, 8, 0, -1])]
        if o in ("GetDomain", "GetDomainX", "SymInfo", "SymInfoX", "SymDim", "HasText"): return [self.sym()]
        if o == "FindSym": return [r.choice(NAMES + ["*", "nope", "s "])]
        if o in ("UelGet", "GetUel"): return [self.uel()]
        if o == "FindUel": return [self.label(.3)]
        if o == "MapValue": return [r.choice(SVD + [tok(1.0), ACR[1]])]
        if o == "ErrStr": return [r.choice([-100000, -100002, -100005, -100060, -100054, -100017])]
        if o in ("DataErrRec", "DataErrRecX"): return [r.choice([0, 1, 1, 2, 3, 12])]
        if o in ("SetSV", "SetReadSV"):
            l = r.sample([tok(float(i)) for i in (-1, -2, -3, -4, -5, -6, 7)] + SVD, 5)
            if r.random() < .2: l[r.randint(1, 4)] = l[0]
            return [l]
        if o in ("SetStoreDomSets", "SetAllowBogus", "SetAcrNaN"): return [r.choice([0, 1])]
        if o == "OpenWrite": return [self.wpath(), "prod"]
        if o == "OpenWriteEx": return [self.wpath(), "prod", r.choice([0, 1])]
        if o == "OpenRead": return [self.rpath()]
        if o == "OpenReadEx": return [self.rpath(), r.choice([0, 1, 2, 3])]
        if o == "OpenAppend": return [self.wpath(), "app"]
        if o == "Trace": return [r.choice([0, 1, 2, 3, 3, 3, 9, -1]), r.choice(["", "trace", "x" * 60])]
        return []

    def v5(self): return [tok(float(self.r.choice([0, 0, 1]))) if self.r.random() < .3 else self.val(.3) for _ in range(5)]
    def filt(self): return [self.r.choice(["", "", "a", "b", "c", "zzz"] if self.r.random() < .9 else ["zzz"]) for _ in range(20)]
    def wpath(self): return self.r.choice(list(self.paths) + ([""] if self.r.random() < .05 else []))
    def rpath(self): return self.r.choice(list(self.paths) + list(self.ropaths) + (["nodir/x", "", "missing"] if self.r.random() < .1 else []))

    def wild(self, x, ops):
        o = self.r.choice(ops)
        self.e(x, o, *self.args(o))

    # sensible plans: lists of (op, args)
    def plan_write(self):
        r = self.r
        p = [("OpenWrite", [r.choice(self.paths), "prod"]) if r.random() < .8 else ("OpenWriteEx", [r.choice(self.paths), "prod", 1])]
        p += [("RegRawStart", [])] + [("RegRaw", [l]) for l in LABELS[:5]] + [("RegDone", [])]
        if r.random() < .5:
            p += [("RegMapStart", [])] + [("RegMap", [i, l]) for i, l in zip(r.sample([1, 2, 3, 5, 8], 3), r.sample(LABELS[:5], 3))] + [("RegDone", [])]
        for nm in r.sample(NAMES, r.randint(1, 4)):
            o = r.choice(["WriteRawStart", "WriteMapStart", "WriteStrStart"])
            t = r.choice([0, 0, 1, 2, 3]); d = r.choice([0, 1, 1, 2, 2, 3])
            if r.random() < .1: p.append(("AddSetText", [self.text()]))
            p.append((o, [nm, self.text(), d, t, self.ui(t)]))
            if r.random() < .3: p.append(("SetDomain", [[r.choice(NAMES + ["*"]) for _ in range(20)]]))
            w = o[:-5]
            for _ in range(r.randint(0, 6)):
                p.append((w, self.args(w)))
            p.append(("WriteDone", []))
            if r.random() < .2: p.append(("AddAlias", [nm, "al" + nm]))
            if r.random() < .2: p.append(("AddComment", [r.randint(1, 3), self.text()]))
            if r.random() < .2: p.append(("SetDomainX", self.args("SetDomainX")))
        return p + [("Close", [])]

    def plan_read(self):
        r = self.r
        p = [("OpenRead", [self.rpath()])]
        if r.random() < .6:
            p += [("RegMapStart", [])] + [("RegMap", [i, l]) for i, l in zip(r.sample([1, 2, 3, 5, 8], 3), r.sample(LABELS[:5], 3))] + [("RegDone", [])]
            if r.random() < .6:
                p += [("FiltStart", [1])] + [("FiltReg", [i]) for i in (1, 2, 3)] + [("FiltDone", [])]
        for _ in range(r.randint(1, 4)):
            o = r.choice(["ReadRawStart", "ReadStrStart", "ReadMapStart", "ReadFiltStart"])
            p.append((o, [r.randint(0, 4)] + ([[r.choice([-2, -1, 0, 1]) for _ in range(20)]] if o == "ReadFiltStart" else [])))
            w = {"ReadFiltStart": "ReadMap"}.get(o, o[:-5])
            p += [(w, [])] * r.randint(0, 5)
            p.append(("ReadDone", []))
            if r.random() < .3:
                p += [("SliceStart", [r.randint(1, 4)]), ("Slice", [self.filt()]), ("SliceUels", [[0] * 20]), ("ReadDone", [])]
            if r.random() < .3: p.append(("FastEx", self.args("FastEx")))
            if r.random() < .3: p.append(("DomElems", self.args("DomElems")))
        return p + [("Close", [])]


def wild_script(seed, n, noise=0.35, sessions=4, init=True):
    g = Wild(seed, n)
    g.e(0, "Path", "f1"); g.e(0, "Path", "f2"); g.e(0, "Path", "missing")
    g.e(1, "Create"); g.e(1, "AutoConvert", 0)
    if g.r.random() < .2: g.e(0, "SetEnv", 1)
    for _ in range(sessions):
        p = g.plan_write() if g.r.random() < .55 else g.plan_read()
        for o, a in p:
            while g.r.random() < noise:
                q = g.r.random()
                ops = FILE_OPS if q < .07 else SET_OPS if q < .14 else WRITE_OPS if q < .45 else READ_OPS if q < .75 else QUERY_OPS
                g.wild(1, ops)
            g.e(1, o, *a)
    g.e(1, "Close")
    for f in ("f1", "f2"):
        g.e(1, "OpenRead", f)
        g.e(1, "SysInfo")
        for i in range(1, 7):
            g.e(1, "SymInfo", i); g.e(1, "SymInfoX", i); g.e(1, "Fast", i); g.e(1, "GetDomainX", i); g.e(1, "GetComment", i, 1)
        for i in range(1, 8): g.e(1, "UelGet", i)
        g.e(1, "Close")
    return g.script(f"wild-{seed}-{n}")
