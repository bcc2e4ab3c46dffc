"""Script generators for the command line tools."""
from profiles import *
import copy

DY = lambda n: tok(n / 64.0)


class Content:
    """what a file is to contain; written through the library by T.put"""
    def __init__(self):
        self.labels, self.syms, self.acr, self.dom, self.rdom, self.comm, self.atxt = [], [], [], {}, {}, {}, {}
        self.aidx = []       # numbers of the acronyms, where they are not 1, 2, ...

    def copy(self): return copy.deepcopy(self)


class T(P):
    TNAMES = ["i", "j", "a", "p", "x", "e", "cost", "Demand", "Supply_1", "FilesCompared", "Merged_set_1", "zLong" + "g" * 58]
    TLABELS = ["a", "b", "c", "Seattle", "new-york", "i1", "i2", "i10", "ins1", "Level", "x y", "it's", 'q"q', 'a"b"c"d', '""""', "é1", "File1", "L" * 63, "1", "-"]
    def __init__(self, *a):
        super().__init__(*a)
        self.sizes = {}    # number of numbers in all files, by symbol: the units of gdxmerge's option big

    frac = False       # values that are not multiples of 1/64

    def tval(self, typ=1, acr=0):
        r = self.r
        q = r.random()
        if q < .45: return DY(r.choice([0, 0, 1, 2, 3, 16, 32, 64, 64, 96, 128, -64, -32, -1, 640, 65535, -65535, r.randint(-3000, 3000)]))
        if q < .6: return r.choice(SVD)
        if q < .7 and acr: return ACR[r.randint(1, acr)]
        if q < .8: return tok(r.choice([1e10, -7e20, 1e100]))
        if self.frac and q < .95: return tok(r.choice([1 / 3, 0.1, 1 + 2 ** -52, r.random(), 5e-324, 123456.789, 1e-9, -2.5e-7]))
        return DY(r.randint(-100, 100))

    def trec(self, s, acr):
        if s["typ"] == 0: return self.r.choice(["", "", "one", "two", "One", "some text", "it's", 'say "a" or "b"', "x" * 200])
        n = 5 if s["typ"] in (2, 3) else 1
        if n == 5 and self.r.random() < .4:
            d = self.defrec(s)
            if self.r.random() < .5: d[self.r.randint(0, 4)] = self.tval(2, acr)
            return d
        if n == 1 and self.r.random() < .1: return [tok(0.0)]
        return [self.tval(s["typ"], acr) for _ in range(n)]

    def defrec(self, s):
        z, one, pinf, minf = tok(0.0), tok(1.0), SVD[2], SVD[3]
        lo, up = z, z
        u = s["ui"]
        if s["typ"] == 2:
            lo = minf if u in (4, 5) else one if u in (8, 9) else z
            up = one if u == 1 else z if u in (0, 4) else pinf
        else:
            lo = minf if u in (55, 56) else z
            up = pinf if u in (54, 56, 58) else z
        return [z, z, lo, up, one]

    def tsym(self, c, name, dims=(0, 1, 1, 2, 2, 3, 4), typ=None):
        r = self.r
        t = typ if typ is not None else self.typ()
        s = dict(name=name, txt=self.r.choice(["", "t1", "text two", "it's", "x" * 200]), dim=r.choice(dims) if r.random() < .93 else r.choice([10, 18, 19, 20]), typ=t, ui=self.ui(t), recs={}, alias=None)
        n = 1 if s["dim"] == 0 else r.choice([0, 1, 2, 3, 5, 12])
        if s["dim"] == 0 and r.random() < .3: n = 0
        for _ in range(n):
            s["recs"][tuple(r.choice(c.labels) for _ in range(s["dim"]))] = self.trec(s, len(c.acr))
        return s

    def tcontent(self, nsym=None, nlab=None):
        r = self.r
        c = Content()
        c.labels = r.sample(self.TLABELS, nlab or r.randint(1, 8))
        if r.random() < .03:        # a large symbol
            c.labels += ["u%d" % i for i in range(300)]
            s = self.tsym(c, "large", (1, 2, 3))
            if s["dim"]:
                for _ in range(r.choice([100, 300])): s["recs"][tuple(r.choice(c.labels) for _ in range(s["dim"]))] = self.trec(s, 0)
                c.syms.append(s)
        if r.random() < .2: c.acr = ["acr%d" % (i + 1) for i in range(r.randint(1, 4))]
        for nm in r.sample(self.TNAMES, nsym if nsym is not None else r.randint(0, 4)):
            c.syms.append(self.tsym(c, nm))
        if r.random() < .25:
            sets = [s["name"] for s in c.syms if s["typ"] == 0]
            c.syms.append(dict(name="al", alias=r.choice(sets + ["*"]), txt="", dim=1, typ=4, ui=0, recs={}))
        if r.random() < .3:
            for k, s in enumerate(c.syms):
                if s["dim"] and not s["alias"]: c.dom[s["name"].upper()] = [r.choice(["*", "d1", "d2", "i", "j"]) for _ in range(s["dim"])]
        return c

    def mutate(self, c):
        """a similar content"""
        r = self.r
        c = c.copy()
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5])):
            q = r.random()
            real = [s for s in c.syms if not s["alias"]]
            s = r.choice(real) if real else None
            if s and q < .3 and s["recs"]:
                k = r.choice(sorted(s["recs"]))
                v = s["recs"][k]
                if isinstance(v, list):
                    v = list(v); j = r.randint(0, len(v) - 1); v[j] = self.tval(s["typ"], len(c.acr)); s["recs"][k] = v
                else: s["recs"][k] = self.trec(s, 0)
            elif s and q < .42 and s["recs"]: del s["recs"][r.choice(sorted(s["recs"]))]
            elif s and q < .56 and s["dim"]: s["recs"][tuple(r.choice(c.labels) for _ in range(s["dim"]))] = self.trec(s, len(c.acr))
            elif q < .62: 
                n = [l for l in self.TLABELS if l.upper() not in [q.upper() for q in c.labels]]
                if n:
                    c.labels.insert(r.randint(0, len(c.labels)), r.choice(n))
                    if s and s["dim"]: s["recs"][tuple(r.choice(c.labels) for _ in range(s["dim"]))] = self.trec(s, len(c.acr))
            elif q < .70: r.shuffle(c.labels)
            elif q < .74 and s: s["name"] = r.choice([s["name"].upper(), s["name"].lower(), s["name"].title()])
            elif q < .80 and s:
                if not any(x["alias"] and x["alias"].upper() == s["name"].upper() for x in c.syms): c.syms.remove(s)
            elif q < .84:
                n = [x for x in self.TNAMES if x.upper() not in [y["name"].upper() for y in c.syms]]
                if n: c.syms.insert(r.randint(0, len(c.syms)) if not any(x["alias"] for x in c.syms) else 0, self.tsym(c, r.choice(n)))
            elif q < .88 and s and not any(x["alias"] and x["alias"].upper() == s["name"].upper() for x in c.syms):
                i = c.syms.index(s); c.syms[i] = self.tsym(c, s["name"], typ=s["typ"] if r.random() < .5 else None)
            elif q < .91 and s: s["txt"] = r.choice(["", "other", "t1"])
            elif q < .94 and s and s["typ"] in (2, 3): s["ui"] = self.ui(s["typ"])
            elif q < .97 and s and s["dim"] and len(c.dom.get(s["name"].upper(), [])) == s["dim"]: c.dom[s["name"].upper()][r.randint(0, s["dim"] - 1)] = r.choice(["*", "d1", "D1", "zz"])
            else: c.labels = [r.choice([l, l.upper()]) if l.isascii() else l for l in c.labels]
        for s in c.syms:        # labels may have changed case
            if not s["alias"] and s["name"].upper() in c.dom and len(c.dom[s["name"].upper()]) != s["dim"]: del c.dom[s["name"].upper()]
        return c

    def put(self, x, path, c, compr=None):
        """write content c to path"""
        r = self.r
        self.open_write(x, path, compr)
        up = {l.upper(): i + 1 for i, l in enumerate(c.labels)}
        self.reg(x, c.labels, r.choice(["raw", "raw", "str"]))
        tx = {"": 0}
        aidx = c.aidx or list(range(1, len(c.acr) + 1))
        anum = {ACR[i + 1]: ACR[aidx[i]] for i in range(len(c.acr))}
        for i, nm in enumerate(c.acr): self.e(x, "AcrAdd", nm, c.atxt.get(nm, ""), aidx[i])
        for s in c.syms:
            z = len(s["recs"]) * (s["dim"] + 1) * (4 if s["typ"] in (2, 3) else 1)
            self.sizes[s["name"].upper()] = self.sizes.get(s["name"].upper(), 0) + z
            if s["alias"]:
                self.e(x, "AddAlias", s["alias"], s["name"]); continue
            recs = []
            for k, v in s["recs"].items():
                if not isinstance(v, list):
                    if v not in tx:
                        tx[v] = len(tx); self.e(x, "AddSetText", v)
                    v = [tok(float(tx[v]))]
                recs.append((tuple(up[l.upper()] for l in k), [anum.get(t, t) for t in v]))
            d = {}
            for k, v in recs: d[k] = v
            self.wsym(x, [s["name"], s["txt"], s["dim"], s["typ"], s["ui"], [[list(k), v] for k, v in sorted(d.items())]], "raw" if s["name"] in c.rdom else r.choice(["raw", "str"]), c.labels, None,
                      dom=c.rdom[s["name"]] + ["*"] * (20 - s["dim"]) if s["name"] in c.rdom else None)
            for t in c.comm.get(s["name"], []): self.e(x, "AddComment", c.syms.index(s) + 1, t)
            if s["name"].upper() in c.dom: self.e(x, "SetDomainX", len([q for q in c.syms[:c.syms.index(s) + 1]]), c.dom[s["name"].upper()] + ["*"] * (20 - s["dim"]))
        self.e(x, "Close")

    # ---------------------------------------------------------------- gdxdiff
    def dec(self, n):
        v = n / 64
        return self.r.choice([repr(v), "%.6f" % v, "%.8e" % v])

    def opt(self, argv, name, val):
        r = self.r
        name = r.choice([name, name.lower(), name.upper()])
        q = r.random()
        if q < .6: argv.append(f"{name}={val}")
        elif q < .8: argv += [name, "=", str(val)]
        else: argv += [name, str(val)]

    def diffrun(self, f1, f2, names, out=None, simple=False, force=()):
        """names: symbol names that exist; f1, f2: the paths"""
        r = self.r
        o = dict(eps=0, rel=0, field=0, fldonly=False, diffonly=False, settext=True, defaults=False, domains=False, matrix=False, ids=[], skip=[], hasids=False, hasskip=False,
                 file1=f1, file2=f2, usage=False)
        nm = lambda f: f[:-4] if f.endswith(".gdx") and r.random() < .2 else f
        files = [nm(f1), nm(f2)]
        argv = []
        if not simple:
            if not self.frac and r.random() < .4: o["eps"] = r.choice([0, 1, 2, 16, 64]); self.opt(argv, "Eps", self.dec(o["eps"]))
            if not self.frac and r.random() < .35: o["rel"] = r.choice([0, 1, 2, 16, 32, 64]); self.opt(argv, "RelEps", self.dec(o["rel"]))
            if r.random() < .4:
                f = r.choice([0, 1, 2, 3, 4, 5]); o["field"] = f
                self.opt(argv, "Field", r.choice({0: ["All", "all"], 1: ["L", "l"], 2: ["M"], 3: ["Lo", "LO"], 4: ["Up", "up"], 5: ["Scale", "Prior", "prior"]}[f]))
            if r.random() < (.3 if o["field"] else .03):
                o["fldonly"] = True; argv.append(r.choice(["FldOnly", "fldonly"]))
                if not o["field"]: o["usage"] = True
            if r.random() < (.05 if o["fldonly"] else .6 if "diffonly" in force else .25):
                o["diffonly"] = True; argv.append(r.choice(["DiffOnly", "DIFFONLY"]))
                if o["fldonly"]: o["usage"] = True
            if r.random() < .25: o["settext"] = r.choice([True, False]); self.opt(argv, "SetDesc", r.choice(["Y", "1", "T", "y"] if o["settext"] else ["N", "0", "F", "n"]))
            if r.random() < .3: o["defaults"] = True; argv.append("CmpDefaults")
            if r.random() < (.8 if "domains" in force else .25): o["domains"] = True; argv.append("CmpDomains")
            if r.random() < .15: argv.append("IgnoreOrder")
            if r.random() < .12: o["matrix"] = True; argv.append(r.choice(["MatrixFile", "matrixfile"]))
            for key, f in (("ID", "ids"), ("SkipID", "skip")):
                if r.random() < .15 and names:
                    l = list({n.upper(): r.choice([n, n.upper(), n.lower()]) for n in r.sample(sorted(names) + ["nosuch"], r.randint(1, min(3, len(names) + 1)))}.values())
                    o[f] = l; o["has" + f] = True
                    q = r.random()
                    if q < .4: argv.append(f"{key}={','.join(l)}")
                    elif q < .6: argv.append(f"{key}={' '.join(l)}")
                    elif q < .8: argv += [f"{key}={n}" for n in l]
                    else: argv.append(f"{key}={', '.join(l)}")
            if r.random() < .02: o["usage"] = True; self.opt(argv, "Eps", r.choice(["abc", "-1", "1x"]))
            if r.random() < .02: o["usage"] = True; self.opt(argv, "Field", "Q")
        out = out or "diffile.gdx"
        pos = files
        if out != "diffile.gdx" or r.random() < .3:
            on = out[:-4] if r.random() < .3 else out
            if r.random() < .5: pos = files + [on]
            else: argv.append(f"{r.choice(['Output', 'O', 'o'])}={on}")
        self.e(0, "Tool", "gdxdiff", pos + argv, o, out, 1)

    # ---------------------------------------------------------------- gdxmerge
    def mergerun(self, files, names, out=None, wild=None, existed=False, simple=False, param=None):
        r = self.r
        bad = lambda f: len(f) > 67 or "'" in f and '"' in f       # not usable as a label
        o = dict(files=[dict(path=f, id="File_%d" % (k + 1) if bad(f) else f[:-4]) for k, f in enumerate(files)], ids=[], excl=[], strict=False, wild=bool(wild), bad=False, existed=existed, usage=False)
        argv = [wild] if wild else list(files)
        opts = []
        if simple:
            self.e(0, "Tool", "gdxmerge", argv + [f"output={out}"], o, out, 1); return
        if r.random() < .35 and names:
            l = list({n.upper(): r.choice([n, n.upper(), n.lower()]) for n in r.sample(sorted(names) + ["nosuch"], r.randint(1, min(3, len(names) + 1)))}.values())
            key = r.choice(["id", "exclude"])
            o["ids" if key == "id" else "excl"] = l
            opts += [f"{key}={r.choice([',', ',', ' ', ', ', ' , ']).join(l)}"] if r.random() < .6 else [f"{key}={n}" for n in l]
        if r.random() < .03 and names:
            o["usage"] = True; opts += ["id=" + list(names)[0], "exclude=nosuch"]
        if r.random() < .45: self.opt(opts, "big", max(0, r.choice(sorted(self.sizes.values())) + r.choice([0, 0, 1, -1])) if self.sizes and r.random() < .6 else r.choice([0, 1, 2, 5, 10, 20, 50, 1000]))
        if r.random() < .15: o["strict"] = True; opts.append(r.choice(["strict=true", "STRICT=True", "strict=TRUE"]))
        if wild == "*.gdx": o["bad"] = True          # it matches the output file as well
        if r.random() < .08: o["bad"] = True; argv.insert(r.randint(0, len(argv)), "nosuch*.gdx")
        out = out or "merged.gdx"
        if out != "merged.gdx" or r.random() < .3: opts.append(f"{r.choice(['output', 'O'])}={out[:-4] if r.random() < .3 else out}")
        if r.random() < .5: argv = argv + opts
        else: argv = opts + argv
        if param:
            k = r.randint(0, len(argv))
            self.e(0, "PutText", param, r.choice([" ", "\n"]).join(argv[k:]) + r.choice(["", "\n"]))
            argv = argv[:k] + ["@" + param]
        self.e(0, "Tool", "gdxmerge", argv, o, out, 1)


    # ---------------------------------------------------------------- gdxdump
    def dumprun(self, f, names, typs):
        r = self.r
        o = dict(file=f, fmt="normal", dfmt="normal", delim=".", sep=".", hdr=True, data=True, symb="", uel="", list="", cdim=False, filter=True, sv={}, hashdr=False, header="",
                 allf=False, stext=False, usage=False)
        argv = []
        opt = lambda n, v: self.opt(argv, n, v) if v != "" else argv.append(f"{n}=''")
        q = r.random()
        lst = "" if q < .75 else r.choice(["symbols", "set", "setdi", "domain", "text", "version"])
        o["list"] = lst
        if lst: argv.append(r.choice({"symbols": ["Symbols", "symbols"], "set": ["SymbolsAsSet"], "setdi": ["SymbolsAsSetDI"], "domain": ["DomainInfo"], "text": ["SetText"], "version": ["-V", "-version"]}[lst]))
        if not lst:
            q = r.random()
            fmt = "normal" if q < .4 else "gamsbas" if q < .55 else "csv"
            if fmt != "normal" or r.random() < .3: opt("Format", fmt)
            o["fmt"] = fmt
            if fmt == "csv" or r.random() < .35:
                o["symb"] = r.choice(names) if r.random() < .97 and names else "nosuch"
                o["symb"] = r.choice([o["symb"], o["symb"].upper(), o["symb"].lower()])
                opt("Symb", o["symb"])
            elif r.random() < .02: pass
            o["delim"] = "," if fmt == "csv" else "."
            if r.random() < .25:
                d = r.choice(["comma", "period", "tab", "blank", "semicolon"])
                o["delim"] = {"comma": ",", "period": ".", "tab": "\t", "blank": " ", "semicolon": ";"}[d]; opt("Delim", d)
            if r.random() < .2:
                o["sep"] = r.choice([".", ","]); opt("DecimalSep", {".": "period", ",": "comma"}[o["sep"]])
            if o["sep"] == "," and o["delim"] == ",": o["usage"] = True
            if r.random() < .25: o["hdr"] = False; argv.append("NoHeader")
            if r.random() < .15: o["data"] = False; argv.append("NoData")
            if r.random() < .3: o["dfmt"] = r.choice(["hexBytes", "hexponential"]); opt("dFormat", o["dfmt"])
            if r.random() < .3: o["filter"] = r.random() < .3; opt("FilterDef", r.choice(["Y", "y", "1"]) if o["filter"] else r.choice(["N", "0", "n"]))
            for k, nm in (("eps", "EpsOut"), ("na", "NaOut"), ("pinf", "PinfOut"), ("minf", "MinfOut"), ("und", "UndfOut"), ("zero", "ZeroOut")):
                if r.random() < .12: o["sv"][k] = r.choice(["", "xx", nm, "1e99", "0.0", "it is"]); opt(nm, o["sv"][k])
            if fmt == "csv":
                if r.random() < .35: o["cdim"] = True; opt("CDim", r.choice(["Y", "y", "1"]))
                if r.random() < .3: o["allf"] = True; argv.append("CSVAllFields")
                if r.random() < .3: o["stext"] = True; argv.append("CSVSetText")
                if r.random() < .2: o["hashdr"] = True; o["header"] = r.choice(["", "a,b,c", "my header"]); opt("Header", o["header"])
        if r.random() < .12: o["uel"] = r.choice(["uels", "u"]); opt("UelTable", o["uel"])
        if r.random() < .02: o["usage"] = True; argv.append(r.choice(["Bad", "Format=x", "Delim=x", "dFormat=q"]))
        out, w = "", 0
        if lst != "version" and not o["usage"] and r.random() < .2: out, w = "text.out", 2; opt("Output", out)
        self.e(0, "Tool", "gdxdump", [f[:-4] if r.random() < .2 else f] + argv, o, out, w)


def TS(fn):
    def make(seed, n):
        g = T(f"{fn.__name__}:{seed}", n)
        fn(g)
        return g.script(f"{fn.__name__}-{seed}-{n}")
    make.__name__ = fn.__name__
    return make


@TS
def tdiff(g):
    r = g.r
    g.start(("a.gdx", "b.gdx", "diffile.gdx", "out.gdx"))
    g.frac = r.random() < .4
    c = g.tcontent()
    d = g.mutate(c) if r.random() < .93 else g.tcontent()
    g.put(1, "a.gdx", c); g.put(1, "b.gdx", d)
    names = {s["name"].upper(): s["name"] for s in c.syms + d.syms}.values()
    for _ in range(r.randint(1, 4)):
        f1, f2 = r.choice([("a.gdx", "b.gdx"), ("a.gdx", "b.gdx"), ("b.gdx", "a.gdx"), ("a.gdx", "a.gdx")])
        g.diffrun(f1, f2, list(names), r.choice([None, "out.gdx"]))


@TS
def tdiffedge(g):
    """a difference at the edge: symbols with nearly as many dimensions as there can be, domains that differ in one place; a file with a name the
    tool likes for itself"""
    r = g.r
    paths = ["a.gdx", "b.gdx", "diffile.gdx", "out.gdx", "tmpdifffile1.gdx"]
    g.start(paths)
    g.frac = r.random() < .4
    c = g.tcontent()
    real = [s for s in c.syms if not s["alias"]]
    dom = r.random() < .5
    w = []
    for k in range(r.randint(1, 2)):
        d = r.choice([2, 3, 4, 5]) if dom else r.choice([17, 18, 18, 19, 19, 20])
        s = g.tsym(c, "wide%d" % k, dims=(d,), typ=r.choice([2, 3, 3, 1, 0]))
        s["dim"], s["recs"] = d, {}
        for _ in range(r.randint(1, 3)): s["recs"][tuple(r.choice(c.labels) for _ in range(d))] = g.trec(s, len(c.acr))
        if dom: c.dom[s["name"].upper()] = [r.choice(["*", "d1", "d2"]) for _ in range(d)]
        c.syms.append(s); w.append(s["name"])
    q = c.copy()
    for s in q.syms:
        if s["name"] not in w: continue
        if dom:
            if r.random() < .8: q.dom[s["name"].upper()][r.choice([-1, -1, 0, r.randint(0, s["dim"] - 1)])] = r.choice(["*", "d1", "D2", "zz"])
            if r.random() < .6: continue
        k = r.choice(sorted(s["recs"])); z = r.random()
        if z < .5: s["recs"][k] = g.trec(s, len(q.acr))
        elif z < .75: del s["recs"][k]
        else: s["recs"][tuple(r.choice(q.labels) for _ in range(s["dim"]))] = g.trec(s, len(q.acr))
    g.put(1, "a.gdx", c); g.put(1, "b.gdx", q)
    tmp = r.random() < .3
    if tmp: g.put(1, "tmpdifffile1.gdx", g.tcontent())
    names = [s["name"] for s in c.syms]
    for _ in range(r.randint(1, 3)):
        f1, f2 = r.choice([("a.gdx", "b.gdx"), ("a.gdx", "b.gdx"), ("b.gdx", "a.gdx")])
        g.diffrun(f1, f2, names, r.choice([None, "out.gdx"]), force=("domains",) if dom else ("diffonly",))
        if tmp: g.e(0, "Dump", "tmpdifffile1.gdx")


@TS
def tdiffbad(g):
    """missing or unreadable input; differences of differences"""
    r = g.r
    g.start(("a.gdx", "b.gdx", "c.gdx", "é file.gdx", "diffile.gdx", "out.gdx", "none.gdx"))
    c = g.tcontent()
    g.put(1, "a.gdx", c); g.put(1, "é file.gdx", g.mutate(c))
    g.e(0, "Junk", "b.gdx", r.choice(["", "GAMS", "\x02\x34\x12", "x" * 100]))
    for _ in range(r.randint(1, 3)):
        f1, f2 = r.choice([("a.gdx", "none.gdx"), ("none.gdx", "a.gdx"), ("a.gdx", "b.gdx"), ("b.gdx", "a.gdx"), ("b.gdx", "none.gdx"), ("a.gdx", "é file.gdx"), ("é file.gdx", "a.gdx")])
        g.diffrun(f1, f2, [s["name"] for s in c.syms], r.choice([None, "out.gdx"]), simple=r.random() < .5)
    g.diffrun("a.gdx", "é file.gdx", [], "out.gdx", simple=True)
    g.diffrun("out.gdx", r.choice(["a.gdx", "é file.gdx", "out.gdx"]), [], "c.gdx", simple=r.random() < .5)


@TS
def tmerge(g):
    r = g.r
    odd = ["n" * 64 + ".gdx", "q'\"q.gdx", "n" * 63 + ".gdx", "it's.gdx"]
    g.start(("a.gdx", "b.gdx", "c1.gdx", "d.gdx", "merged.gdx", "out.gdx", "junk.gdx") + tuple(odd))
    g.frac = True
    fs = r.sample(["a.gdx", "b.gdx", "c1.gdx", "d.gdx"] + (odd if r.random() < .15 else []), r.randint(1, 4))
    c = g.tcontent(nsym=r.randint(1, 5))
    names = {}
    for f in fs:
        d = g.mutate(c) if r.random() < .85 else g.tcontent()
        if r.random() < .3: r.shuffle(d.acr)
        if r.random() < .4: d.aidx = r.sample(range(1, 12), len(d.acr))
        g.put(1, f, d)
        for s in d.syms: names[s["name"].upper()] = s["name"]
    if r.random() < .15:
        g.e(0, "Junk", "junk.gdx", r.choice(["", "xx", "y" * 99])); fs.insert(r.randint(0, len(fs)), "junk.gdx")
    ex = set()
    for _ in range(r.randint(1, 3)):
        out = r.choice([None, "out.gdx"])
        g.mergerun(fs, list(names.values()), out, existed=out in ex)
        ex.add(out)
        o = g.ev[-1]["a"][2]
        if o["strict"] or o["usage"]: break


@TS
def tmergewild(g):
    """patterns instead of names; parameters from a file; merging merged files"""
    r = g.r
    fs = ["f%d.gdx" % i for i in range(1, r.randint(2, 5))]
    g.start(tuple(fs) + ("x.gdx", "merged.gdx", "out.gdx", "other.txt"))
    g.frac = True
    c = g.tcontent(nsym=r.randint(1, 4))
    names = {}
    for f in r.sample(fs, len(fs)):
        d = g.mutate(c)
        g.put(1, f, d)
        for s in d.syms: names[s["name"].upper()] = s["name"]
    q = r.random()
    if q < .3:
        g.mergerun(fs, list(names.values()), "merged.gdx", wild="f?.gdx")
        g.mergerun(fs + ["merged.gdx"], list(names.values()), "out.gdx")
    elif q < .6: g.mergerun(fs, list(names.values()), "out.gdx", wild=r.choice(["f*.gdx", "*.gdx", "f*"]))
    elif q < .8:
        g.mergerun(fs, [], "out.gdx", param="other.txt")
    else:
        for f in fs: g.mergerun([f], [], "merged.gdx", simple=True)
        g.mergerun(fs, [], "out.gdx", simple=True)
    g.diffrun("out.gdx" if q > .3 else "merged.gdx", "f1.gdx", [], "x.gdx")


@TS
def tdump(g):
    r = g.r
    g.start(("a.gdx", "b.gdx", "none.gdx"))
    g.frac = True
    c = g.tcontent(nsym=r.randint(0, 6))
    for s in c.syms:
        if s["typ"] == 0 and s["dim"] == 0 and not s["alias"]: s.update(dim=1, recs={})
        if s["dim"] == 0 and r.random() < .4: s["recs"] = {}
        if s["alias"] is None and r.random() < .3: s["txt"] = r.choice(["(x) y", "a,b", "x/y", "e=mc", "..", "a.b", "a..b", " (", " (x", "  (a) b", "  x", "it's;", 'say "x"', "$on", "*", "100%"])
        if s["typ"] == 0:
            for k in s["recs"]:
                if r.random() < .3: s["recs"][k] = r.choice(["two words", "a,b", "x/y", "a..b", "x*", "e=1", ";", "$", "plain", "it's", 'q"q', "a.b"])
        if r.random() < (.5 if not s["recs"] else .15) and not s["alias"]: c.comm[s["name"]] = [r.choice(["first comment", "c2", "* star"]) for _ in range(r.randint(1, 3))]
    for a in c.acr:
        if r.random() < .5: c.atxt[a] = r.choice(["acronym text", "(x", "it's", "a;b"])
    for k, s in enumerate(c.syms):
        sets = [q["name"] for q in c.syms[:k] if q["typ"] == 0 and q["dim"] == 1 and not q["alias"]]
        if s["dim"] and not s["alias"] and r.random() < .5: c.rdom[s["name"]] = [r.choice(sets + ["*"]) for _ in range(s["dim"])]
        # relaxed domain names that look like the names made up for columns, and long ones
        if s["dim"] and not s["alias"] and s["name"] not in c.rdom and r.random() < .3:
            n = s["dim"]
            q = r.random()
            if q < .3 and n <= 4:
                m = 63 - 2 * (n - 1) + r.choice([0, 0, 1, -1])      # the whole domain is about 63 characters long
                l = [m // n + (1 if j < m % n else 0) for j in range(n)]
                c.dom[s["name"].upper()] = ["abcd"[j] * min(63, l[j]) for j in range(n)]
            else: c.dom[s["name"].upper()] = [r.choice(["i", "i", "i_1", "i_2", "Dim1", "Dim2", "I", "*", "i_1_2", "Val", "Text"]) for _ in range(n)]
    g.put(1, "a.gdx", c)
    if r.random() < .1: g.e(0, "Junk", "b.gdx", r.choice(["", "xx", "y" * 99]))
    names = [s["name"] for s in c.syms]
    for _ in range(r.randint(3, 10)):
        g.dumprun("a.gdx" if r.random() < .95 else r.choice(["b.gdx", "none.gdx"]), names, None)
