"""Per-property script generators on top of gen.py.  They produce inputs only; the specification is the oracle."""
from gen import *

INTMAX = 2 ** 31 - 1
# labels that fall into the same bucket of the element table (multiplier 211, table size 997), case-insensitively
def _hash(s, m=997):
    h = 0
    for c in s.upper():
        h = (211 * h + ord(c)) & 0xFFFFFFFF
    return (h & 0x7FFFFFFF) % m


def _collide():
    import itertools
    b = {}
    for t in itertools.product("abcdefghijklmnopqrstuvwxyz0123456789", repeat=3):
        s = "".join(t)
        b.setdefault(_hash(s), []).append(s)
    return [v[:12] for k, v in sorted(b.items())[:40]]


COLLIDE = _collide()


class P(Gen):
    """structured scripts"""
    vmax = 60

    def start(self, paths=("f1", "f2", "f3"), objs=(1,), env=None):
        for p in paths: self.e(0, "Path", p)
        if env is None: env = 1 if self.r.random() < .3 else 0
        if env: self.e(0, "SetEnv", 1)
        for x in objs:
            self.e(x, "Create"); self.e(x, "AutoConvert", 0)

    def rep(self, x, op, argss):
        if argss: self.e(x, "Rep", op, argss)

    # ---------------------------------------------------------------- content
    def labels(self, n, style=None):
        r = self.r
        style = style or r.choice(["i", "i", "mixed", "collide", "long"])
        if style == "i": return ["i%d" % k for k in range(1, n + 1)]
        if style == "long": return [("L%d_" % k + "x" * r.randint(0, 58))[:63] for k in range(1, n + 1)]
        if style == "collide":
            b = [s for l in r.sample(COLLIDE, min(len(COLLIDE), n // 8 + 1)) for s in l]
            b += ["k%d" % k for k in range(n)]
            return b[:n]
        out, seen = [], set()
        pool = [l for l in ODDLABELS if len(l.rstrip()) < 64 and min(l + "a") >= " " and not ("'" in l and '"' in l)]
        k = 0
        while len(out) < n:
            l = (r.choice(pool) if r.random() < .2 else r.choice(["e%d", "E_%d", "%d", "lab %d", "a.b%d", "é%d", "#%d"]) % k).rstrip()
            k += 1
            if l.upper() not in seen:
                seen.add(l.upper()); out.append(l)
        r.shuffle(out)
        return out

    def dim(self): return self.r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 7, 10, 11, 19, 20])
    def typ(self): return self.r.choice([0, 0, 1, 1, 1, 2, 3])

    def nrec(self, big=0.1): return self.r.choice([0, 1, 2, 3]) if self.r.random() < .3 else self.r.randint(3, 400 if self.r.random() < big else 40)

    def keys(self, dim, n, mx):
        """sorted distinct key tuples over 1..mx"""
        r = self.r
        if dim == 0: return [()]
        n = min(n, mx ** min(dim, 6))
        st = r.choice(["rnd", "rnd", "dense", "last", "pos", "few"])
        K = set()
        if st == "dense":
            w = 1
            while w ** dim < n and w < mx: w += 1
            import itertools
            base = sorted(r.sample(range(1, mx + 1), w))
            for t in itertools.product(base, repeat=dim):
                K.add(t)
                if len(K) >= n: break
        elif st == "last":      # runs in the last position with interesting gaps
            while len(K) < n:
                pre = tuple(r.randint(1, mx) for _ in range(dim - 1)); l = r.randint(1, 3)
                for _ in range(r.randint(1, 12)):
                    if l > mx: break
                    K.add(pre + (l,))
                    l += r.choice([1, 1, 2, 3, 100, 255 - dim - 1, 255 - dim, 254 - dim, 256 - dim, 253, 254, 255, 256])
                if dim == 1 and len(K) >= min(n, 12): break
                if r.random() < .01: break
        elif st == "pos":       # change exactly one position, the ones behind it restart
            cur = [r.randint(1, max(1, mx // 2)) for _ in range(dim)]
            for _ in range(n):
                K.add(tuple(cur))
                d = r.randint(0, dim - 1)
                cur[d] = min(mx, cur[d] + r.choice([1, 1, 2, 7, 254, 255, 256]))
                if r.random() < .5:
                    for q in range(d + 1, dim): cur[q] = r.randint(1, mx)
        elif st == "few":
            v = [r.sample(range(1, mx + 1), min(mx, r.randint(1, 3))) for _ in range(dim)]
            for _ in range(3 * n):
                K.add(tuple(r.choice(q) for q in v))
                if len(K) >= n: break
        else:
            for _ in range(3 * n):
                K.add(tuple(r.randint(1, mx) for _ in range(dim)))
                if len(K) >= n: break
        return sorted(K)[:n]

    def widekeys(self, dim, n):
        """raw keys that need not be in the element table"""
        r = self.r
        pts = [1, 2, 255, 256, 257, 511, 512, 65535, 65536, 65537, 2 ** 16 + 300, 2 ** 24, 2 ** 30, INTMAX - 300, INTMAX - 1, INTMAX]
        K = set()
        for _ in range(n):
            K.add(tuple(min(INTMAX, max(1, r.choice(pts) + r.choice([-2, -1, 0, 0, 1, 2]))) for _ in range(dim)))
        return sorted(K)

    def content(self, nu=None, nsym=None, big=.1, dims=None, acr=True, style=None, odd=.3, typs=None, names=None):
        """labels and symbols (name, text, dim, type, userinfo, records)"""
        r = self.r
        nu = nu or r.choice([1, 2, 5, 12, 30, 60, 255, 256, 257, 300])
        L = self.labels(nu, style)
        syms = []
        for k in range(nsym or r.randint(1, 4)):
            d = r.choice(dims) if dims else self.dim()
            t = r.choice(typs) if typs else self.typ()
            ks = self.keys(d, self.nrec(big), nu)
            if d == 0 and r.random() < .3: ks = []
            nm = names[k] if names else "s%d" % k if r.random() < .7 else ("Sym_%d" % k + "z" * r.randint(0, 55))[:63]
            syms.append([nm, self.text(), d, t, self.ui(t), [[list(q), self.vals(t, odd, acr)] for q in ks]])
        return L, syms

    # ---------------------------------------------------------------- writing
    def reg(self, x, L, how="raw", nums=None):
        if how == "raw":
            self.e(x, "RegRawStart"); self.rep(x, "RegRaw", [[l] for l in L]); self.e(x, "RegDone")
        elif how == "str":
            self.e(x, "RegStrStart"); self.rep(x, "RegStr", [[l] for l in L]); self.e(x, "RegDone")
        else:
            self.e(x, "RegMapStart"); self.rep(x, "RegMap", [[n, l] for n, l in zip(nums, L)]); self.e(x, "RegDone")

    def usernums(self, n, mono=False):
        r = self.r
        q = r.random()
        if mono or q < .25: l = list(range(1, n + 1))
        elif q < .5: l = r.sample(range(1, n + 1), n)
        elif q < .75: l = r.sample(range(0, 3 * n + 10), n)
        else: l = sorted(r.sample(range(1, 3 * n + 1100), n))
        return l

    def wsym(self, x, sy, how, L, nums, shuffle=True, bounds=None, done=True, dom=None):
        nm, tx, d, t, ui, recs = sy
        recs = list(recs)
        if how == "kb":
            mn = [min([q[0][i] for q in recs] or [1]) for i in range(d)]
            mx = [max([q[0][i] for q in recs] or [1]) for i in range(d)]
            if self.r.random() < .5:
                mn = [max(0, m - self.r.choice([0, 1, 5])) for m in mn]; mx = [min(INTMAX, max(m, w + self.r.choice([0, 0, 254, 255, 256, 65535, 65536]))) for m, w in zip(mx, mn)]
            self.e(x, "WriteRawStartKB", nm, tx, d, t, ui, mn, mx)
            if dom: self.e(x, "SetDomain", dom)
            self.rep(x, "WriteRaw", recs)
        elif how == "raw":
            self.e(x, "WriteRawStart", nm, tx, d, t, ui)
            if dom: self.e(x, "SetDomain", dom)
            self.rep(x, "WriteRaw", recs)
        else:
            if shuffle and self.r.random() < .7: self.r.shuffle(recs)
            if how == "map":
                self.e(x, "WriteMapStart", nm, tx, d, t, ui)
                if dom: self.e(x, "SetDomain", dom)
                self.rep(x, "WriteMap", [[[nums[k - 1] for k in q[0]], q[1]] for q in recs])
            else:
                self.e(x, "WriteStrStart", nm, tx, d, t, ui)
                if dom: self.e(x, "SetDomain", dom)
                self.rep(x, "WriteStr", [[[L[k - 1] for k in q[0]], q[1]] for q in recs])
        if done: self.e(x, "WriteDone")

    def open_write(self, x, path, compr=None):
        if compr is None and self.r.random() < .6: self.e(x, "OpenWrite", path, "prod")
        else: self.e(x, "OpenWriteEx", path, "prod", self.r.choice([0, 1]) if compr is None else compr)

    def wfile(self, x, path, L, syms, how=None, compr=None, close=True, texts=True):
        r = self.r
        self.open_write(x, path, compr)
        nums = self.usernums(len(L))
        hows = [how] if how else r.choice([["raw"], ["str"], ["map"], ["kb"], ["raw", "str", "map", "kb"]])
        if "map" in hows:
            if r.random() < .5: self.reg(x, L, "raw")
            self.reg(x, L, "map", nums)
        else: self.reg(x, L, "raw")
        if texts:
            for _ in range(2): self.e(x, "AddSetText", self.text())
        for sy in syms:
            self.wsym(x, sy, r.choice(hows), L, nums)
        if close: self.e(x, "Close")
        return nums

    # ---------------------------------------------------------------- reading
    def info(self, x, ns, nu=0):
        self.e(x, "SysInfo"); self.e(x, "FileVersion")
        self.rep(x, "SymInfo", [[i] for i in range(0, ns + 2)])
        self.rep(x, "SymInfoX", [[i] for i in range(0, ns + 2)])
        if nu: self.rep(x, "UelGet", [[i] for i in range(1, nu + 2)])

    def rsym(self, x, i, how, n=100000):
        if how == "raw": self.e(x, "ReadRawStart", i); self.e(x, "Loop", "ReadRaw", n)
        elif how == "str": self.e(x, "ReadStrStart", i); self.e(x, "Loop", "ReadStr", n)
        elif how == "map": self.e(x, "ReadMapStart", i); self.e(x, "Loop", "ReadMap", n); self.e(x, "ReadDone")
        elif how == "exp": self.e(x, "ReadFiltStart", i, [-1] * 20); self.e(x, "Loop", "ReadMap", n); self.e(x, "ReadDone")
        elif how == "unm": self.e(x, "ReadFiltStart", i, [-2] * 20); self.e(x, "Loop", "ReadMap", n); self.e(x, "ReadDone")
        elif how == "fast": self.e(x, "Fast", i)
        elif how == "fastex": self.e(x, "FastEx", i, -1)
        elif how == "filt": self.e(x, "FastFilt", i, [""] * 20, -1)
        elif how == "slice":
            self.e(x, "SliceStart", i); self.e(x, "Slice", [""] * 20); self.e(x, "ReadDone")

    def partial(self, x, i):
        """begin a read and leave it in the middle"""
        r = self.r
        o = r.choice(["ReadRaw", "ReadStr"])
        self.e(x, o + "Start", i)
        self.e(x, "Loop", o, r.randint(1, 12))
        if r.random() < .5: self.e(x, "ReadDone")

    def noise(self, x, ops, p=.3):
        w = Wild.__new__(Wild); w.r = self.r; w.ev = self.ev
        while self.r.random() < p: w.wild(x, ops)


def S(fn):
    """wrap a generator function body(g) as script factory"""
    def make(seed, n):
        g = P(f"{fn.__name__}:{seed}", n)
        fn(g)
        return g.script(f"{fn.__name__}-{seed}-{n}")
    make.__name__ = fn.__name__
    return make


# ============================================================= C01
@S
def roundtrip(g):
    r = g.r
    g.start(("f1",))
    L, syms = g.content()
    if r.random() < .15: syms.append(["wide", "t", *(lambda d: (d, 1, 0, [[list(k), g.vals(1)] for k in g.widekeys(d, r.randint(1, 60))]))(r.choice([1, 1, 2, 3, 20]))])
    if syms[-1][0] == "wide":
        g.open_write(1, "f1"); g.reg(1, L)
        for sy in syms[:-1]: g.wsym(1, sy, r.choice(["raw", "str"]), L, None)
        g.wsym(1, syms[-1], r.choice(["raw", "kb"]), L, None)
        g.e(1, "Close")
    else: g.wfile(1, "f1", L, syms)
    g.e(1, "OpenRead", "f1")
    g.info(1, len(syms), len(L))
    order = list(range(1, len(syms) + 1))
    if r.random() < .3: r.shuffle(order)
    for i in order: g.rsym(1, i, r.choice(["raw", "raw", "str", "fast"]) if i != len(syms) or syms[-1][0] != "wide" else r.choice(["raw", "fastex", "str"]))
    g.e(1, "Close")


@S
def big(g):
    """symbols spanning several internal buffers, and long element tables"""
    r = g.r
    g.start(("f1",), env=r.choice([0, 1]))
    nu = r.choice([400, 1499, 1500, 1501, 1700])
    L = g.labels(nu, r.choice(["i", "long", "mixed"]))
    syms = []
    for k in range(r.randint(1, 3)):
        d = r.choice([1, 2, 3, 5, 20]); t = r.choice([0, 1, 2, 3])
        n = r.choice([300, 1200, 2500])
        ks = g.keys(d, n, nu)
        syms.append(["s%d" % k, g.text(), d, t, g.ui(t), [[list(q), g.vals(t, .1, False)] for q in ks]])
    g.wfile(1, "f1", L, syms)
    g.e(1, "OpenRead", "f1")
    g.info(1, len(syms), nu)
    for i in range(1, len(syms) + 1):
        if r.random() < .5: g.partial(1, r.randint(1, len(syms)))
        g.rsym(1, i, r.choice(["raw", "str", "fast"]))
    g.e(1, "Close")


@S
def hugerecs(g):
    """more records than 16 bits count"""
    r = g.r
    g.start(("f1",), env=r.choice([0, 1]))
    nu = 270
    g.open_write(1, "f1"); g.reg(1, ["u%d" % k for k in range(1, nu + 1)])
    ks = [(a, b) for a in range(1, nu + 1) for b in range(1, nu + 1) if (a * 7 + b) % 11]
    ks = ks[:r.choice([65534, 65535, 65536, 65537, len(ks)])]
    if r.random() < .6: r.shuffle(ks)
    else: ks.reverse()
    V = [[tok(float(v))] for v in (0, 1, 2.5, -1, 1e300)]
    t = r.choice([0, 1])
    g.e(1, "WriteRawStart", "p", "", 2, t, g.ui(t)); g.rep(1, "WriteRaw", [[list(k), r.choice(V[:1] if t == 0 else V)] for k in ks]); g.e(1, "WriteDone")
    g.e(1, "WriteRawStart", "q", "", 1, 1, 0); g.rep(1, "WriteRaw", [[[3], V[1]]]); g.e(1, "WriteDone")
    g.e(1, "Close"); g.e(1, "OpenRead", "f1"); g.e(1, "SymInfoX", 1); g.rsym(1, 2, "raw"); g.rsym(1, 1, r.choice(["raw", "fast", "str"])); g.rsym(1, 2, "raw"); g.e(1, "Close")


@S
def wideunsorted(g):
    """key widths when the largest key of a dimension comes first, last or in the middle of an unsorted write"""
    r = g.r
    g.start(("f1",), env=r.choice([0, 1]))
    nu = r.choice([256, 257, 258, 300, 600])
    lims = [255, 256, 257]
    L = ["u%d" % k for k in range(1, nu + 1)]
    num = list(range(1, nu + 1))
    maps = r.random() < .5
    g.open_write(1, "f1")
    if maps:
        if r.random() < .5: num = g.usernums(nu)
        g.reg(1, L, "map", num)
    else: g.reg(1, L)
    nsym = r.randint(1, 3)
    for k in range(nsym):
        d = r.choice([1, 1, 2, 3, 5, 20]); t = r.choice([0, 1, 1, 2])
        ks = []
        for _ in range(r.randint(1, 8)):
            ks.append(tuple(min(nu, max(1, r.choice(lims + [1, 2, 3, nu, r.randint(1, nu)]))) for _ in range(d)))
        ks = list(dict.fromkeys(ks))
        o = r.random()
        if o < .4: ks.sort(reverse=True)
        elif o < .6: ks.sort()
        ui = g.ui(t)
        if maps and r.random() < .7:
            g.e(1, "WriteMapStart", "s%d" % k, "", d, t, ui)
            g.rep(1, "WriteMap", [[[num[x - 1] for x in q], g.vals(t)] for q in ks])
        else:
            g.e(1, "WriteStrStart", "s%d" % k, "", d, t, ui)
            g.rep(1, "WriteStr", [[[L[x - 1] for x in q], g.vals(t)] for q in ks])
        g.e(1, "WriteDone")
    g.e(1, "ErrCount"); g.e(1, "Close")
    g.e(1, "OpenRead", "f1")
    g.info(1, nsym, 3)
    for i in range(1, nsym + 1): g.rsym(1, i, r.choice(["raw", "str", "fast"]))
    g.e(1, "Close")


# ============================================================= C02
@S
def ifaces(g):
    r = g.r
    g.start(("f1", "f2", "f3", "f4"))
    L, syms = g.content(nu=r.choice([2, 5, 9, 30, 70, 260]), nsym=r.randint(1, 3), acr=False)
    if r.random() < .3: r.shuffle(L)
    for p, how in zip(("f1", "f2", "f3", "f4"), ("raw", "map", "str", "kb")):
        if r.random() < .25: continue
        g.wfile(1, p, L, syms, how)
    for p in r.sample(["f1", "f2", "f3", "f4"], 3):
        g.e(1, "OpenRead", p)
        if r.random() < .7:
            k = r.randint(0, len(L)); idx = r.sample(range(len(L)), k)
            new = ["new_%d" % j for j in range(r.choice([0, 0, 1, 3]))]     # elements the file does not have
            g.reg(1, [L[j] for j in idx] + new, "map", g.usernums(k + len(new)))
            if new: g.rsym(1, 0, r.choice(["raw", "str", "map", "fast", "fastex"]))
        for _ in range(r.randint(2, 7)):
            i = r.randint(0 if r.random() < .3 else 1, len(syms))
            how = r.choice(["raw", "str", "map", "exp", "unm", "fast", "fastex", "filt", "slice", "part", "ff", "sl", "dom", "mixed"])
            d = syms[i - 1][2] if i else 1
            recs = syms[i - 1][5] if i else []
            lab = lambda j: (L[r.choice(recs)[0][j] - 1] if recs and r.random() < .8 else r.choice(L))
            def filt():
                if recs and r.random() < .5:        # (nearly) all positions of one record, perhaps with another label somewhere
                    k = r.choice(recs)[0]
                    f = [L[k[j] - 1] if r.random() < .93 else "" for j in range(d)]
                    if d and r.random() < .4: f[r.randint(0, d - 1)] = r.choice(L)
                else: f = [(lab(j) if r.random() < .5 else "") for j in range(d)]
                return f + [""] * (20 - d)
            if how == "part": g.partial(1, i)
            elif how == "mixed": g.e(1, "ReadFiltStart", i, [r.choice([-2, -1, 0]) for _ in range(20)]); g.e(1, "Loop", "ReadMap", 100000)
            elif how == "ff": g.e(1, "FastFilt", i, filt(), r.choice([-1, -1, 1, 3]))
            elif how == "sl":
                g.e(1, "SliceStart", i)
                if r.random() < .4: g.rep(1, "SliceUels", [[[r.randint(-1, 6) for _ in range(20)]] for _ in range(2)])
                for _ in range(r.randint(1, 3)):
                    g.e(1, "Slice", filt()); g.rep(1, "SliceUels", [[[r.randint(-1, 6) for _ in range(20)]] for _ in range(2)])
                g.e(1, "ReadDone")
            elif how == "dom":
                if i and d: g.e(1, "DomElems", i, r.randint(1, d), -1, r.choice([0, 1]))
            elif how == "fastex" and r.random() < .4: g.e(1, "FastEx", i, r.randint(1, 5))
            else: g.rsym(1, i, how)
        g.e(1, "ReadDone")
        for i in range(1, len(syms) + 1): g.rsym(1, i, r.choice(["raw", "str", "fastex"]))
        g.e(1, "Close")


# ============================================================= C03
@S
def buffers(g):
    """the same content with and without compression; sizes and alignments around the internal buffer size"""
    r = g.r
    g.start(("f1", "f2"), env=r.choice([0, 1]))
    L, syms = g.content(nu=r.choice([5, 30, 260]), nsym=r.randint(1, 3))
    # one symbol of a size close to a multiple of the buffer size, with a random number of bytes in front of it
    m = r.choice([0, 1, 1, 2])
    target = 32768 * m + r.choice([-600, -64, -20, -10, -9, -5, -1, 0, 1, 2, 5, 9, 17, 100, 1000])
    d = r.choice([1, 1, 2, 3]); t = r.choice([1, 1, 2])
    per = (1 + 9 * (5 if t == 2 else 1)) if r.random() < .7 else None
    n = min(4000, max(1, target // per)) if m and per else r.randint(0, 50)
    off = r.randint(0, 12)
    rv = lambda: tok(r.random()) if r.random() < .97 else r.choice([tok(0.0), tok(1.0), SVD[1]])
    nv = 5 if t == 2 else 1
    recs = [[[1] * (d - 1) + [off + k + 1], [rv() for _ in range(nv)]] for k in range(n)]
    syms.insert(r.randint(0, len(syms)), ["big", "b" * r.randint(0, 255), d, t, g.ui(t), recs])
    order = list(range(1, len(syms) + 1)) + [r.randint(1, len(syms)) for _ in range(3)]
    r.shuffle(order)
    hows = [r.choice(["raw", "fast", "fastex", "part", "part"]) for _ in order]
    comm = [[r.randint(1, len(syms)), "c" * r.randint(0, 255)] for _ in range(r.randint(0, 4))]
    for p, c in (("f1", 0), ("f2", 1)):
        g.open_write(1, p, c)
        g.reg(1, L)
        for sy in syms: g.wsym(1, sy, "raw", L, None)
        g.rep(1, "AddComment", comm)
        g.e(1, "Close")
    st = r.getstate()
    for p in ("f1", "f2"):
        r.setstate(st)
        g.e(1, "OpenRead", p)
        g.info(1, len(syms), min(len(L), 10))
        for i, h in zip(order, hows):
            if h == "part": g.partial(1, i)
            else: g.rsym(1, i, h)
        g.e(1, "ReadDone")
        for i in range(1, len(syms) + 1): g.e(1, "Fast", i)
        g.rep(1, "GetComment", [[i, k] for i in range(1, len(syms) + 1) for k in range(1, 4)])
        g.e(1, "Close")


# ============================================================= C05
def _errs(g, x, n=13):
    g.e(x, "DataErrCount")
    g.rep(x, g.r.choice(["DataErrRec", "DataErrRecX"]), [[i] for i in range(0, n)])
    g.e(x, "ErrCount"); g.e(x, "LastError")


@S
def dups(g):
    r = g.r
    g.start(("f1",))
    nu = r.choice([1, 2, 3, 5, 300])
    L = g.labels(nu)
    g.open_write(1, "f1")
    g.reg(1, L)
    nums = g.usernums(nu)
    g.reg(1, L, "map", nums)
    ns = r.randint(1, 4)
    for s in range(ns):
        d = r.choice([0, 1, 1, 2, 2, 3, 4, 20]); t = g.typ(); how = r.choice(["Raw", "Map", "Str"])
        if r.random() < .15 and how == "Raw":
            # a domain-checked symbol with duplicates
            pass
        g.e(1, f"Write{how}Start", "s%d" % s, g.text(), d, t, g.ui(t))
        n = r.choice([0, 1, 2, 5, 12, 30, 60])
        base = sorted([r.randint(1, nu) for _ in range(d)] for _ in range(n))
        if d == 1 and nu < n and r.random() < .5: base = base[:nu]
        q = r.random()
        if q < .25: r.shuffle(base)                                        # no order at all
        elif q < .6:
            for _ in range(r.randint(0, 4)):
                if len(base) > 1: i = r.randrange(len(base)); base.insert(min(len(base), i + r.choice([0, 1, 1, 2, 5])), list(base[i]))   # repeats near and far
        elif q < .8 and len(base) > 2: i = r.randrange(len(base)); base.append(base.pop(i))
        args = []
        for k in base:
            kk = k if how == "Raw" else [nums[i - 1] for i in k] if how == "Map" else [L[i - 1] for i in k]
            args.append([kk, g.vals(t, .3)])
        cut = r.randint(0, len(args))
        g.rep(1, "Write" + how, args[:cut])
        if r.random() < .3: _errs(g, 1, 5)
        g.rep(1, "Write" + how, args[cut:])
        if r.random() < .9: _errs(g, 1) if r.random() < .4 else None
        g.e(1, "WriteDone")
        _errs(g, 1)
    g.e(1, "Close")
    if len(g.ev) < 400 and r.random() < .3: g.e(0, "Dump", "f1")           # the number of errors is kept with the symbol in the file
    g.e(1, "OpenRead", "f1")
    g.info(1, ns)
    for i in range(1, ns + 1): g.rsym(1, i, r.choice(["raw", "str"]))
    g.e(1, "Close")


# ============================================================= C06
@S
def domains(g):
    r = g.r
    g.start(("f1", "f2"))
    nu = r.choice([2, 3, 5, 9, 17, 70])
    L = g.labels(nu, r.choice(["i", "i", "mixed"]))
    if r.random() < .15: g.e(1, "SetStoreDomSets", 0)
    if r.random() < .25: g.e(1, "SetAllowBogus", 0)
    g.open_write(1, "f1")
    early = r.randint(0, nu) if r.random() < .3 else nu
    g.reg(1, L[:early])
    nums = g.usernums(nu)
    g.reg(1, L, "map", nums)
    defd = []   # names that might serve as domains
    ns = 0
    def wr(nm, d, t, n, dom=None):
        nonlocal ns
        how = r.choice(["Raw", "Map", "Str"])
        g.e(1, f"Write{how}Start", nm, "t", d, t, g.ui(t)); ns += 1
        if dom: g.e(1, "SetDomain", dom + ["*"] * (20 - len(dom)))
        ks = [[r.randint(1, nu) for _ in range(d)] for _ in range(n)]
        ks = sorted(ks) if how == "Raw" else ks
        if d and r.random() < .7: ks = [list(q) for q in dict.fromkeys(tuple(q) for q in ks)]
        g.rep(1, "Write" + how, [[k if how == "Raw" else [nums[i - 1] for i in k] if how == "Map" else [L[i - 1] for i in k], g.vals(t, .2, False)] for k in ks])
        g.e(1, "WriteDone"); _errs(g, 1)
    for s in range(r.randint(1, 3)):
        nm = "set%d" % s
        dom = None
        if r.random() < .4 and defd: dom = [r.choice(defd)]
        elif r.random() < .2: dom = [nm]
        wr(nm, r.choice([1, 1, 1, 1, 2]), 0, r.randint(0, nu), dom); defd.append(nm)
        if r.random() < .2: g.e(1, "SetStoreDomSets", r.choice([0, 1]))
        if r.random() < .4: g.e(1, "AddAlias", r.choice(defd + ["*"]), "al%d" % s); defd.append("al%d" % s); ns += 1
        if r.random() < .15: g.e(1, "AddAlias", "alal%d" % s, r.choice(defd)); defd.append("alal%d" % s); ns += 1
    for s in range(r.randint(1, 4)):
        d = r.choice([1, 1, 2, 2, 3, 5])
        dom = [r.choice(defd + ["*"]) if r.random() < .93 else r.choice(["nope", "p0", "SET0", ""]) for _ in range(d)]
        nm = "p%d" % s
        wr(nm, d, r.choice([0, 1, 1, 2]), r.choice([0, 1, 3, 10, 20]), dom)
        if d == 1 and r.random() < .3: defd.append(nm)
        if r.random() < .2: g.e(1, "SetDomainX", r.randint(1, ns), [r.choice(["dom1", "set0", "*", "x y"]) for _ in range(20)])
        g.rep(1, "GetDomain", [[i] for i in range(0, ns + 2)]); g.rep(1, "GetDomainX", [[i] for i in range(0, ns + 2)])
    g.e(1, "Close")
    if r.random() < .4:   # domains of the first session are known by name in a second one, without membership data
        g.e(1, "OpenAppend", "f1", "app")
        g.reg(1, L, "map", nums)
        wr("ap1", 2, 1, 5, [r.choice(defd), r.choice(defd)])
        wr("ap2", 1, 0, 4, [r.choice(defd)]); wr("ap3", 2, 1, 5, ["ap2", r.choice(defd)])
        g.e(1, "Close")
    g.e(1, "OpenRead", "f1")
    g.info(1, ns + 1)
    for i in range(1, ns + 2): g.rsym(1, i, r.choice(["raw", "str"]))
    g.rep(1, "GetDomain", [[i] for i in range(0, ns + 2)]); g.rep(1, "GetDomainX", [[i] for i in range(0, ns + 2)])
    g.e(1, "Close")


# ============================================================= C07
def _dumped(name, seed, n, maxlen=60000):
    """a script of another profile that also looks at the bytes of every file it has written"""
    sc = globals()[name](seed, n)
    out, cur = [], {}
    for e in sc["ev"]:
        if e["o"] in ("OpenWrite", "OpenWriteEx", "OpenAppend"): cur[e["x"]] = e["a"][0]
        if e["o"] in ("OpenRead", "OpenReadEx"): cur.pop(e["x"], None)
        out.append(e)
        if e["o"] in ("Close", "Destroy") and cur.get(e["x"]):
            out.append(dict(x=0, o="Dump", a=[cur.pop(e["x"])]))
    return dict(id="dump-" + str(sc["id"]), ev=out)


def dump_roundtrip(seed, n): return _dumped("roundtrip", seed, n)
def dump_metadata(seed, n): return _dumped("metadata", seed, n)
def dump_values(seed, n): return _dumped("values", seed, n)
def dump_acronyms(seed, n): return _dumped("acronyms", seed, n)
def dump_append(seed, n): return _dumped("append", seed, n)
def dump_settexts(seed, n): return _dumped("settexts", seed, n)
def dump_domains(seed, n): return _dumped("domains", seed, n)
def dump_wild(seed, n): return _dumped("wild", seed, n)
def dump_uels(seed, n): return _dumped("uels", seed, n)


def wild(seed, n): return wild_script("c" + str(seed), n)
def wildquiet(seed, n): return wild_script("q" + str(seed), n, noise=.15, sessions=5)
def wildnoisy(seed, n): return wild_script("n" + str(seed), n, noise=.6, sessions=3)


# ============================================================= C08
def _labelset(g):
    r = g.r
    q = r.random()
    if q < .4: return [s for l in r.sample(COLLIDE, 2) for s in l]
    if q < .7: return ["i%d" % k for k in range(1, 40)]
    return g.labels(30, "mixed")


def _variant(r, l):
    q = r.random()
    if q < .15: return l.upper()
    if q < .3: return l.swapcase()
    if q < .4: return l + " " * r.randint(1, 3)
    if q < .45: return " " + l
    if q < .5: return l + r.choice(["x", "_", "1"])
    return l


@S
def uels(g):
    r = g.r
    g.start(("f1",))
    L = _labelset(g)
    pool = L + [r.choice(ODDLABELS) for _ in range(4)] + [rstr(r) for _ in range(3)]
    any_ = lambda: _variant(r, r.choice(pool))
    def ops(reg):
        for _ in range(r.randint(1, 12)):
            q = r.random()
            if q < .5 and reg: g.rep(1, reg, [([r.randint(1, 60)] if reg == "RegMap" else []) + [any_()] for _ in range(r.randint(1, 12))])
            elif q < .65: g.e(1, "RenameUel", any_(), r.choice([any_(), "new%d" % r.randint(1, 9), r.choice(ODDLABELS), rstr(r)]))
            elif q < .8: g.rep(1, "FindUel", [[any_()] for _ in range(6)])
            elif q < .9: g.rep(1, "UelGet", [[r.randint(-1, 45)] for _ in range(6)])
            else: g.e(1, r.choice(["SysInfo", "UelMaxLen", "UelInfo"]))
    g.open_write(1, "f1")
    for _ in range(r.randint(1, 4)):
        k = r.choice(["Raw", "Raw", "Str", "Map", "sym", None])
        if k == "sym":
            g.e(1, "WriteStrStart", "s%d" % len(g.ev), "", 2, 1, 0)
            g.rep(1, "WriteStr", [[[any_(), any_()], [tok(1.0)]] for _ in range(r.randint(1, 8))])
            ops(None)
            g.rep(1, "WriteStr", [[[any_(), any_()], [tok(2.0)]] for _ in range(r.randint(1, 8))])
            for m in range(r.randint(0, 4)):
                a, b = any_(), any_(); new = "mid%d_%d" % (len(g.ev), m)
                g.e(1, "WriteStr", [a, b], [tok(3.0)])
                g.e(1, "RenameUel", r.choice([a, b]), r.choice([new, new, a, b, any_()]))
                g.e(1, "WriteStr", r.choice([[a, b], [a, any_()], [any_(), b], [new, b], [a, new]]), [tok(4.0)])
            g.e(1, "WriteDone")
        elif k is None: ops(None)
        else:
            g.e(1, f"Reg{k}Start"); ops("Reg" + k); g.e(1, "RegDone")
    chk = lambda: (g.rep(1, "UelGet", [[i] for i in range(0, 62)]), g.rep(1, "FindUel", [[l] for l in L] + [["new%d" % i] for i in range(1, 10)]))
    chk()
    g.e(1, "Close")
    g.e(1, "OpenRead", "f1")
    chk()
    for i in range(1, 4): g.rsym(1, i, "str")
    ops(None)
    if r.random() < .5:
        g.e(1, "RegMapStart"); ops("RegMap"); g.e(1, "RegDone")
    chk()
    for i in range(1, 4): g.rsym(1, i, r.choice(["str", "map", "filt"]))
    g.e(1, "Close")
    if r.random() < .5:
        g.e(1, "OpenAppend", "f1", "app"); ops(None)
        g.e(1, "RegRawStart"); ops("RegRaw"); g.e(1, "RegDone"); g.e(1, "Close")
        g.e(1, "OpenRead", "f1"); chk(); g.e(1, "Close")


def hugeuels(seed, n):
    g = P("hugeuels" + str(seed), n)
    _manyuels(g, 15000 + g.r.choice([1, 2, 60]), 15000 - g.r.choice([0, 1, 40]))
    return dict(id=f"hugeuels-{seed}-{n}", ev=g.ev)


@S
def manyuels(g):
    """growth of the element table over the rehash limits, with renames and lookups in between"""
    _manyuels(g, g.r.choice([1495, 1500, 1505, 3000]), g.r.choice([1490, 1499, 1500, 700]))


def _manyuels(g, n, cut):
    r = g.r
    g.start(("f1",))
    L = ["%s%d" % (r.choice(["e", "El", "x_"]), k) for k in range(n)]
    g.open_write(1, "f1")
    g.e(1, "RegRawStart")
    g.rep(1, "RegRaw", [[l] for l in L[:cut]])
    g.rep(1, "FindUel", [[_variant(r, r.choice(L))] for _ in range(30)])
    ren = []
    for k in range(r.randint(0, 6)):
        a, b = r.choice(L), "ren%d" % k
        ren += [a, b]; g.e(1, "RenameUel", a, b)
    g.rep(1, "RegRaw", [[l] for l in L[cut:]])
    g.e(1, "RegDone")
    q = [[_variant(r, r.choice(L))] for _ in range(60)] + [[x] for x in ren]
    g.rep(1, "FindUel", q); g.e(1, "SysInfo")
    for k in range(r.randint(0, 4)): g.e(1, "RenameUel", r.choice(L), "rr%d" % k)
    g.rep(1, "RegRaw", [["x"]])
    g.e(1, "Close")
    g.e(1, "OpenRead", "f1")
    g.rep(1, "UelGet", [[i] for i in range(1, n + 8)])
    for k in range(r.randint(0, 4)): g.e(1, "RenameUel", r.choice(L), "r3%d" % k)
    g.rep(1, "FindUel", q + [["rr%d" % k] for k in range(4)] + [["r3%d" % k] for k in range(4)]); g.e(1, "UelMaxLen")
    g.e(1, "Close")


# ============================================================= C09
@S
def usermap(g):
    r = g.r
    g.start(("f1",))
    L = g.labels(12, r.choice(["i", "mixed", "collide"]))
    g.open_write(1, "f1")
    def reg(modes):
        k = r.choice(modes)
        g.e(1, f"Reg{k}Start")
        for _ in range(r.randint(0, 8)):
            l = _variant(r, r.choice(L)) if r.random() < .95 else r.choice(ODDLABELS + [rstr(r)])
            if k == "Map": g.e(1, "RegMap", r.choice([0, 1, 2, 3, 5, 7, 7, 20, 1023, 1024, 1025, 5000, -1] if r.random() < .4 else list(range(1, 15))), l)
            else: g.e(1, "Reg" + k, l)
            if r.random() < .3: g.rep(1, r.choice(["GetUel", "UelGet"]), [[r.choice([0, 1, 2, 3, 5, 7, 20, 1023, 1024, 5000, 5001, -1])] for _ in range(3)])
            if r.random() < .2: g.e(1, "FindUel", _variant(r, r.choice(L)))
        g.e(1, "RegDone"); g.e(1, "UelInfo")
    def chk():
        g.rep(1, "UelGet", [[i] for i in range(0, 16)]); g.rep(1, "GetUel", [[i] for i in list(range(-1, 24)) + [1023, 1024, 1025, 5000, 5001]])
        g.rep(1, "FindUel", [[l] for l in L]); g.e(1, "UelInfo")
    for _ in range(r.randint(1, 4)): reg(["Raw", "Map", "Map", "Str"])
    chk()
    for how in r.sample(["Map", "Str", "Raw"], 2):
        g.e(1, f"Write{how}Start", "s" + how, "", 1, 1, 0)
        keys = {"Map": list(range(0, 12)) + [1023, 1024, 5000], "Str": L, "Raw": list(range(1, 12))}[how]
        ks = r.sample(keys, min(6, len(keys)))
        g.rep(1, "Write" + how, [[[k], [tok(1.0)]] for k in (sorted(ks) if how == "Raw" else ks)])
        g.e(1, "WriteDone")
    if r.random() < .3: reg(["Map", "Str"])
    chk()
    g.e(1, "Close")
    g.e(1, "OpenRead", "f1")
    chk()
    for _ in range(r.randint(0, 3)): reg(["Map", "Map", "Str"])
    chk()
    for i in (1, 2): g.rsym(1, i, r.choice(["map", "exp", "str"]))
    if r.random() < .5: g.e(1, "DomElems", r.choice([1, 2]), 1, -1, 1)
    if r.random() < .3: g.e(1, "RenameUel", r.choice(L), r.choice(L + ["zz"]))
    for _ in range(r.randint(0, 2)): reg(["Map", "Str"])
    chk()
    g.e(1, "Close")


# ============================================================= C10
@S
def filtered(g):
    r = g.r
    g.start(("f1",))
    nu = r.choice([2, 3, 5, 8, 12, 60])
    L, syms = g.content(nu=nu, nsym=r.randint(1, 3), dims=[0, 1, 1, 2, 2, 3, 3, 5], acr=False, style=r.choice(["i", "collide"]))
    if r.random() < .2: syms.append(["w", "", 2, 1, 0, [[[k, k + 1], [tok(1.0)]] for k in sorted(r.sample(range(1, nu + 6), 2))]])
    g.open_write(1, "f1"); g.reg(1, L)
    for sy in syms: g.wsym(1, sy, "raw", L, None)
    if r.random() < .3: g.e(1, "AddAlias", syms[0][0], "al")
    g.e(1, "Close")
    g.e(1, "OpenRead", "f1")
    nf = []
    for rd in range(r.randint(1, 3)):
        k = r.randint(0, nu)
        idx = r.sample(range(nu), k)
        if r.random() < .4: idx.sort()
        q = r.random()
        nums = sorted(r.sample(range(1, 3 * nu + 2), k)) if q < .4 else r.sample(range(1, 3 * nu + 2), k)
        g.e(1, "RegMapStart"); g.rep(1, "RegMap", [[a, L[j]] for a, j in zip(nums, idx)]); g.e(1, "RegDone")
        for f in range(r.randint(0, 2)):
            fn = r.choice([1, 2, 3])
            g.e(1, "FiltStart", fn)
            g.rep(1, "FiltReg", [[v] for v in (r.sample(nums, r.randint(0, k)) + ([r.choice([0, -1, 1, 2, 500])] if r.random() < .2 else []))])
            g.e(1, "FiltDone"); nf.append(fn)
            if r.random() < .3: g.e(1, "FiltExists", r.choice([1, 2, 3]))
        for _ in range(r.randint(1, 5)):
            i = r.randint(0 if r.random() < .2 else 1, len(syms) + 1)
            acts = [-2, -1, 0] + nf * 2 + ([9] if r.random() < .05 else [])
            st = r.random()
            a = [r.choice(acts)] * 20 if st < .4 else [r.choice(acts) for _ in range(20)]
            if r.random() < .15: g.e(1, "ReadMapStart", i)
            else: g.e(1, "ReadFiltStart", i, a)
            full = r.random() < .8
            # a mapped read is not resumed after an unusable key: read at most up to the end
            g.e(1, "Loop", "ReadMap", 100000 if full else r.randint(1, 4))
            if r.random() < .6: g.e(1, "DataErrCount"); g.rep(1, "DataErrRecX", [[j] for j in range(0, 6)])
            g.e(1, "ReadDone"); g.e(1, "UelInfo")
            if r.random() < .3: g.rep(1, "UelGet", [[j] for j in range(1, nu + 1)])
            if r.random() < .3 and i and i <= len(syms) and syms[i - 1][2]:
                g.e(1, "DomElems", i, r.randint(1, syms[i - 1][2]), r.choice([-1] + nf), r.choice([0, 1]))
                g.e(1, "DataErrCount"); g.rep(1, "DataErrRecX", [[j] for j in range(0, 6)])
    g.e(1, "Close")


# ============================================================= C11
@S
def values(g):
    r = g.r
    g.start(("f1",))
    import struct as st
    def v():
        q = r.random()
        if q < .35: return g.val(1.0, False)
        if q < .6:
            b = r.getrandbits(64)
            d = st.unpack(">d", st.pack(">Q", b))[0]
            if d == d and d >= 9.9e300: return tok(1.5)   # acronym range is C12's
            return "%016X" % b
        if q < .8: # neighbours of special values and of values with one-byte codes
            base = r.choice(SVD + [tok(0.0), tok(1.0), tok(-1.0), tok(.5), tok(2.0)])
            return "%016X" % ((int(base, 16) + r.choice([-2, -1, 0, 1, 2])) % 2 ** 64)
        return tok(float(r.randint(-300, 70000)))
    custom = [tok(x) for x in (-1.0, -2.0, -99.0, 1.0, 0.5, 7.0, 1e-300, -1e300, 123456.75, 0.0)] + SVD + [INF, NINF, NAN, tok(2 ** -1074), "8000000000000000"]
    # a not-a-number as special value compares unequal to itself; settings use ordinary values and infinities
    usable = [c for c in custom if c not in (NAN,)]
    def sv():
        l = r.sample(usable, 5)
        if r.random() < .12: i, j = r.sample(range(5), 2); l[i] = l[j]     # refused: the settings must tell the values apart
        return l
    pool = [v() for _ in range(30)]
    setw = sv() if r.random() < .6 else None
    if r.random() < .2: g.e(1, "SetSV", sv())      # before the file is open: reset by opening
    g.open_write(1, "f1")
    if setw:
        g.e(1, "SetSV", setw); pool += setw * 2
        if r.random() < .3: g.e(1, "GetSV")
        if r.random() < .15: g.e(1, "SetSV", [setw[0]] * 2 + setw[2:])
        if r.random() < .2: g.e(1, "ResetSV")
        if r.random() < .3: g.rep(1, "MapValue", [[x] for x in r.sample(pool, 8)])
    else: pool += SVD * 2
    ns = r.randint(1, 3)
    for s in range(ns):
        t = r.choice([1, 2, 3, 1, 0]); d = r.choice([0, 1, 1, 2])
        g.e(1, "WriteRawStart", "s%d" % s, "", d, t, g.ui(t))
        n = r.choice([0, 1, 1]) if d == 0 else r.choice([1, 5, 20])
        nv = 5 if t in (2, 3) else 1
        mk = (lambda: [r.choice(pool) for _ in range(nv)]) if t else (lambda: [tok(float(r.randint(0, 3)))])
        for k in range(n):
            g.e(1, "WriteRaw", [1] * (d - 1) + [k + 1] if d else [], mk())
            if r.random() < .05: setw = sv(); g.e(1, "SetSV", setw); pool += setw
            if r.random() < .02: g.e(1, "SetReadSV", sv())
        g.e(1, "WriteDone")
    g.e(1, "Close")
    for _ in range(2):
        g.e(1, "OpenRead", "f1")
        q = r.random()
        if q < .3: g.e(1, "SetSV", sv())
        elif q < .6: g.e(1, "SetReadSV", sv())
        g.e(1, "GetSV")
        for i in range(1, ns + 1):
            g.rsym(1, i, r.choice(["raw", "str", "fast"]))
            if r.random() < .3: g.e(1, r.choice(["SetSV", "SetReadSV"]), sv()); g.rsym(1, i, "raw")
            if r.random() < .2: g.e(1, "ResetSV"); g.rsym(1, i, "fast")
        g.rep(1, "MapValue", [[x] for x in r.sample(pool, 8)])
        g.e(1, "Close")


# ============================================================= C12
@S
def acronyms(g):
    r = g.r
    g.start(("f1", "f2"))
    # acronym numbers: small ones, and in some scripts ones whose multiple of 1e301 divided by 1e301 is not the number again
    ix = list(range(10))
    if r.random() < .35: ix = [0] + r.sample([1, 2, 3, 9, 53, 106, 211, 212, 213, 337, 339, 341, 422, 255, 256, 500], 9)
    def nm(): return r.choice(["acr1", "ACR1", "acr2", "acr3", "acr4", "s0", "x y", "9z", "a" * 63] if r.random() < .3 else ["acr%d" % k for k in range(1, 9)])
    def vals(t): return [r.choice([ACR[ix[r.randint(1, 9)]], ACR[ix[r.randint(1, 9)]], tok(1.0), tok(2.5), SVD[r.randint(0, 4)], tok(9.9e300), tok(0.0)]) for _ in range(5 if t in (2, 3) else 1)]
    q8 = lambda x: (g.e(x, "AcrCount"), g.rep(x, "AcrGetInfo", [[i] for i in range(0, 12)]), g.rep(x, "AcrGetMap", [[i] for i in range(0, 12)]),
                    g.rep(x, "AcrName", [[ACR[i]] for i in list(range(1, 12)) + ix[1:]] + [[ACR[31]], [ACR[41]], [tok(1.0)]]))
    for p in ("f1", "f2"):
        g.open_write(1, p)
        def defs(k):
            for _ in range(r.randint(0, k)):
                if r.random() < .7: g.e(1, "AcrAdd", nm(), g.text(), ix[r.randint(1, 9)])
                else: g.e(1, "AcrSetInfo", r.randint(0, 6), nm(), g.text(), ix[r.randint(1, 9)])
        defs(4)
        for s in range(r.randint(1, 3)):
            t = r.choice([1, 1, 2, 3]); d = r.choice([0, 1, 2])
            how = r.choice(["Raw", "Str"])
            g.e(1, f"Write{how}Start", "s%d" % s, "", d, t, g.ui(t))
            for k in range(1 if d == 0 else r.randint(1, 5)):
                g.e(1, "Write" + how, [(k + 1 if how == "Raw" else "i%d" % (k + 1)) if j == d - 1 else (1 if how == "Raw" else "i1") for j in range(d)], vals(t))
                if r.random() < .1: defs(1)
            g.e(1, "WriteDone")
            defs(1)
        if r.random() < .5:
            for k in r.sample(range(1, 7), 4): g.e(1, "AcrSetInfo", k, "acr%d" % k, g.text(), ix[r.randint(1, 9)])
        q8(1)
        g.e(1, "Close")
        if r.random() < .3:
            g.e(1, "OpenAppend", p, "app"); defs(2)
            g.e(1, "WriteRawStart", "ap", "", 1, 1, 0); g.e(1, "WriteRaw", [1], vals(1)); g.e(1, "WriteDone"); q8(1); g.e(1, "Close")
    for _ in range(r.randint(1, 3)):
        if r.random() < .3: g.e(1, "AcrNextNr", r.choice([0, 30, 40, -1]))
        if r.random() < .2: g.e(1, "SetAcrNaN", r.choice([0, 1]))
        g.e(1, "OpenRead", r.choice(["f1", "f2"]))
        for _ in range(r.randint(1, 5)):
            q = r.random()
            if q < .3:
                for _ in range(r.randint(1, 4)):
                    k = r.randint(0, 6)
                    g.e(1, "AcrSetInfo", k, nm() if r.random() < .2 else "acr%d" % k, g.text(), r.choice([1, 2, 3, 11, 12, 13, 30, 31, 32, 40, 41, 42, 50, 51] + ix[1:4]))
            elif q < .4: g.e(1, "AcrNextNr", r.choice([0, 30, 40, 50]))
            elif q < .45: g.e(1, "AcrAdd", nm(), "", r.randint(1, 12))
            elif q < .5: g.e(1, "SetAcrNaN", r.choice([0, 1]))
            elif q < .55: g.e(1, "SetReadSV", [tok(float(k)) for k in (-1, -2, -3, -4, -5)])
            else: g.rsym(1, r.randint(1, 4), r.choice(["raw", "str", "fast", "exp", "fastex"]))
        q8(1)
        g.e(1, "Close")
    g.rep(1, "AcrIndex", [[ACR[i]] for i in [1, 5, 12] + ix[1:]] + [[SVD[0]], [tok(1.0)]]); g.rep(1, "AcrValue", [[i] for i in [-1, 0, 1, 5, 12] + ix[1:]])


# ============================================================= C13
@S
def settexts(g):
    r = g.r
    g.start(("f1",))
    nt = r.choice([1, 3, 10, 40, 300]) if r.random() < .9 else 1600
    style = r.choice(["n", "odd", "case", "long", "coll"])
    def tx(k):
        if style == "odd": return r.choice(TEXTS) if r.random() < .6 else rstr(r, r.choice([1, 2, 3, 4, 6, 9, 30, 254, 255, 256, 257]))
        if style == "case": return r.choice(["Text", "TEXT", "text", "tExt", "Text "]) + str(k % 5)
        if style == "long": return ("long%d " % k) * r.randint(1, 60)
        if style == "coll": return r.choice(r.choice(COLLIDE[:3])).swapcase() if r.random() < .8 else "q%d" % k
        return "text %d" % k
    T = [tx(k) for k in range(nt)]
    g.open_write(1, "f1")
    cut = r.randint(0, nt)
    g.rep(1, "AddSetText", [[t] for t in T[:cut]])
    L = g.labels(20, "i"); g.reg(1, L)
    ns = r.randint(1, 3)
    for s in range(ns):
        d = r.choice([1, 1, 2]); how = r.choice(["Raw", "Str"])
        g.e(1, f"Write{how}Start", "s%d" % s, g.text(), d, 0, 0)
        if r.random() < .5: g.rep(1, "AddSetText", [[t] for t in r.sample(T, min(nt, 5))])
        for k in range(r.randint(0, 15)):
            key = ([1] * (d - 1) + [k + 1]) if how == "Raw" else (["i1"] * (d - 1) + ["i%d" % (k + 1)])
            g.e(1, "Write" + how, key, [tok(float(r.choice([0, 1, 2, r.randint(0, nt), r.randint(0, nt + 5)])))])
        g.e(1, "WriteDone")
    g.rep(1, "AddSetText", [[t] for t in T[cut:]])
    for _ in range(r.randint(0, 4)): g.e(1, "SetTextNode", r.randint(-1, nt + 2), r.randint(0, 20))
    g.rep(1, "GetElemText", [[i] for i in list(range(-1, min(nt, 60) + 4)) + [nt - 1, nt, nt + 1, nt + 2]])
    g.e(1, "Close")
    for _ in range(2):
        if r.random() < .2: g.e(1, "OpenReadEx", "f1", r.choice([0, 1, 2, 3]))
        else: g.e(1, "OpenRead", "f1")
        for i in range(1, ns + 1): g.rsym(1, i, r.choice(["raw", "str", "exp", "fast"]))
        g.rep(1, "HasText", [[i] for i in range(0, ns + 2)])
        g.rep(1, "GetElemText", [[i] for i in list(range(-1, min(nt, 60) + 4)) + [nt - 1, nt, nt + 1, nt + 2]])
        for _ in range(r.randint(0, 3)): g.e(1, "SetTextNode", r.randint(-1, nt + 2), r.randint(0, 20))
        g.rep(1, "AddSetText", [[t] for t in r.sample(T, min(nt, 3))] + [["fresh one"]])
        g.rep(1, "GetElemText", [[i] for i in range(0, min(nt, 30) + 3)])
        g.e(1, "Close")
        if r.random() < .4:
            g.e(1, "OpenAppend", "f1", "a"); g.rep(1, "AddSetText", [["app1"], [r.choice(T)]])
            g.e(1, "WriteStrStart", "sa%d" % len(g.ev), "", 1, 0, 0); g.e(1, "WriteStr", ["i1"], [tok(float(r.randint(0, nt + 1)))]); g.e(1, "WriteDone"); g.e(1, "Close")


@S
def quotes(g):
    """all short texts over quotes, a letter and a control character, as set, symbol and comment text"""
    import itertools
    r = g.r
    g.start(("f1",))
    T = ["".join(t) for n in range(0, 5) for t in itertools.product("'\"a\x01", repeat=n)]
    r.shuffle(T)
    g.open_write(1, "f1")
    g.rep(1, "AddSetText", [[t] for t in T])
    g.rep(1, "GetElemText", [[k] for k in range(0, len(T) + 2)])
    for k in range(12):
        g.e(1, "WriteStrStart", "s%d" % k, T[k], 1, 0, 0)
        g.rep(1, "WriteStr", [[["i%d" % j], [tok(float(r.randint(0, len(T))))]] for j in range(4)]); g.e(1, "WriteDone")
        g.e(1, "AddComment", k + 1, T[k + 20])
    g.rep(1, "AcrAdd", [["ac%d" % k, T[k + 40], k] for k in range(1, 12)])
    def q():
        g.rep(1, "SymInfoX", [[i] for i in range(1, 13)]); g.rep(1, "GetComment", [[i, 1] for i in range(1, 13)]); g.rep(1, "AcrGetInfo", [[i] for i in range(1, 13)])
    q()
    g.e(1, "Close"); g.e(1, "OpenRead", "f1"); q()
    g.rep(1, "GetElemText", [[k] for k in range(0, len(T) + 2)])
    for i in range(1, 13): g.rsym(1, i, r.choice(["raw", "str", "fast"]))
    g.e(1, "Close")


# ============================================================= C14
@S
def metadata(g):
    r = g.r
    g.start(("f1",))
    g.open_write(1, "f1")
    g.reg(1, ["i1", "i2", "i3"])
    def nm(): return r.choice(["s0", "S0", "s1", "s2", "Sym_3", "sym_3", "s4", "a" * 63, "a" * 62 + "B", "A" * 63] if r.random() < .85 else BADNAMES)
    def q():
        g.info(1, 9); g.rep(1, "GetDomain", [[i] for i in range(-1, 10)]); g.rep(1, "GetDomainX", [[i] for i in range(-1, 10)])
        g.rep(1, "GetComment", [[i, k] for i in range(0, 9) for k in range(0, 4)])
        g.rep(1, "FindSym", [[x] for x in ("s0", "S0", "SYM_3", "sym_3", "s4", "*", "nope", "", "al0", "AL1", "a" * 63, "a" * 64)])
        g.rep(1, "SymDim", [[i] for i in range(-1, 10)]); g.e(1, "SymMaxLen")
    sets = []
    for s in range(r.randint(2, 9)):
        z = r.random()
        if z < .55:
            t = r.choice([0, 0, 1, 2, 3]) if r.random() < .9 else r.choice([-1, 4, 5, 9]); d = r.choice([0, 1, 2, 3, 20]) if r.random() < .9 else r.choice([-1, 21, 100])
            how = r.choice(["Raw", "Str"])
            n1 = nm()
            if t == 0 and 0 <= d <= 20: sets.append(n1)
            g.e(1, f"Write{how}Start", n1, g.text(.6), d, t, r.choice([g.ui(t), r.randint(-5, 99), 2 ** 31 - 1]))
            if r.random() < .4: g.e(1, "SetDomain", [r.choice(["s0", "S0", "s1", "s2", "*", "al0", "nope"]) for _ in range(20)])
            if r.random() < .2: g.e(1, "AddComment", r.choice([0, -1, 1]), g.text())
            g.rep(1, "Write" + how, [[[1] * max(d, 0) if how == "Raw" else ["i1"] * max(d, 0), [tok(0.0)] * 5]] if r.random() < .6 else [])
            g.e(1, "WriteDone")
        elif z < .7:
            if sets and r.random() < .7:
                a = [r.choice(sets), "al%d" % r.randint(0, 2)]; r.shuffle(a); g.e(1, "AddAlias", *a)
            else: g.e(1, "AddAlias", *r.sample([nm(), r.choice(["*", "s0", "S1", "al0"]), "al%d" % r.randint(0, 2)], 2))
        elif z < .82: g.e(1, "AddComment", r.choice([0, -1, 1, 2, 3, 9]), g.text(.7))
        elif z < .86: g.e(1, "AcrAdd", r.choice([nm(), "al0", "AL1", "s4"]), g.text(), r.randint(1, 5))
        else: g.e(1, "SetDomainX", r.randint(0, 6), [r.choice(["s0", "S0", "dom", "DOM", "d2", "*", "x y", "", "z" * 63, "z" * 64]) for _ in range(20)])
        if r.random() < .15: q()
    q()
    g.e(1, "Close")
    g.e(1, "OpenRead", "f1"); q()
    for i in range(1, 7): g.rsym(1, i, r.choice(["raw", "str"]))
    if r.random() < .3: g.e(1, "SetDomainX", r.randint(1, 4), ["dd%d" % k for k in range(20)]); g.rep(1, "GetDomainX", [[i] for i in range(-1, 10)])
    g.e(1, "Close")


@S
def manysyms(g):
    """more symbols, aliases, domain names and acronyms than the tables hold before they grow"""
    r = g.r
    g.start(("f1",))
    g.open_write(1, "f1")
    g.reg(1, ["i1", "i2", "i3"])
    n = r.choice([1490, 1500, 1501, 1503, 1510, 300, 130])
    names = []
    for k in range(n):
        z = r.random()
        nm = "%s%d" % (r.choice(["s", "Sym_", "x"]), k)
        if z < .85 or not names:
            t = r.choice([0, 0, 1, 2]); d = 1 if t == 0 else r.choice([0, 1, 2])
            g.e(1, "WriteRawStart", nm, "t%d" % k if r.random() < .3 else "", d, t, g.ui(t))
            if names and d and r.random() < .1: g.e(1, "SetDomain", [r.choice(names) for _ in range(d)])
            if r.random() < .2: g.e(1, "WriteRaw", [1] * d, [tok(0.0)] * 5)
            g.e(1, "WriteDone")
            if t == 0: names.append(nm)
        elif z < .9: g.e(1, "AddAlias", r.choice(names), nm)
        elif z < .93: g.e(1, "AcrAdd", "acr%d" % k, "", k)
        elif z < .97: g.e(1, "SetDomainX", max(1, k // 2), ["dom%d_%d" % (k, j) for j in range(20)])
        else: g.e(1, "FindSym", r.choice(names).swapcase())
    qs = [[_variant(r, r.choice(names))] for _ in range(80)] + [["s%d" % k] for k in range(n - 5, n + 3)]
    def q():
        g.rep(1, "FindSym", qs); m = sorted({r.randint(0, n) for _ in range(60)} | set(range(n - 60, n + 2)))
        g.rep(1, "SymInfo", [[i] for i in m]); g.rep(1, "GetDomainX", [[i] for i in m]); g.e(1, "SysInfo"); g.e(1, "SymMaxLen")
    q()
    g.e(1, "Close"); g.e(1, "OpenRead", "f1"); q()
    for i in [1, 2, n // 2, n // 4]: g.rsym(1, i, r.choice(["raw", "str"]))
    g.e(1, "Close")
    if r.random() < .5:
        g.e(1, "OpenAppend", "f1", "a")
        for k in range(r.randint(1, 12)):
            g.e(1, "WriteStrStart", r.choice(["app%d" % k, r.choice(names)]), "", 1, 0, 0); g.e(1, "WriteStr", ["i%d" % k], [tok(0.0)]); g.e(1, "WriteDone")
        g.e(1, "Close"); g.e(1, "OpenRead", "f1"); q(); g.e(1, "Close")


# ============================================================= C15
@S
def append(g):
    r = g.r
    g.start(("f1", "f2"), env=r.choice([0, 0, 1]))
    L, syms = g.content(nu=r.choice([3, 12, 60, 256]), nsym=r.randint(1, 3))
    g.wfile(1, "f1", L, syms, compr=r.choice([0, 1]), close=False)
    if r.random() < .4: g.e(1, "AcrAdd", "acx", "t", 3)
    g.e(1, "AddComment", 1, "first")
    if r.random() < .4: g.e(1, "AddAlias", syms[0][0], "al")
    if r.random() < .4: g.e(1, "SetDomainX", 1, ["rel%d" % k for k in range(20)])
    g.e(1, "Close")
    ns = len(syms)
    def full():
        g.e(1, "OpenRead", "f1"); g.info(1, ns + 3, len(L) + 8)
        for i in range(1, ns + 4): g.rsym(1, i, r.choice(["raw", "str", "fast"]))
        g.rep(1, "GetDomainX", [[i] for i in range(1, ns + 3)]); g.rep(1, "GetComment", [[i, k] for i in range(1, ns + 2) for k in (1, 2, 3)])
        g.rep(1, "GetElemText", [[i] for i in range(0, 8)]); g.rep(1, "AcrGetInfo", [[i] for i in range(1, 5)])
        g.e(1, "Close")
    for rd in range(r.randint(1, 4)):
        q = r.random()
        if q < .35: g.e(1, "Destroy"); g.e(1, "Create"); g.e(1, "AutoConvert", 0)      # appending by somebody who has not written the file
        elif q < .65:
            g.open_write(1, "f2"); g.e(1, "WriteStrStart", "other", "", 1, r.choice([0, 1]), 0)
            g.rep(1, "WriteStr", [[[l], [tok(0.0)]] for l in r.sample(["o1", "o2", "o3"] + L[:2], 3)]); g.e(1, "WriteDone"); g.e(1, "Close")
        g.e(1, "OpenAppend", "f1", "app%d" % rd)
        g.noise(1, QUERY_OPS, .3)
        for _ in range(r.randint(0, 3)):
            z = r.random()
            if z < .55:
                d = r.choice([0, 1, 2, 3]); t = g.typ(); how = r.choice(["raw", "str"]); nl = L + ["app_%d" % k for k in range(4)]
                ks = g.keys(d, r.randint(0, 30), len(L)) if how == "raw" else g.keys(d, r.randint(0, 30), len(nl))
                g.wsym(1, ["ap%d_%d" % (rd, len(g.ev)), g.text(), d, t, g.ui(t), [[list(k), g.vals(t, .3)] for k in ks]], how, nl, None,
                       dom=[r.choice([syms[0][0], "*"])] * 20 if r.random() < .3 else None)
                ns += 1
            elif z < .65: g.reg(1, ["new%d" % rd, r.choice(L).swapcase(), "n%d" % r.randint(0, 9)])
            elif z < .75: g.e(1, "AddSetText", g.text())
            elif z < .8: g.e(1, "AddAlias", r.choice([s[0] for s in syms]), "al%d" % rd); ns += 1
            elif z < .87: g.e(1, "AddComment", r.randint(1, ns), "comment %d" % rd)
            elif z < .92: g.e(1, "RenameUel", r.choice(L), "ren%d" % rd)
            else: g.e(1, "AcrAdd", "ac%d" % rd, "", 5 + rd)
        g.e(1, "Close")
        if r.random() < .7: full()
    full()
    if r.random() < .3: g.e(1, "Junk", "f2", "not a gdx file" * 20); g.e(1, "OpenAppend", "f2", "x"); g.e(1, "OpenRead", "f2")


# ============================================================= C18
@S
def errors(g):
    r = g.r
    w = wild_script("e%d" % r.getrandbits(30), 0, noise=.5, sessions=3)
    for e in w["ev"]:
        g.ev.append(e)
        if e["x"] and r.random() < .25: g.e(1, r.choice(["LastError", "ErrCount", "LastError", "DataErrCount"]))
    g.rep(1, "ErrStr", [[-100000 - k] for k in range(0, 62)] + [[0]])


# ============================================================= C22
def _indep(seed, n):
    """several scripts interleaved on several objects"""
    r = random.Random(f"indep:{seed}:{n}")
    k = r.choice([2, 2, 3])
    parts = []
    ro = r.random() < .4
    for i in range(k):
        g = Wild(f"ind{seed}:{i}", n); g.paths = (f"o{i}f1", f"o{i}f2")
        if ro: g.ropaths = ("shared",)
        for _ in range(3):
            for o, a in (g.plan_write() if g.r.random() < .55 else g.plan_read()):
                while g.r.random() < .2: g.wild(i + 1, r.choice([SET_OPS, WRITE_OPS, READ_OPS, QUERY_OPS]))
                g.e(i + 1, o, *a)
        g.e(i + 1, "Close"); g.e(i + 1, "LastError"); g.e(i + 1, "GetSV")
        parts.append(g.ev)
    out = [dict(x=0, o="Path", a=[p]) for i in range(k) for p in (f"o{i}f1", f"o{i}f2")] + [dict(x=0, o="Path", a=["shared"]), dict(x=0, o="Path", a=["missing"])]
    for i in range(k): out += [dict(x=i + 1, o="Create", a=[]), dict(x=i + 1, o="AutoConvert", a=[0])]
    if ro:
        g = P(f"sh{seed}", n); L, syms = g.content(nu=5, nsym=3, style="i"); g.wfile(1, "shared", ["a", "b", "c", "d", "e"], syms, "raw"); out += g.ev
    pos = [0] * k
    while any(pos[i] < len(parts[i]) for i in range(k)):
        i = r.randrange(k)
        for _ in range(r.choice([1, 1, 2, 5])):
            if pos[i] < len(parts[i]): out.append(parts[i][pos[i]]); pos[i] += 1
    return dict(id=f"indep-{seed}-{n}", ev=out)


indep = _indep

WEAVE = ["roundtrip", "ifaces", "dups", "domains", "uels", "usermap", "filtered", "values", "acronyms", "settexts", "metadata", "append", "summary", "errors"]


def weave(seed, n):
    """scripts of other profiles, each with objects and files of its own, interleaved call by call"""
    r = random.Random(f"weave:{seed}:{n}")
    k = r.choice([2, 2, 2, 3])
    same = r.random() < .6
    shift = r.choice([0, 1, 3])
    lock = r.random() < .5
    name = r.choice(WEAVE)
    parts, head, env = [], [], 0
    nx = 0
    for i in range(k):
        sc = globals()[name if same else r.choice(WEAVE)](f"{seed}w", n if same else n * 10 + i)
        xs, ps, ev = {}, {}, []
        for e in sc["ev"]:
            if e["o"] == "Path": ps[e["a"][0]] = f"o{i}{e['a'][0]}"; head.append(_ev(0, "Path", ps[e["a"][0]])); continue
            if e["o"] == "SetEnv": env = 1; continue
            x = e["x"]
            if x and x not in xs: nx += 1; xs[x] = nx
            x = xs.get(x, 0)
            a = [ps.get(q, q) if isinstance(q, str) else q for q in e["a"]] if e["o"] not in ("Rep", "Loop") else e["a"]
            if e["o"] == "Rep":
                l, p = a[1], 0
                while p < len(l):
                    m = 1 if len(l) <= 80 else max(7, len(l) // 10)
                    ev.append(_ev(x, "Rep", a[0], l[p:p + m])); p += m
            else: ev.append(dict(x=x, o=e["o"], a=a))
            if same and shift and i and e["o"] in ("OpenWrite", "OpenWriteEx"):      # the same labels, but other numbers
                ev += [_ev(x, "RegRawStart"), _ev(x, "Rep", "RegRaw", [[f"shift{j}"] for j in range(i * shift)]), _ev(x, "RegDone")]
        parts.append(ev)
    out = head + ([_ev(0, "SetEnv", 1)] if env else [])
    pos = [0] * k
    while any(pos[i] < len(parts[i]) for i in range(k)):
        i = min((i for i in range(k) if pos[i] < len(parts[i])), key=lambda i: pos[i]) if lock else r.randrange(k)
        for _ in range(1 if lock else r.choice([1, 1, 1, 2, 5])):
            if pos[i] < len(parts[i]): out.append(parts[i][pos[i]]); pos[i] += 1
    return dict(id=f"weave-{seed}-{n}", ev=out)


def threads(seed, n):
    """a script of another profile, to be run while others run in other threads (half of the time of the same kind); the environment stays as it is"""
    b, r = random.Random(f"threads:{seed}:{n // 32}"), random.Random(f"threads:{seed}:{n}")
    names = WEAVE + ["wild", "wildnoisy", "foreign", "malformed", "reuse", "observed"]
    name = b.choice(names)
    if b.random() < .5: name = r.choice(names)
    for k in range(200):
        sc = globals()[name](f"{seed}t", n * 200 + k)
        ev = sc["ev"]
        if all(e["a"][0] == 0 for e in ev if e["o"] == "SetEnv") and not any(e["o"] in ("Fault", "Limit", "SetLoadPath") for e in ev):
            return dict(id=f"threads-{seed}-{n}-{name}", ev=ev)
        if k == 20: name = "wild"
    return dict(id=f"threads-{seed}-{n}", ev=[])


def sequel(seed, n):
    """scripts of other profiles one after the other, with the same objects: what one leaves behind must not show in the next"""
    r = random.Random(f"sequel:{seed}:{n}")
    live, out, head, env = set(), [], [], 0
    names = WEAVE + ["foreign", "foreign", "malformed", "reuse", "settexts"]
    last = None
    for i in range(r.choice([2, 3, 3, 4])):
        name = last if last and r.random() < .25 else "settexts" if last == "foreign" and r.random() < .5 else r.choice(names)
        last = name
        sc = globals()[name](f"{seed}s", n * 10 + i)
        ps = {}
        for e in sc["ev"]:
            if e["o"] == "Path": ps[e["a"][0]] = f"o{i}{e['a'][0]}"; head.append(_ev(0, "Path", ps[e["a"][0]])); continue
            if e["o"] == "SetEnv": env = 1; continue
            x = e["x"]
            if e["o"] == "Create":
                if x in live: continue
                live.add(x)
            if e["o"] == "Destroy": live.discard(x)
            a = [ps.get(q, q) if isinstance(q, str) and len(q) < 9 else q for q in e["a"]] if e["o"] not in ("Rep", "Loop") else e["a"]
            out.append(dict(x=x, o=e["o"], a=a))
        out += [_ev(x, "Close") for x in sorted(live)]
    return dict(id=f"sequel-{seed}-{n}", ev=head + ([_ev(0, "SetEnv", 1)] if env else []) + out)


@S
def reuse(g):
    """one object for many files, against a fresh one for each"""
    r = g.r
    paths = ("f1", "f2", "f3")
    g.start(paths)
    for k in range(r.randint(3, 7)):
        p = r.choice(paths)
        z = r.random()
        if z < .5:
            L, syms = g.content(nu=r.choice([1, 3, 9]), nsym=r.randint(1, 2), acr=r.random() < .5)
            g.wfile(1, p, L, syms, close=r.random() < .9)
            if r.random() < .2: g.e(1, "SetSV", [tok(float(-q)) for q in range(1, 6)])
            g.e(1, "Close")
        elif z < .6: g.e(1, "OpenRead", r.choice(["missing", "", "nodir/x"])); g.e(1, "LastError")
        elif z < .65: g.e(0, "Junk", "f3", "junk" * r.randint(0, 90)); g.e(1, r.choice(["OpenRead", "OpenAppend"]), "f3", "x"); g.e(1, "LastError"); g.e(1, "Close")
        else:
            g.e(1, "OpenRead", p)
            if r.random() < .4: g.e(1, "SetSV", [tok(float(-q)) for q in range(1, 6)])
            if r.random() < .4: g.reg(1, ["i1", "i3", "i2"], "map", [3, 1, 8])
            if r.random() < .3: g.e(1, "FiltStart", 1); g.e(1, "FiltReg", 3); g.e(1, "FiltDone")
            for _ in range(3): g.rsym(1, r.randint(0, 3), r.choice(["raw", "str", "map", "fast", "slice"]))
            if r.random() < .3: g.partial(1, 1)
            g.e(1, "Close")
        if r.random() < .3: g.e(1, "Close")
        for q in ("UelInfo", "SysInfo", "GetSV", "ErrCount", "DataErrCount", "AcrCount", "CurDim", "FileInfo", "FileVersion"): g.e(1, q)
        if r.random() < .2: g.e(1, "Destroy"); g.e(1, "Create"); g.e(1, "AutoConvert", 0)


# ============================================================= C23
@S
def summary(g):
    r = g.r
    g.start(("f1",))
    L, syms = g.content(nu=r.choice([1, 3, 12, 60, 300]), nsym=r.randint(1, 4), dims=[0, 1, 1, 2, 3, 4, 20], style=r.choice(["mixed", "long", "i"]))
    if r.random() < .2: syms.append(["w", "", 2, 1, 0, [[[k, k + 1], [tok(1.0)]] for k in sorted(r.sample(range(1, len(L) + 6), 2))]])
    g.open_write(1, "f1"); g.reg(1, L)
    for sy in syms: g.wsym(1, sy, "raw", L, None)
    if r.random() < .4: g.e(1, "AddAlias", syms[0][0], "alias_of_first")
    ns = len(syms) + 1
    if r.random() < .5: g.info(1, ns, 5); g.e(1, "UelMaxLen"); g.e(1, "SymMaxLen")
    g.e(1, "Close")
    g.e(1, "OpenRead", "f1")
    filt = [-1]
    if r.random() < .4:
        idx = r.sample(range(len(L)), r.randint(0, min(len(L), 20))); nums = r.sample(range(1, 3 * len(L) + 2), len(idx))
        g.e(1, "RegMapStart"); g.rep(1, "RegMap", [[a, L[j]] for a, j in zip(nums, idx)]); g.e(1, "RegDone")
        for fn in r.sample([1, 2, 3], r.randint(0, 2)):
            g.e(1, "FiltStart", fn); g.rep(1, "FiltReg", [[v] for v in r.sample(nums, r.randint(0, len(nums)))]); g.e(1, "FiltDone"); filt += [fn, fn]
    for _ in range(r.randint(3, 9)):
        i = r.randint(0, ns)
        d = syms[i - 1][2] if 1 <= i <= len(syms) else 1
        z = r.choice(["info", "lens", "lens", "dom", "dom", "max", "read", "part", "text"])
        if z == "info": g.info(1, ns, 3)
        elif z == "lens": g.e(1, "MaxLens", i)
        elif z == "dom":
            g.e(1, "DomElems", i, r.randint(1, max(1, d)), r.choice(filt) if r.random() < .95 else 7, r.choice([0, 1]))
            if len(filt) > 1: g.e(1, "DataErrCount"); g.rep(1, "DataErrRecX", [[j] for j in range(0, 5)])
        elif z == "max": g.e(1, "UelMaxLen"); g.e(1, "SymMaxLen")
        elif z == "text": g.rep(1, "HasText", [[k] for k in range(-1, ns + 2)])
        elif z == "part": g.partial(1, i); g.e(1, "ReadDone")
        else: g.rsym(1, i, r.choice(["raw", "str", "fast", "slice"]))
    if r.random() < .3: g.e(1, "RenameUel", r.choice(L), "a_longer_name_than_before_%d" % r.randint(0, 9)); g.e(1, "UelMaxLen"); g.e(1, "MaxLens", 1)
    for i in range(1, ns + 1): g.e(1, "MaxLens", i); g.rsym(1, i, "fast")
    g.e(1, "Close")


# ============================================================= C04: files laid out by somebody else
def _fcontent(g, ver, allint=True):
    r = g.r
    nu = r.choice([0, 1, 2, 5, 12, 30, 254, 255, 256, 300])
    L = g.labels(nu) if nu else []
    stxt = [""] + [g.text(.5)[:255] for _ in range(r.randint(0, 5))]
    if r.random() < .3: stxt = stxt[1:] + ["", "t1", "t1"]
    if r.random() < .1: stxt = []
    syms, acr = [], []
    if ver >= 7 and r.random() < .6: acr = [["ac%d" % i, g.text()[:255], i] for i in r.sample(range(1, 9), r.randint(1, 4))]
    for k in range(r.randint(0, 5)):
        d = g.dim() if nu else 0
        if ver <= 6 and d > 10: d = r.randint(1, 10)
        t = g.typ()
        ks = g.keys(d, g.nrec(.03), nu) if nu or d == 0 else []
        if r.random() < .1 and d: ks = g.widekeys(d, r.randint(1, 30))
        if d == 0 and r.random() < .3: ks = []
        recs = []
        for q in ks:
            v = []
            for _ in range(5 if t in (2, 3) else 1):
                if t == 0: v.append(tok(float(r.choice([0, 0, r.randint(0, max(0, len(stxt) - 1))]))))
                else:
                    x = g.val(.4)
                    if x in SVD and r.random() < .5: x = ["und", "na", "pinf", "minf", "eps"][SVD.index(x)]
                    if x == INF: x = "pinf"
                    v.append(x)
            recs.append([list(q), v])
        al = [i + 1 for i, s in enumerate(syms) if s["typ"] in (0, 4)]
        s = dict(name="f%d" % k + ("_x" if r.random() < .3 else ""), dim=d, typ=t, ui=g.ui(t), txt=g.text()[:255], recs=recs, cnt=len(recs), nerr=r.choice([0, 0, 1, 7]),
                 stx=1 if t == 0 and any(v[0] != tok(0.0) for _, v in recs) else 0, dom=None, comm=[], cz=0)
        if r.random() < .2:
            i = r.choice(al + [0])
            if i and syms[i - 1]["typ"] == 0 or i == 0:
                s.update(typ=4, ui=i, dim=syms[i - 1]["dim"] if i else 1, recs=[], cnt=0, stx=0)
        if ver >= 7:
            if r.random() < .4: s["dom"] = [r.choice([0] + [i + 1 for i, q in enumerate(syms) if q["dim"] == 1 and q["typ"] in (0, 4)]) for _ in range(s["dim"])]
            if r.random() < .3: s["comm"] = [g.text()[:255] for _ in range(r.randint(1, 3))]
        syms.append(s)
    doms = ["d%d" % i for i in range(r.randint(0, 3))] if ver >= 7 else []
    links = [[i + 1, [r.randint(0, len(doms)) for _ in range(s["dim"])]] for i, s in enumerate(syms) if doms and r.random() < .5]
    audit = "GDX Library      C++ V7 x 64bit/GNU Linux" if ver >= 7 or r.random() < .5 else "GDX Library 123" + r.choice(["2001", "2002", "2000"]) + " etc"
    return dict(prod=g.text()[:255], audit=audit, uels=L, stxt=stxt, syms=syms, acr=acr, doms=doms, links=links)


def _fread(g, c, redund):
    """everything there is to see in a file"""
    r = g.r
    ns, nu = len(c["syms"]), len(c["uels"])
    g.e(1, "FileInfo"); g.e(1, "FileVersion")
    g.info(1, ns, nu if nu < 40 or r.random() < .3 else 5)
    for o in ("GetDomain", "GetDomainX", "HasText", "SymDim"): g.rep(1, o, [[i] for i in range(1, ns + 1)])
    g.rep(1, "GetComment", [[i, k] for i in range(1, ns + 1) for k in (1, 2, 3)])
    g.rep(1, "GetElemText", [[i] for i in range(0, len(c["stxt"]) + 1)])
    g.e(1, "AcrCount"); g.rep(1, "AcrGetInfo", [[i] for i in range(1, len(c["acr"]) + 1)])
    g.rep(1, "FindSym", [[s["name"].upper()] for s in c["syms"]])
    for i in r.sample(range(1, ns + 1), ns) + [0]:
        sy = c["syms"][i - 1] if i else None
        if i and sy.get("typ") == 4 and 1 <= sy["ui"] <= ns: sy = c["syms"][sy["ui"] - 1]      # an alias
        wide = i and any(k > nu for q, _ in sy["recs"] for k in q)
        hows = ["fast", "filt", "slice", "exp"] if redund else ["raw", "raw", "str", "fastex", "fast", "exp", "filt", "slice"]
        if wide: hows = [h for h in hows if h in ("raw", "fast", "fastex")]
        g.rsym(1, i, r.choice(hows))
    g.e(1, "LastError")
    if r.random() < .2: g.e(1, "MaxLens", r.randint(0, max(1, ns)))


def _fenc(g, ver=None):
    import fmt
    r = g.r
    ver = ver or r.choice([5, 6, 6, 7, 7, 7, 7])
    sw = r.choice([(0, 0, 0), (0, 0, 0), (1, 1, 1), (1, 1, 1), tuple(r.randint(0, 1) for _ in range(3))])
    e = fmt.Enc(r, ver, sw, r.choice([0, 1]) if ver > 5 else 0)
    e.redund = r.random() < .3
    return e, _fcontent(g, ver)


def _bytes(b): return b.decode("latin-1")


@S
def foreign(g):
    import fmt
    r = g.r
    g.start(("f1", "f2"), env=0)
    for _ in range(r.choice([1, 1, 2])):
        e, c = _fenc(g)
        g.e(0, "PutBytes", "f1", _bytes(e.build(c)))
        g.e(1, "OpenReadEx", "f1", r.choice([0, 0, 0, 1]))
        _fread(g, c, e.redund)
        if r.random() < .2: g.e(1, "SetReadSV", [tok(float(-i)) for i in range(1, 6)]); g.rep(1, "Fast", [[i + 1] for i in range(len(c["syms"]))])
        g.e(1, "Close")
    if r.random() < .4:
        # may it be appended to, and if not, is it left alone?
        g.e(1, "OpenAppend", "f1", "app"); g.e(1, "LastError")
        g.e(1, "WriteStrStart", "zz_new", "text", 1, 1, 0); g.rep(1, "WriteStr", [[[l], g.vals(1, .3, False)] for l in ("n1", "n2", "n3")]); g.e(1, "WriteDone")
        g.e(1, "Close")
        g.e(0, "Dump", "f1")
        g.e(1, "OpenRead", "f1"); c["syms"].append(dict(name="zz_new", recs=[])); _fread(g, c, True); g.e(1, "Close")


@S
def foreignbig(g):
    """more data than a block holds, as blocks of the largest size, stored as they are or hardly compressed"""
    r = g.r
    g.start(("f1",), env=0)
    e, c = _fenc(g, r.choice([6, 7, 7]))
    e.compr, e.redund, e.modes = 1, False, ["stored", "stored", "big"]
    c["uels"] = g.labels(30); c["acr"] = []
    for s in c["syms"]:
        if s["typ"] != 4: s.update(recs=[], cnt=0, stx=0)
    d = r.randint(3, 5)
    ks = sorted({tuple(r.randint(1, 30) for _ in range(d)) for _ in range(r.choice([3600, 3600, 4200, 8000]))})
    c["syms"].append(dict(name="big", dim=d, typ=1, ui=0, txt="", recs=[[list(k), [tok(r.uniform(-1e9, 1e9))]] for k in ks], cnt=len(ks), nerr=0, stx=0, dom=None, comm=[], cz=1))
    g.e(0, "PutBytes", "f1", _bytes(e.build(c)))
    g.e(1, "OpenReadEx", "f1", 0)
    n = len(c["syms"])
    g.rep(1, "SymInfo", [[i] for i in range(1, n + 1)])
    g.rsym(1, n, r.choice(["raw", "str", "fast", "fastex"]))
    g.e(1, "UelGet", 30); g.e(1, "LastError"); g.e(1, "Close")


@S
def holes(g):
    """files of more than 2 or 4 GB (with a hole in them): read, appended to, read again"""
    r = g.r
    g.start(("f1",), env=0)
    e, c = _fenc(g, r.choice([6, 7, 7]))
    st, size, frac = r.getstate(), r.choice([2 ** 31 - 60, 2 ** 31 + 5, 2 ** 32 - 60, 2 ** 32 + 12345, 5 * 2 ** 30]), r.choice([0, 0, 1, .999, r.random()]) * .9999
    a = e.build(c); r.setstate(st); b = e.build(c, hole=(frac, size))
    g.e(0, "PutHole", "f1", _bytes(a), _bytes(b), e.holeat, str(size))
    g.e(1, "OpenRead", "f1"); _fread(g, c, e.redund); g.e(1, "Close")
    for k in range(r.choice([0, 1, 1, 2])):
        g.e(1, "OpenAppend", "f1", "app"); g.e(1, "LastError")
        g.e(1, "WriteStrStart", "zz_new%d" % k, "text", 1, 1, 0); g.rep(1, "WriteStr", [[[l], g.vals(1, .3, False)] for l in ("n1", "n2", "n3")]); g.e(1, "WriteDone")
        g.e(1, "Close")
        g.e(1, "OpenRead", "f1"); c["syms"].append(dict(name="zz_new%d" % k, recs=[])); _fread(g, c, True); g.e(1, "Close")


@S
def malformed(g):
    import fmt
    r = g.r
    g.start(("f1",), env=0)
    for _ in range(4):
        e, c = _fenc(g, 7 if r.random() < .8 else None)
        bads = fmt.BAD + [k + str(i) for i, s in enumerate(c["syms"]) if s["typ"] != 4 for k in ("data", "dim")]
        e.redund = False
        g.e(0, "PutBytes", "f1", _bytes(e.build(c, r.choice(bads))))
        if r.random() < .2: g.e(1, "OpenAppend", "f1", "app")
        else: g.e(1, "OpenReadEx", "f1", 0)
        g.e(1, "LastError"); g.e(1, "SysInfo")
        g.rep(1, "FindUel", [["i1"], ["a"]])
        for i in range(1, len(c["syms"]) + 1): g.e(1, "Fast", i); g.e(1, "LastError")
        g.e(1, "Close")


# ============================================================= C16
_PEEK = [dict(x=8, o="OpenRead", a=["zz"]), dict(x=8, o="LastError", a=[]), dict(x=8, o="SysInfo", a=[]), dict(x=8, o="Close", a=[])]


def _ev(x, o, *a): return dict(x=x, o=o, a=list(a))


def _peek(r, path):
    l = [_ev(8, r.choice(["OpenRead", "OpenRead", "OpenReadEx"]), path), _ev(8, "LastError"), _ev(8, "SysInfo"), _ev(8, "Close")]
    if l[0]["o"] == "OpenReadEx": l[0]["a"].append(0)
    return l


def _crash(name, seed, n, snaps=10, cuts=6):
    """the writing sessions of another profile, stopped at many points"""
    sc = globals()[name](seed, n)
    r = random.Random(f"crash{seed}:{n}")
    out = [_ev(0, "Path", "zz"), _ev(8, "Create"), _ev(8, "AutoConvert", 0)]
    cur, appd, busy = {}, {}, set()
    for e in sc["ev"]:
        if e["o"] in ("OpenWrite", "OpenWriteEx", "OpenRead", "OpenReadEx", "OpenAppend"):
            # only a session that certainly begins here: an object that has a file open refuses to open another
            if e["o"] in ("OpenWrite", "OpenWriteEx") and e["x"] not in busy: cur[e["x"]] = e["a"][0]
            elif cur.get(e["x"]) == e["a"][0]: cur.pop(e["x"])
            busy.add(e["x"])
        if e["o"] in ("Close", "Destroy"): busy.discard(e["x"])
        # the content of a file being appended to is not decided while it is open: do not look at it then
        if e["o"] == "OpenAppend": appd.setdefault(e["x"], set()).add(e["a"][0])
        p = cur.get(e["x"])
        if any(p in v for v in appd.values()): p = None
        if e["o"] in ("Close", "Destroy"): appd.pop(e["x"], None)
        if p and e["o"] == "Close" and r.random() < .15:
            out += [_ev(e["x"], "Destroy"), _ev(0, "Dump", p)] + _peek(r, p) + [_ev(e["x"], "Create"), _ev(e["x"], "AutoConvert", 0)]
            cur.pop(e["x"])
            break
        out.append(e)
        if e["o"] in ("Close", "Destroy"): cur.pop(e["x"], None)
        if p and e["o"] in ("Close", "Destroy"):
            for k in range(snaps):
                q = r.random()
                out.append(_ev(0, "IoSnap", "zz", p, k if q < .7 else r.randint(0, 40), 0 if q < .5 else r.randint(1, 999)))
                out += _peek(r, "zz")
            for _ in range(cuts):
                out.append(_ev(0, "Cut", "zz", p, *r.choice([(-r.randint(1, 60), 0), (r.randint(0, 999), 1), (-r.randint(1, 9), 0), (r.randint(1, 400), 0)])))
                out += _peek(r, "zz")
        elif p and r.random() < .15:
            out += [_ev(0, "Dump", p)] + (_peek(r, p) if r.random() < .5 else [])
    return dict(id="crash-" + str(sc["id"]), ev=out)


def crash_roundtrip(seed, n): return _crash("roundtrip", seed, n)
def crash_metadata(seed, n): return _crash("metadata", seed, n)
def crash_wild(seed, n): return _crash("wild", seed, n)
def crash_domains(seed, n): return _crash("domains", seed, n)
def crash_acronyms(seed, n): return _crash("acronyms", seed, n)
def crash_settexts(seed, n): return _crash("settexts", seed, n)
def crash_big(seed, n): return _crash("big", seed, n, 6, 3)


CUTSTEP = 12


def cutall(seed, n):
    """every truncation length of small files (one residue class per script)"""
    g = P(f"cutall{seed}", n // CUTSTEP)
    r = g.r
    g.start(("f1", "zz"), objs=(1, 8), env=0)
    g.e(1, "OpenWriteEx", "f1", "p", r.choice([0, 0, 1]))
    L = ["i%d" % i for i in range(1, r.choice([3, 6, 20]))]
    g.reg(1, L)
    g.e(1, "AddSetText", "text of an element")
    g.e(1, "WriteRawStart", "s", "set", 1, 0, 0); g.rep(1, "WriteRaw", [[[i] + [1] * 19, [tok(float(i % 2))]] for i in range(1, 4)]); g.e(1, "WriteDone")
    g.e(1, "WriteStrStart", "p", "parameter", 2, 1, 0)
    if r.random() < .5: g.e(1, "SetDomain", ["s", "*"] + [""] * 18)
    g.rep(1, "WriteStr", [[[a, b] + [""] * 18, [g.val(.3)]] for a in L[:3] for b in L[:2]]); g.e(1, "WriteDone")
    if r.random() < .7: g.e(1, "AcrAdd", "acr", "an acronym", 7)
    if r.random() < .7: g.e(1, "SetDomainX", 2, ["d1", "d2"] + [""] * 18)
    if r.random() < .5: g.e(1, "AddComment", 1, "a comment")
    g.e(1, "Close")
    for j in range(1 + n % CUTSTEP, 1100, CUTSTEP):
        g.e(0, "Cut", "zz", "f1", -j, 0)
        for e in _peek(r, "zz"): g.ev.append(e)
    g.e(0, "Cut", "zz", "f1", 1000, 1)
    for e in _peek(r, "zz"): g.ev.append(e)
    return g.script(f"cutall-{seed}-{n}")


# ============================================================= C17
def _faulty(name, seed, n):
    """the first writing session of another profile, in which system calls fail"""
    sc = globals()[name](seed, n)
    r = random.Random(f"fault{seed}:{n}")
    out, x, p = [_ev(0, "Path", "zz")], 0, ""
    limit = r.random() < .25
    kind = r.choice(["enospc", "enospc", "eio", "eio", "short", "one", "zero", "eintr", "seek", "close"])
    nth = r.choice([1, 1, 2, 2, 3, 4, r.randint(1, 30)])
    cnt = r.choice([1, 1, 2, -1])
    if kind in ("zero", "eintr", "one"): cnt = abs(cnt)
    if kind == "short" and cnt < 0: cnt = 3
    if kind == "close": nth = 1
    for e in sc["ev"]:
        o = e["o"]
        if not x and o in ("OpenWrite", "OpenWriteEx", "OpenAppend"):
            x, p = e["x"], e["a"][0]
            if o == "OpenAppend" and r.random() < .5: x = 0
            if x and r.random() < .7:
                out += [e, _ev(0, "Limit", r.choice([0, 1, 40, 100, r.randint(100, 900), r.randint(100, 5000), 32768, 40000])) if limit else _ev(0, "Fault", kind, nth, cnt)]
                continue
            if x: out += [_ev(0, "Limit", r.choice([0, 30, 150, 400, 2000])) if limit else _ev(0, "Fault", kind, nth, cnt)]
        out.append(e)
        if x and e["x"] == x and o in ("Close", "Destroy"): break
        if x and e["x"] == x and r.random() < .06: out.append(_ev(x, "LastError"))
        if x and e["x"] == x and name == "errors" and r.random() < .2: out += [_ev(x, "LastError")] * r.choice([2, 2, 3])
    else: o = ""
    out += [_ev(0, "Limit", -1) if limit else _ev(0, "FaultOff")]
    if x and p: out += [_ev(0, "Dump", p)]
    # the object can be used again
    y = x or 1
    if o in ("Destroy", ""): y = 7; out += [_ev(7, "Create"), _ev(7, "AutoConvert", 0)]
    out += [_ev(y, "OpenWriteEx", "zz", "again", r.choice([0, 1])), _ev(y, "LastError"), _ev(y, "WriteStrStart", "s", "t", 1, 0, 0)]
    out += [_ev(y, "WriteStr", [l] + [""] * 19, [tok(0.0)]) for l in ("a", "b")] + [_ev(y, "WriteDone"), _ev(y, "Close"), _ev(0, "Dump", "zz"), _ev(y, "OpenRead", "zz"), _ev(y, "Fast", 1),
                                                                                     _ev(y, "LastError"), _ev(y, "Close")]
    return dict(id="fault-" + str(sc["id"]), ev=out)


def fault_roundtrip(seed, n): return _faulty("roundtrip", seed, n)
def fault_metadata(seed, n): return _faulty("metadata", seed, n)
def fault_append(seed, n): return _faulty("append", seed, n)
def fault_wild(seed, n): return _faulty("wild", seed, n)
def fault_domains(seed, n): return _faulty("domains", seed, n)
def fault_acronyms(seed, n): return _faulty("acronyms", seed, n)
def fault_errors(seed, n): return _faulty("errors", seed, n)
def fault_big(seed, n): return _faulty("big", seed, n)


@S
def nofile(g):
    """files that cannot be opened, and what the object is like afterwards"""
    r = g.r
    g.start(("f1", "f2", "f3"), objs=(1, 2))
    g.e(0, "Mkdir", "d1")
    g.e(0, "Junk", "f3", r.choice(["", "x", "not a gdx file at all", "\x02" * 50]))
    g.wfile(1, "f1", *(lambda c: (c[0], c[1]))(g.content()))
    for _ in range(r.randint(3, 9)):
        x = r.choice([1, 2])
        bad = r.choice(["d1", "nodir/f", "f1/x", "f3", "f2", "", "n" * 300, "d1/none/x"])
        op = r.choice(["OpenRead", "OpenReadEx", "OpenWriteEx", "OpenAppend"])
        if op in ("OpenWriteEx", "OpenAppend") and bad in ("f3", "f2"): bad = "d1"
        if op in ("OpenRead", "OpenReadEx") and bad == "f1/x": bad = "nodir/f"
        if bad in ("f1/x", "n" * 300): bad = "nodir/f"
        g.e(x, op, bad, *{"OpenRead": [], "OpenReadEx": [0], "OpenWriteEx": ["p", 0], "OpenAppend": ["p"]}[op])
        g.e(x, "LastError"); g.e(x, "LastError")
        if r.random() < .4: g.e(x, "SysInfo"); g.e(x, "WriteDone"); g.e(x, "Close")
        if r.random() < .5: g.e(x, "OpenRead", "f1"); g.e(x, "SysInfo"); g.e(x, "Fast", 1); g.e(x, "LastError"); g.e(x, "Close")
        if r.random() < .3:
            g.e(x, "OpenWriteEx", "f2", "p", 0); g.e(x, "WriteStrStart", "s", "t", 1, 0, 0); g.e(x, "WriteStr", ["a"] + [""] * 19, [tok(0.0)]); g.e(x, "WriteDone"); g.e(x, "Close"); g.e(0, "Dump", "f2")
            g.e(0, "Rm", "f2")


@S
def loadpath(g):
    """the place the library was loaded from, as the loader tells it and asks for it; only through the shared library"""
    r = g.r
    g.start(("f1", "f2"), objs=(1, 2))
    L, syms = g.content(nu=4, nsym=2, style="i")
    for k in range(r.randint(1, 4)):
        for _ in range(r.randint(1, 3)): g.e(0, "SetLoadPath", r.choice(["", "/", "/opt/gams", "C:\\gams dir\\", "x" * r.choice([1, 100, 253, 254, 255])]))
        g.e(0, "GetLoadPath")
        if r.random() < .5: g.wfile(r.choice([1, 2]), r.choice(["f1", "f2"]), L, syms)
        if r.random() < .5: g.e(0, "GetLoadPath")


OBSERVED = ["roundtrip", "ifaces", "dups", "domains", "uels", "usermap", "filtered", "values", "acronyms", "settexts", "metadata", "append", "errors", "summary", "wild"]


def observed(seed, n):
    """a script of another profile with tracing switched on and off and queries made all over the place"""
    base = globals()[OBSERVED[n % len(OBSERVED)]]("ob" + seed, n)
    w = Wild(f"observed:{seed}", n)
    r = w.r
    w.paths = ()
    p = r.choice([.05, .15, .3])
    ev, live = [], set()
    todo = []
    for e in base["ev"]:                                     # look between the records as well
        if e["o"] == "Rep" and e["a"][0] in ("WriteStr", "WriteRaw", "WriteMap", "RegRaw", "RegStr", "RegMap", "FilterReg") and len(e["a"][1]) <= 25 and r.random() < .7:
            for q in e["a"][1]: todo.append(dict(x=e["x"], o=e["a"][0], a=q))
        elif e["o"] == "Loop" and e["a"][0] in ("ReadRaw", "ReadStr") and e["a"][1] > 3 and r.random() < .7:
            for _ in range(r.randint(1, 4)): todo.append(dict(x=e["x"], o=e["a"][0], a=[]))
            todo.append(e)
        else: todo.append(e)
    for e in todo:
        if e["o"] == "WriteStr" and r.random() < .3:
            l = [q for q in e["a"][0] if q]
            if l: ev.append(dict(x=e["x"], o="FindUel", a=[r.choice(l)]))
        if e["o"] in ("WriteRaw", "WriteMap") and r.random() < .15:
            l = [q for q in e["a"][0] if q]
            if l: ev.append(dict(x=e["x"], o="UelGet", a=[r.choice(l)]))
        ev.append(e)
        if e["o"] == "Create": live.add(e["x"])
        if e["o"] == "Destroy": live.discard(e["x"])
        if e["o"] in ("OpenWrite", "OpenWriteEx", "OpenRead", "OpenReadEx", "OpenAppend") and r.random() < .6: ev.append(dict(x=e["x"], o="Trace", a=w.args("Trace")))
        while live and r.random() < p:
            x = e["x"] if e["x"] in live else r.choice(sorted(live))
            o = "Trace" if r.random() < .25 else r.choice(QUERY_OPS)
            a = w.args(o)
            if o == "AcrNextNr": a = [-1]
            ev.append(dict(x=x, o=o, a=a))
    return dict(base, id=f"observed-{seed}-{n}", ev=ev)
