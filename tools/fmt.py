"""An encoder of GDX file images with many more choices than the library's writer has (the decoder is spec/GDXFormat.tla)."""
import random, struct, zlib


class Enc:
    def __init__(self, r, ver=7, sw=(0, 0, 0), compr=0):
        self.r, self.ver, self.sw, self.compr = r, ver, sw, compr       # sw: word, integer, double in the other byte order

    def o(self, k): return ">" if self.sw[k] else "<"
    def word(self, n): return struct.pack(self.o(0) + "H", n)
    def int(self, n): return struct.pack(self.o(1) + "i", n)
    def i64(self, n): return struct.pack(self.o(1) + "q", n)
    def dbl(self, hx): b = bytes.fromhex(hx); return b if self.sw[2] else b[::-1]
    def s(self, t): b = t.encode("latin-1")[:255]; return bytes([len(b)]) + b

    def header(self, idx, prod, audit, magic=b"\x07GAMSGDX", hdr=123, ver=None, boi=19510624, spare=True):
        v = self.ver if ver is None else ver
        h = b"\x02" + self.word(0x1234) + b"\x04" + self.int(0x12345678) + b"\x08" + self.dbl("400921FB54442D18")
        h += bytes([hdr]) + magic + self.int(v)
        if v > 5: h += self.int(self.compr)
        h += self.s(audit) + self.s(prod) + self.int(boi)
        if v <= 5: h += b"".join(self.int(i) for i in (idx[0], idx[1], idx[2], idx[4]))
        elif v == 6: h += b"".join(self.i64(i) for i in idx[:3])
        else: h += b"".join(self.i64(i) for i in idx)
        return h + (b"\0" * 40 if spare else b"")

    # -- records
    def value(self, t, plain=.15):
        """t: stored token as in the specification"""
        r = self.r
        code = {"und": 0, "na": 1, "pinf": 2, "minf": 3, "eps": 4, "0000000000000000": 5, "3FF0000000000000": 6, "BFF0000000000000": 7,
                "3FE0000000000000": 8, "4000000000000000": 9}.get(t)
        if code is not None and (code < 5 or r.random() > plain):
            return bytes([code])
        if code == 5 and r.random() < .3: return bytes([r.randint(11, 255)])
        return b"\x0a" + self.dbl(t[:16])

    redund = False      # records may repeat leading keys that did not change

    def data(self, dim, typ, recs, cnt=None, tight=True):
        r = self.r
        out = b"\x06_DATA_" + bytes([dim]) + self.int(len(recs) if r.random() < .7 else -1)
        if dim == 0 and not recs:
            return out + b"\xff"
        mn, mx = [], []
        for d in range(dim):
            ks = [k[d] for k, _ in recs] or [1]
            lo, hi = min(ks), max(ks)
            if not tight:
                lo = max(0, lo - r.choice([0, 0, 1, lo, r.randint(0, 300)]))
                q = r.random()
                hi = hi if q < .3 else lo + 254 if q < .4 else lo + 255 if q < .5 else lo + 65534 if q < .6 else lo + 65535 if q < .7 else 2147483647 if q < .8 else hi + r.randint(0, 70000)
                hi = min(2147483647, max(hi, max(ks)))
            if not recs and r.random() < .5: lo, hi = 2147483647, r.choice([0, 1, -1])
            mn.append(lo); mx.append(hi)
            out += self.int(lo) + self.int(hi)
        delta = 10 if self.ver <= 6 else dim
        last = [-256] * dim
        for k, v in recs:
            if dim == 0: out += bytes([r.choice([1, 1, 7, 254]) if delta == 0 else r.choice([11, 12, 254])])
            else:
                fd = next(i for i in range(dim) if k[i] != last[i])
                step = k[dim - 1] - last[dim - 1]
                if fd == dim - 1 and 1 <= step <= 254 - delta and last[dim - 1] != -256 and r.random() < .8 and delta + step != 255:
                    out += bytes([delta + step])
                else:
                    if last[0] == -256: fd = 0
                    elif self.redund and r.random() < .4: fd = r.randint(0, fd)
                    out += bytes([fd + 1])
                    for d in range(fd, dim):
                        rg = mx[d] - mn[d] + 1
                        n = k[d] - mn[d]
                        out += self.int(n) if rg <= 0 or rg > 65535 else self.word(n) if rg > 255 else bytes([n])
                last = list(k)
            out += b"".join(self.value(t) for t in v)
        return out + b"\xff"

    # -- compressed blocks
    def pack(self, b):
        """b as a chain of blocks"""
        r = self.r
        out, p = b"", 0
        mode = r.choice(getattr(self, "modes", ["big", "small", "stored", "mix"]))
        while p < len(b):
            n = {"big": 32768, "small": r.randint(1, 40), "stored": r.choice([3, 500, 32768] if len(b) < 20000 else [500, 32767, 32768, 32768]), "mix": r.choice([1, 7, 100, 32768])}[mode]
            c = b[p:p + n]; p += n
            z = zlib.compress(c, r.choice([0, 1, 6, 9]))
            if mode == "stored" or (mode == "mix" and r.random() < .5) or len(z) > 65000:
                out += b"\x00" + struct.pack(">H", len(c)) + c
            else: out += bytes([1 if r.random() < .8 else r.randint(2, 255)]) + struct.pack(">H", len(z)) + z
        return out

    def build(self, c, bad=None, hole=None):
        """c: dict prod audit uels stxt syms acr doms links; bad: kind of damage;
        hole (fraction, size): so many bytes are to be put in at self.holeat, positions count them"""
        r = self.r
        m = lambda t: self.s(t if bad != "mark" + t and not (bad or "").startswith("mark2" + t) else r.choice(["_XXXX_", t.lower(), t[:-1], t + "_", ""]))
        v = self.ver
        quirk = 1 if c["audit"][15:19] == "2001" else 0
        tail = lambda t: m(t) if bad != "end" + t else self.s(r.choice(["_XXXX_", "", t[:-1]]))
        secs = []
        for i, s in enumerate(c["syms"]):
            b = b""
            if s["typ"] != 4:
                b = self.data(s["dim"], s["typ"], s["recs"], tight=r.random() < .5)
                if bad == f"data{i}": b = b"\x06_DATB_" + b[7:]
                if bad == f"dim{i}": b = b[:7] + bytes([(b[7] + 1) % 21]) + b[8:]
                s["cz"] = 1 if v > 5 and (self.compr and s["dim"] > 0 or r.random() < .1) and r.random() < .93 else 0
                if s["cz"]: b = self.pack(b)
            else: s["cz"] = 0
            secs.append([("sym", i), b])
        st = m("_SETT_") + self.int(len(c["stxt"])) + b"".join(map(self.s, c["stxt"])) + tail("_SETT_")
        ue = m("_UEL_") + self.int(len(c["uels"]) + quirk) + b"".join(map(self.s, c["uels"])) + tail("_UEL_")
        ac = m("_ACRO_") + self.int(len(c["acr"])) + b"".join(self.s(n) + self.s(t) + self.int(i) for n, t, i in c["acr"]) + tail("_ACRO_")
        dm = m("_DOMS_") + self.int(len(c["doms"])) + b"".join(map(self.s, c["doms"])) + (m("_DOMS_") if bad != "mid_DOMS_" else self.s("_DOMX_"))
        for n, l in c["links"]: dm += self.int(n) + b"".join(map(self.int, l))
        dm += self.int(r.choice([-1, 0, -7])) + tail("_DOMS_")
        secs += [[("SETT", 0), st], [("UEL", 0), ue]]
        nodoms = v < 7 or (not c["doms"] and not c["links"] and bad is None and r.random() < .3)
        if v >= 7: secs.append([("ACRO", 0), ac])
        if not nodoms: secs.append([("DOMS", 0), dm])
        # positions depend on the symbol table only through its own entries: place everything else first or leave room
        hlen = len(self.header([0] * 6, c["prod"], c["audit"]))
        if r.random() < .4: r.shuffle(secs)
        pos, p, body = {}, hlen, b""
        hk, self.holeat = (int(hole[0] * (len(secs) + 1)) if hole else -1), None
        for j, (key, b) in enumerate(secs + [[None, b""]]):
            if j == hk: self.holeat = hlen + len(body); p += hole[1]
            if key is None: break
            if self.compr > 0 and key[0] not in ("sym",): b = self.pack(b)
            if r.random() < .15: g = r.randint(1, 30); body += bytes(r.getrandbits(8) for _ in range(g)); p += g
            pos[key] = p; body += b; p += len(b)
        sy = m("_SYMB_") + self.int(len(c["syms"]))
        for i, s in enumerate(c["syms"]):
            ps = pos[("sym", i)]
            sy += self.s(s["name"]) + (self.int(ps) if v <= 5 else self.i64(ps)) + self.int(s["dim"]) + bytes([s["typ"]]) + self.int(s["ui"]) + \
                self.int(s["cnt"]) + self.int(s["nerr"]) + bytes([s["stx"]]) + self.s(s["txt"])
            if v > 5: sy += bytes([s["cz"] if not s["cz"] or r.random() < .9 else r.randint(1, 255)])
            if v >= 7:
                sy += bytes([1 if s["dom"] is not None else 0]) + (b"".join(map(self.int, s["dom"])) if s["dom"] is not None else b"")
                sy += self.int(len(s["comm"])) + b"".join(map(self.s, s["comm"]))
        sy += tail("_SYMB_")
        if self.compr > 0: sy = self.pack(sy)
        idx = [p, pos[("UEL", 0)], pos[("SETT", 0)], pos.get(("ACRO", 0), 0), p, 0 if nodoms else pos[("DOMS", 0)]]
        hk = {}     # what is wrong in the header
        if bad == "hdr": hk["hdr"] = r.choice([0, 122, 124, 255])
        if bad == "magic": hk["magic"] = r.choice([b"\x07GAMSGDY", b"\x06GAMSGD", b"\x08GAMSGDX ", b"\x00"])
        if bad == "ver": hk["ver"] = r.choice([8, 9, 100, 2147483647])
        if bad == "boi": hk["boi"] = r.choice([0, 19510623, -1])
        magic = {} if bad or r.random() < .9 else dict(magic=b"\x07gamsGdx")
        h = self.header(idx, c["prod"], c["audit"], **magic, **hk)
        if bad == "sizes": k = r.choice([0, 3, 8]); h = h[:k] + bytes([(h[k] + r.choice([1, 2, 4, 255])) % 256]) + h[k + 1:]
        if bad == "pattern": k = r.choice([1, 2, 4, 5, 6, 7] + list(range(9, 17))); h = h[:k] + bytes([h[k] ^ (1 << r.randint(0, 7))]) + h[k + 1:]
        b = h + body + sy
        if bad == "empty": b = b[:r.choice([0, 1, 5, 17, 18, 25, 26, 30])]
        if bad == "pos":
            k = r.randint(0, 2); idx[k] = r.choice([0, 5, len(b), len(b) + 100, idx[k] + 1])
            b = self.header(idx, c["prod"], c["audit"]) + body + sy
        if bad is None and r.random() < .1: b += bytes(r.getrandbits(8) for _ in range(r.randint(1, 50)))
        return b


BAD = ["hdr", "magic", "ver", "boi", "sizes", "pattern", "empty", "pos", "mark_SYMB_", "mark_UEL_", "mark_SETT_", "mark_ACRO_", "mark_DOMS_",
       "end_SYMB_", "end_UEL_", "end_SETT_", "end_ACRO_", "end_DOMS_", "mid_DOMS_"]
