"""The tools on every pair of files of a small family: the laws are checked on the specification, the pairs are replayed into the tools."""
import json, random, re
from gen import *
from vlib import *
from mc import c, K

Z, ONE, TWO = tok(0.0), tok(1.0), tok(2.0)
EPS, NA, PINF, MINF = SVD[4], SVD[1], SVD[2], SVD[3]
DEFV = [Z, Z, Z, PINF, ONE]          # a positive variable
LEV = [ONE, Z, Z, PINF, ONE]
MAR = [Z, ONE, Z, PINF, TWO]
EQ = [Z, Z, Z, Z, ONE]


def sym(n, typ, dim, recs, ui=0, txt="t"):
    return dict(n=n, typ=typ, dim=dim, recs=recs, ui=ui, txt=txt)


def p1(*r): return [sym("p", 1, 1, list(r))]


FAMILY = [[], p1(), p1(("a", [ONE])), p1(("a", [TWO])), p1(("a", [Z])), p1(("a", [EPS])), p1(("a", [NA])), p1(("b", [ONE])), p1(("a", [ONE]), ("b", [TWO])), p1(("a", [ONE]), ("b", [Z])),
          [sym("P", 1, 1, [("A", [ONE])])], [sym("p", 1, 0, [((), [ONE])])], [sym("p", 1, 0, [])], [sym("p", 0, 1, [("a", "")])], [sym("p", 0, 1, [("a", "x")])], [sym("p", 0, 1, [("a", "x"), ("b", "")])],
          [sym("p", 2, 1, [], 3)], [sym("p", 2, 1, [("a", DEFV)], 3)], [sym("p", 2, 1, [("a", LEV)], 3)], [sym("p", 2, 1, [("a", MAR), ("b", LEV)], 3)], [sym("p", 3, 1, [("a", EQ)], 53)], [sym("p", 3, 1, [("b", LEV)], 53)],
          p1(("a", [ONE])) + [sym("q", 0, 1, [("b", "")])], p1(("a", [TWO])) + [sym("q", 0, 1, [("a", "y")])], [sym("p", 1, 2, [(("a", "b"), [ONE]), (("b", "a"), [PINF])])], [sym("p", 1, 2, [(("a", "b"), [ONE]), (("b", "a"), [MINF])])],
          [sym("p", 0, 1, [("a", "x")]), sym("al", 4, 1, "p")], [sym("p", 1, 1, [("a", [ONE])], 0, "other text")], [sym("p", 1, 1, [("a", [ACR[1]])])], [sym("p", 1, 1, [("a", [ACR[2]])])]]
ORDERS = [["a", "b"], ["B", "a"]]


def calls(path, syms, order, x=1, compr=0):
    l = [c(x, "OpenWriteEx", path, "prod", compr), c(x, "RegRawStart")] + [c(x, "RegRaw", u) for u in order] + [c(x, "RegDone")]
    tx = {"": 0}
    nr = {u.upper(): n + 1 for n, u in enumerate(order)}
    if any(v in ACR for s in syms if s["typ"] == 1 for _, v in [(k, v[0]) for k, v in s["recs"]]):
        l += [c(x, "AcrAdd", "acr1" if order[0] == "a" else "ACR1", "", 1), c(x, "AcrAdd", "acr2", "", 2)]
    for s in syms:
        if s["typ"] == 4:
            l.append(c(x, "AddAlias", s["recs"], s["n"])); continue
        recs = []
        for k, v in s["recs"]:
            if s["typ"] == 0:
                if v not in tx:
                    tx[v] = len(tx); l.append(c(x, "AddSetText", v))
                v = [tok(float(tx[v]))]
            recs.append((tuple(nr[u.upper()] for u in ((k,) if isinstance(k, str) else k)), v))
        l.append(c(x, "WriteRawStart", s["n"], s["txt"], s["dim"], s["typ"], s["ui"]))
        l += [c(x, "WriteRaw", K(*k), v) for k, v in sorted(recs)]
        l.append(c(x, "WriteDone"))
    return l + [c(x, "Close")]


DO = dict(eps=0, rel=0, field=0, fldonly=False, diffonly=False, settext=True, defaults=False, domains=False, matrix=False, ids=[], skip=[], hasids=False, hasskip=False, file1="a.gdx", file2="b.gdx", usage=False)
MO = dict(ids=[], excl=[], strict=False, wild=False, bad=False, existed=False, usage=False)
UO = dict(file="a.gdx", fmt="normal", dfmt="normal", delim=".", sep=".", hdr=True, data=True, symb="", uel="", list="", cdim=False, filter=True, sv={}, hashdr=False, header="", allf=False, stext=False, usage=False)
OPTS = {
    "gdxdiff": [(dict(DO, **o), a) for o, a in [({}, []), (dict(defaults=True), ["CmpDefaults"]), (dict(eps=64), ["Eps=1"]), (dict(rel=64, defaults=True), ["RelEps=1", "CmpDefaults"]), (dict(diffonly=True), ["DiffOnly"]),
        (dict(diffonly=True, field=1), ["DiffOnly", "Field=L"]), (dict(fldonly=True, field=2), ["FldOnly", "Field=M"]), (dict(settext=False), ["SetDesc=N"]), (dict(hasids=True, ids=["P"]), ["ID=P"]), (dict(hasskip=True, skip=["p"]), ["SkipID=p"]), (dict(matrix=True), ["MatrixFile"])]],
    "gdxmerge": [(dict(MO, **o), a) for o, a in [({}, []), ({}, ["big=1"]), (dict(ids=["Q", "al"]), ["id=Q,al"]), (dict(excl=["P"]), ["exclude=P"])]],
    "gdxdump": [(dict(UO, **o), a) for o, a in [({}, []), (dict(filter=False), ["FilterDef=N"]), (dict(symb="p"), ["Symb=p"]), (dict(symb="P", fmt="csv", delim=","), ["Symb=P", "Format=csv"]), (dict(symb="p", fmt="csv", delim=",", allf=True), ["Symb=p", "Format=csv", "CSVAllFields"]),
        (dict(symb="p", fmt="csv", delim=",", stext=True), ["Symb=p", "Format=csv", "CSVSetText"]), (dict(fmt="gamsbas"), ["Format=gamsbas"]), (dict(list="symbols"), ["Symbols"]), (dict(list="domain"), ["DomainInfo"]), (dict(list="text"), ["SetText"]), (dict(data=False), ["NoData"]),
        (dict(symb="p", fmt="csv", delim=",", cdim=True), ["Symb=p", "Format=csv", "CDim=Y"]), (dict(hdr=False, uel="u"), ["NoHeader", "UelTable=u"])]],
}
TOOL = {"C19": "gdxdiff", "C20": "gdxmerge", "C21": "gdxdump"}
START = [c(0, "Path", p) for p in ("a.gdx", "b.gdx", "out.gdx")] + [c(1, "Create"), c(1, "AutoConvert", 0)]


def explore(pid, work, tier, seed, log=lambda s: None):
    tool = TOOL[pid]
    fam = [(s, o) for s in FAMILY for o in ORDERS]
    f = f"{work}/mc_{pid}.json"
    json.dump(dict(tool=tool, files=[START + calls("a.gdx", s, o) for s, o in fam], opts=[o for o, a in OPTS[tool]]), open(f, "w"))
    st = dict(states=0, transitions=0, configs=[], dropped=0)
    if tool != "gdxdump":
        out = run_tlc(work, "MCTools.tla", "MCTools.cfg", dict(MC_FILE=f), heap="8g", tag="mct")
        if "Model checking completed. No error has been found." not in out:
            i = out.find("Error:")
            raise CheckError(f"specification of {tool} violates its own laws:\n" + out[i:i + 3000])
        g = re.search(r"(\d+) states generated, (\d+) distinct", out)
        st.update(states=int(g.group(2)), transitions=int(g.group(1)), configs=[dict(module="MCTools", tool=tool, files=len(fam), options=len(OPTS[tool]), states=int(g.group(2)))])
    pairs = [(a, b) for a in range(len(fam)) for b in range(len(fam))] if tool != "gdxdump" else [(a, a) for a in range(len(fam))]
    r = random.Random(f"{seed}:{pid}:pairs")
    n = dict(quick=500, thorough=len(pairs))[tier]
    if len(pairs) > n:
        st["dropped"] = len(pairs) - n
        pairs = r.sample(pairs, n)
    sc = []
    for q, (a, b) in enumerate(pairs):
        ev = START + calls("a.gdx", *fam[a]) + calls("b.gdx", *fam[b], compr=q % 2)
        for o, argv in OPTS[tool]:
            if tool == "gdxdiff": ev = ev + [c(0, "Tool", "gdxdiff", ["a.gdx", "b.gdx", "out.gdx"] + argv, o, "out.gdx", 1)]
            elif tool == "gdxmerge": ev = ev + [c(0, "Tool", "gdxmerge", ["a.gdx", "b.gdx", "output=out.gdx"] + argv, dict(o, files=[dict(path="a.gdx", id="a"), dict(path="b.gdx", id="b")]), "out.gdx", 1)]
            else: ev = ev + [c(0, "Tool", "gdxdump", ["a.gdx"] + argv, o, "", 0)]
        sc.append(dict(id=f"mct-{pid}-{a}-{b}", ev=[dict(x=x, o=o, a=v) for x, o, v in ev]))
    log(f"  model of {tool}: {st['states']} pairs with options, {len(sc)} scripts")
    return sc, st
