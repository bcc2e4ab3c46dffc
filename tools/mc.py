"""Bounded exhaustive exploration of the specification, and the scripts that cover every transition found."""
import json, re, random
from gen import *
from vlib import *

Z, ONE, TWO, HALF = tok(0.0), tok(1.0), tok(2.0), tok(0.5)
K = lambda *a: list(a) + [1] * (20 - len(a))
D = lambda *a: list(a) + ["*"] * (20 - len(a))
E20 = lambda *a: list(a) + [""] * (20 - len(a))


def c(x, op, *a):
    return [x, op, list(a)]


PATHS = [c(0, "Path", p) for p in ("f0", "f1", "f2")]
NEW1 = [c(1, "Create"), c(1, "AutoConvert", 0)]


def base(x=1, path="f0", compr=0, acr=False):
    """a small file with sets, a parameter, a scalar and texts"""
    l = [c(x, "OpenWriteEx", path, "prod", compr), c(x, "RegRawStart")] + [c(x, "RegRaw", u) for u in ("a", "b", "c")] + [c(x, "RegDone"),
         c(x, "AddSetText", "tx"),
         c(x, "WriteRawStart", "s", "set", 1, 0, 0), c(x, "WriteRaw", K(1), [ONE]), c(x, "WriteRaw", K(2), [Z]), c(x, "WriteRaw", K(3), [Z]), c(x, "WriteDone"),
         c(x, "WriteRawStart", "p", "par", 2, 1, 0), c(x, "WriteRaw", K(1, 2), [HALF]), c(x, "WriteRaw", K(1, 3), [SVD[4]]),
         c(x, "WriteRaw", K(3, 1), [ACR[1] if acr else SVD[1]]), c(x, "WriteDone"),
         c(x, "WriteRawStart", "z", "scalar", 0, 1, 0), c(x, "WriteRaw", K(), [TWO]), c(x, "WriteDone")]
    if acr: l += [c(x, "AcrSetInfo", 1, "acr1", "first", 1), c(x, "AcrAdd", "acr2", "second", 4)]
    return l + [c(x, "Close")]


def look(x, path, ns=4, nu=4, rename=False):
    l = [c(x, "OpenRead", path), c(x, "SysInfo")]
    for i in range(0, ns + 1):
        l += [c(x, "SymInfo", i), c(x, "SymInfoX", i)]
    for i in range(1, ns + 1):
        l += [c(x, "FastEx", i, -1), c(x, "GetDomain", i), c(x, "GetDomainX", i), c(x, "HasText", i), c(x, "GetComment", i, 1)]
    for i in range(1, nu + 1):
        l.append(c(x, "UelGet", i))
    for i in range(0, 3):
        l += [c(x, "GetElemText", i), c(x, "AcrGetInfo", i + 1)]
    return l + [c(x, "Close")]


ERRS = [c(1, "DataErrCount"), c(1, "DataErrRecX", 1), c(1, "DataErrRecX", 2), c(1, "DataErrRecX", 3), c(1, "LastError"), c(1, "LastError"), c(1, "ErrCount")]
FIN = ERRS + [c(1, "CurDim"), c(1, "UelInfo"), c(1, "AcrCount"), c(1, "SysInfo"), c(1, "Close")]


def cfg(alpha, setup, suffix, quick=4, thorough=6, errs=0, cap=(2000, 20000), mid=((),)):
    """mid: alternatives of calls put between setup and the path (one per script, in turn)"""
    return dict(alpha=alpha, setup=setup, suffix=suffix, quick=quick, thorough=thorough, errs=errs, cap=cap, mid=mid)


W = PATHS + NEW1 + [c(1, "OpenWriteEx", "f1", "p", 0)]
WU = W + [c(1, "RegRawStart"), c(1, "RegRaw", "a"), c(1, "RegRaw", "b"), c(1, "RegRaw", "c"), c(1, "RegDone")]
CRASH = [c(0, "Path", "zz"), c(8, "Create"), c(8, "AutoConvert", 0)]
PEEK = [c(8, "OpenRead", "zz"), c(8, "LastError"), c(8, "SysInfo"), c(8, "Close")]
WALPHA = [c(1, "RegRawStart"), c(1, "RegRaw", "n"), c(1, "RegDone"), c(1, "WriteRawStart", "x", "t", 2, 1, 0), c(1, "WriteRaw", K(1, 2), [TWO]), c(1, "WriteRaw", K(2, 1), [HALF]),
          c(1, "WriteDone"), c(1, "WriteStrStart", "y", "t", 1, 0, 0), c(1, "WriteStr", D("q"), [ONE]), c(1, "AddSetText", "tx"), c(1, "AddComment", 1, "com"),
          c(1, "AcrAdd", "acr1", "first", 1), c(1, "AddAlias", "x", "al")]
AGAIN = [c(1, "OpenWriteEx", "zz", "p", 0), c(1, "LastError"), c(1, "WriteStrStart", "s", "t", 1, 0, 0), c(1, "WriteStr", D("a"), [ONE]), c(1, "WriteDone"), c(1, "Close"), c(0, "Dump", "zz")]
FAULTS = [[c(0, "Fault", k, n, m)] for k, ns, ms in (("enospc", range(1, 12), (1, -1)), ("eio", range(1, 12), (1, 2)), ("short", range(1, 8), (1, 3)), ("one", range(1, 8), (1,)), ("zero", range(1, 6), (1,)),
          ("eintr", range(1, 6), (1, 2)), ("seek", range(1, 8), (1, -1)), ("close", (1,), (1,))) for n in ns for m in ms] + [[c(0, "Limit", n)] for n in list(range(0, 200, 13)) + list(range(200, 700, 31))]
R = PATHS + NEW1 + base() + [c(1, "OpenRead", "f0")]

CFG = {
    "C01": [cfg([c(1, "WriteRawStart", "x", "t", 2, 1, 0), c(1, "WriteRaw", K(1, 1), [ONE]), c(1, "WriteRaw", K(1, 2), [TWO]), c(1, "WriteRaw", K(1, 300), [Z]),
                 c(1, "WriteRaw", K(2, 1), [HALF]), c(1, "WriteRaw", K(2, 70000), [SVD[1]]), c(1, "WriteDone"), c(1, "WriteRawStart", "y", "t", 1, 0, 0),
                 c(1, "WriteRaw", K(252), [Z]), c(1, "WriteRaw", K(254), [ONE]), c(1, "Close")], WU, FIN + look(1, "f1", 3), 6, 8)],
    "C02": [cfg([c(1, "ReadRawStart", 2), c(1, "ReadRaw"), c(1, "ReadStrStart", 2), c(1, "ReadStr"), c(1, "ReadMapStart", 2), c(1, "ReadMap"),
                 c(1, "ReadFiltStart", 2, [-1] * 20), c(1, "ReadFiltStart", 2, [-2] * 20), c(1, "FastEx", 2, -1), c(1, "FastEx", 2, 2), c(1, "FastFilt", 2, E20("a"), -1),
                 c(1, "SliceStart", 2), c(1, "Slice", E20("", "a")), c(1, "Slice", E20()), c(1, "SliceUels", [0] * 20), c(1, "ReadDone"), c(1, "DomElems", 2, 2, -1, 1),
                 c(1, "ReadRawStart", 0), c(1, "RegMapStart"), c(1, "RegMap", 2, "a"), c(1, "RegMap", 1, "c"), c(1, "RegDone")], R, FIN + look(1, "f0"), 5, 7),
            cfg([c(1, "WriteMapStart", "m", "t", 1, 1, 0), c(1, "WriteMap", K(1), [ONE]), c(1, "WriteMap", K(2), [TWO]), c(1, "WriteMap", K(3), [TWO]),
                 c(1, "WriteStrStart", "n", "t", 1, 1, 0), c(1, "WriteStr", D("a"), [ONE]), c(1, "WriteStr", D("B"), [TWO]), c(1, "WriteStr", D("d"), [TWO]), c(1, "WriteDone")],
                WU + [c(1, "RegMapStart"), c(1, "RegMap", 2, "a"), c(1, "RegMap", 1, "b"), c(1, "RegDone")], FIN + look(1, "f1"), 6, 8)],
    "C03": [cfg([c(1, "ReadRawStart", 1), c(1, "ReadRawStart", 2), c(1, "ReadRawStart", 3), c(1, "ReadRaw"), c(1, "ReadStrStart", 2), c(1, "ReadStr"), c(1, "ReadDone"),
                 c(1, "FastEx", 1, -1), c(1, "FastEx", 2, 1), c(1, "Close"), c(1, "OpenRead", "f1"), c(1, "OpenRead", "f0")],
                PATHS + NEW1 + base() + base(path="f1", compr=1) + [c(1, "OpenRead", "f1")], FIN + look(1, "f0") + look(1, "f1"), 8, 10)],
    "C04": [cfg([c(1, "WriteRawStart", "x", "t", 2, 1, 0), c(1, "WriteRaw", K(1, 1), [ONE]), c(1, "WriteRaw", K(1, 2), [TWO]), c(1, "WriteRaw", K(1, 256), [Z]),
                 c(1, "WriteRaw", K(2, 1), [HALF]), c(1, "WriteRaw", K(300, 70000), [SVD[1]]), c(1, "WriteDone"), c(1, "WriteStrStart", "y", "t", 1, 0, 0),
                 c(1, "WriteStr", D("q"), [ONE]), c(1, "SetDomain", D("s")), c(1, "SetDomainX", 1, D("d1", "d2")), c(1, "AddSetText", "tx"), c(1, "AddSetText", "ty"),
                 c(1, "AddComment", 1, "com"), c(1, "AcrAdd", "acr1", "first", 1), c(1, "AddAlias", "s", "al")],
                PATHS + NEW1 + [c(1, "OpenWriteEx", "f1", "p", z), c(1, "RegRawStart"), c(1, "RegRaw", "a"), c(1, "RegRaw", "b"), c(1, "RegDone"),
                                c(1, "WriteRawStart", "s", "t", 1, 0, 0), c(1, "WriteRaw", K(2), [Z]), c(1, "WriteDone")],
                FIN + [c(0, "Dump", "f1")] + look(1, "f1", 4), 5, 6) for z in (0, 1)],
    "C05": [cfg([c(1, "WriteRaw", K(1, 1), [ONE]), c(1, "WriteRaw", K(1, 2), [TWO]), c(1, "WriteRaw", K(2, 1), [HALF]), c(1, "WriteRaw", K(2, 2), [Z]), c(1, "WriteDone"),
                 c(1, "DataErrCount"), c(1, "DataErrRec", 1), c(1, "DataErrRecX", 2), c(1, "WriteRawStart", "y", "t", 1, 1, 0)],
                WU + [c(1, "WriteRawStart", "x", "t", 2, 1, 0)], FIN + look(1, "f1", 2), 5, 7, errs=1),
            cfg([c(1, "WriteStr", D("a", "a"), [ONE]), c(1, "WriteStr", D("b", "a"), [TWO]), c(1, "WriteStr", D("a", "B"), [HALF]), c(1, "WriteStr", D("d", "a"), [Z]),
                 c(1, "WriteDone"), c(1, "DataErrRecX", 2)],
                WU + [c(1, "WriteStrStart", "x", "t", 2, 1, 0)], FIN + look(1, "f1", 2), 6, 8)],
    "C06": [cfg([c(1, "WriteRawStart", "x", "t", 1, 1, 0), c(1, "WriteStrStart", "y", "t", 2, 1, 0), c(1, "SetDomain", D("d")), c(1, "SetDomain", D("al", "d")),
                 c(1, "SetDomain", D("nope")), c(1, "SetDomain", D("q")), c(1, "SetDomain", D("*", "d")), c(1, "WriteRaw", K(1), [ONE]), c(1, "WriteRaw", K(2), [TWO]), c(1, "WriteRaw", K(3), [TWO]),
                 c(1, "WriteStr", D("a", "c"), [ONE]), c(1, "WriteStr", D("b", "a"), [ONE]), c(1, "WriteDone"), c(1, "SetStoreDomSets", 0), c(1, "SetAllowBogus", 0), c(1, "SetAllowBogus", 1)],
                WU + [c(1, "WriteRawStart", "d", "t", 1, 0, 0), c(1, "WriteRaw", K(1), [Z]), c(1, "WriteRaw", K(3), [Z]), c(1, "WriteDone"), c(1, "AddAlias", "d", "al"),
                      c(1, "SetStoreDomSets", 0), c(1, "WriteRawStart", "q", "t", 1, 0, 0), c(1, "WriteRaw", K(1), [Z]), c(1, "WriteDone"), c(1, "SetStoreDomSets", 1)],
                FIN + look(1, "f1", 5), 5, 6)],
    "C08": [cfg([c(1, "RegRawStart"), c(1, "RegRaw", "a"), c(1, "RegRaw", "A "), c(1, "RegRaw", "b"), c(1, "RegRaw", "x'\""), c(1, "RegRaw", "n" * 64), c(1, "RegDone"),
                 c(1, "RegStrStart"), c(1, "RegStr", "B"), c(1, "RegStr", "c  "), c(1, "RenameUel", "a", "n"), c(1, "RenameUel", "A", "B"), c(1, "RenameUel", "b", "a"), c(1, "RenameUel", "n", "N2"),
                 c(1, "FindUel", "a"), c(1, "FindUel", "N "), c(1, "UelGet", 1), c(1, "UelGet", 3)], W, FIN + look(1, "f1", 1), 7, 10),
            cfg([c(1, "RenameUel", "a", "n"), c(1, "RenameUel", "A ", "B"), c(1, "RenameUel", "b", "a"), c(1, "RenameUel", "n", "b "), c(1, "FindUel", "a"), c(1, "UelGet", 1), c(1, "UelGet", 2),
                 c(1, "RegStrStart"), c(1, "RegStr", "a"), c(1, "RegStr", "N"), c(1, "RegDone"), c(1, "ReadStrStart", 1), c(1, "ReadStr"), c(1, "FastFilt", 2, E20("n"), -1)], R, FIN + look(1, "f0"), 6, 9)],
    "C09": [cfg([c(1, "RegMapStart"), c(1, "RegMap", 1, "a"), c(1, "RegMap", 2, "a"), c(1, "RegMap", 1, "b"), c(1, "RegMap", 3, "b"), c(1, "RegMap", 0, "c"), c(1, "RegMap", 3, "new"), c(1, "RegMap", -1, "b"),
                 c(1, "RegDone"), c(1, "RegStrStart"), c(1, "RegStr", "b"), c(1, "RegStr", "C"), c(1, "GetUel", 1), c(1, "GetUel", 3), c(1, "FindUel", "A"), c(1, "UelInfo"), c(1, "UelGet", 2)],
                R, FIN + look(1, "f0"), 7, 9)],
    "C10": [cfg([c(1, "RegMapStart"), c(1, "RegMap", 3, "a"), c(1, "RegMap", 1, "b"), c(1, "RegMap", 2, "c"), c(1, "RegDone"), c(1, "FiltStart", 1), c(1, "FiltReg", 1), c(1, "FiltReg", 3), c(1, "FiltReg", 7), c(1, "FiltDone"),
                 c(1, "ReadFiltStart", 2, [1] * 20), c(1, "ReadFiltStart", 2, [0] * 20), c(1, "ReadFiltStart", 2, [-1] + [-2] * 19), c(1, "ReadFiltStart", 1, [-1] * 20), c(1, "ReadFiltStart", 2, [1] + [-1] * 19),
                 c(1, "ReadMap"), c(1, "ReadDone"), c(1, "DataErrRecX", 1)], R, [c(1, "UelInfo")] + FIN + look(1, "f0"), 6, 9, cap=(2500, 30000))],
    "C11": [cfg([c(1, "SetSV", [tok(-1.0), tok(-2.0), tok(-3.0), tok(-4.0), tok(-5.0)]), c(1, "SetSV", [SVD[1], SVD[0], SVD[2], SVD[3], SVD[4]]), c(1, "SetSV", [ONE, ONE, TWO, HALF, Z]), c(1, "SetReadSV", [tok(7.0)] * 5),
                 c(1, "ResetSV"), c(1, "GetSV"), c(1, "MapValue", SVD[1]), c(1, "MapValue", tok(-2.0)), c(1, "WriteRaw", K(1, 1), [SVD[0]]), c(1, "WriteRaw", K(1, 2), [tok(-5.0)]),
                 c(1, "WriteRaw", K(1, 3), [INF]), c(1, "WriteRaw", K(2, 1), [NAN]), c(1, "WriteRaw", K(2, 2), ["8000000000000000"]), c(1, "WriteDone"), c(1, "Close"), c(1, "OpenRead", "f1"), c(1, "FastEx", 1, -1)],
                WU + [c(1, "WriteRawStart", "x", "t", 2, 1, 0)], FIN + look(1, "f1", 2), 4, 6)],
    "C12": [cfg([c(1, "AcrAdd", "ac1", "t", 1), c(1, "AcrAdd", "AC1", "t", 2), c(1, "AcrAdd", "ac2", "t", 2), c(1, "AcrSetInfo", 1, "nm", "t", 1), c(1, "AcrSetInfo", 2, "nm", "t", 2), c(1, "AcrSetInfo", 1, "nm", "t", 9),
                 c(1, "WriteRaw", K(1, 1), [ACR[1]]), c(1, "WriteRaw", K(1, 2), [ACR[3]]), c(1, "WriteDone"), c(1, "AcrGetInfo", 1), c(1, "AcrGetMap", 1), c(1, "AcrName", ACR[1]), c(1, "Close")],
                WU + [c(1, "WriteRawStart", "x", "t", 2, 1, 0)], FIN + look(1, "f1", 2), 5, 7),
            cfg([c(1, "AcrNextNr", 20), c(1, "AcrNextNr", 0), c(1, "FastEx", 2, -1), c(1, "ReadRawStart", 2), c(1, "ReadRaw"), c(1, "AcrSetInfo", 1, "acr1", "n", 7), c(1, "AcrSetInfo", 2, "acr2", "n", 21), c(1, "AcrSetInfo", 2, "acr2", "n", 7),
                 c(1, "AcrSetInfo", 1, "other", "n", 7), c(1, "AcrAdd", "acr3", "t", 7), c(1, "AcrAdd", "acr1", "t", 1), c(1, "AcrGetMap", 1), c(1, "AcrGetMap", 2), c(1, "SetAcrNaN", 1), c(1, "AcrCount"), c(1, "AcrName", ACR[20])],
                PATHS + NEW1 + base(acr=True) + [c(1, "OpenRead", "f0")], FIN + look(1, "f0"), 6, 8)],
    "C13": [cfg([c(1, "AddSetText", "t1"), c(1, "AddSetText", "it's \"q\""), c(1, "AddSetText", "'\""), c(1, "AddSetText", ""), c(1, "AddSetText", "x" * 300), c(1, "SetTextNode", 1, 5), c(1, "SetTextNode", 1, 6), c(1, "SetTextNode", 0, 3), c(1, "GetElemText", 1), c(1, "GetElemText", 2),
                 c(1, "WriteRaw", K(1), [ONE]), c(1, "WriteRaw", K(2), [TWO]), c(1, "WriteRaw", K(3), [ONE]), c(1, "WriteDone"), c(1, "Close"), c(1, "OpenRead", "f1"), c(1, "HasText", 1)],
                WU + [c(1, "WriteRawStart", "x", "t", 1, 0, 0)], FIN + look(1, "f1", 2), 5, 6)],
    "C14": [cfg([c(1, "WriteRawStart", "x", "t", 1, 0, 0), c(1, "WriteRawStart", "X", "dup", 2, 1, 0), c(1, "WriteRawStart", "1bad", "t", 1, 0, 0), c(1, "WriteRawStart", "v", "t", 21, 0, 0), c(1, "WriteRawStart", "v", "t", 1, 7, 0),
                 c(1, "WriteStrStart", "v", "it's", 2, 2, 3), c(1, "WriteRawStart", "s2", "t", 2, 0, 0), c(1, "WriteDone"), c(1, "AddAlias", "x", "al"), c(1, "AddAlias", "als", "S2"), c(1, "AddAlias", "*", "un"), c(1, "AddAlias", "v", "av"), c(1, "AddAlias", "al", "al2"), c(1, "AddComment", 1, "c1"), c(1, "AddComment", 0, "c2"),
                 c(1, "SetDomainX", 1, D("rel")), c(1, "SetDomainX", 2, D("rel", "x")), c(1, "SetDomain", D("x", "*")), c(1, "FindSym", "AL"), c(1, "GetDomainX", 1)],
                W, FIN + look(1, "f1", 5) + [c(1, "OpenRead", "f1"), c(1, "FindSym", "X"), c(1, "FindSym", "al"), c(1, "GetComment", 1, 2), c(1, "GetComment", 2, 1)], 5, 7)],
    "C15": [cfg([c(1, "OpenAppend", "f0", "app"), c(1, "Close"), c(1, "RegRawStart"), c(1, "RegRaw", "n"), c(1, "RegRaw", "A"), c(1, "RegDone"), c(1, "AddSetText", "tx"), c(1, "AddSetText", "t2"), c(1, "WriteStrStart", "new", "t", 1, 0, 0), c(1, "WriteStr", D("zz"), [TWO]),
                 c(1, "WriteDone"), c(1, "AddAlias", "s", "al"), c(1, "AddComment", 1, "cc"), c(1, "AcrAdd", "ac9", "t", 9), c(1, "OpenAppend", "f2", "app")],
                PATHS + NEW1 + base(acr=True) + [c(1, "OpenAppend", "f0", "app")], FIN + look(1, "f0", 6, 6), 5, 7),
            cfg([c(1, "OpenAppend", "f0", "app"), c(1, "Close"), c(1, "WriteRawStart", "n1", "t", 1, 1, 0), c(1, "WriteRaw", K(2), [TWO]), c(1, "WriteRawStart", "n2", "t", 1, 1, 0), c(1, "WriteDone"), c(1, "RenameUel", "a", "ren"), c(1, "SetDomain", D("s"))],
                PATHS + NEW1 + base(compr=1), FIN + look(1, "f0", 6, 6), 7, 9)],
    "C16": [cfg(WALPHA, PATHS + NEW1 + CRASH + [c(1, "OpenWriteEx", "f1", "p", z)],
                [c(0, "Dump", "f1"), c(8, "OpenRead", "f1"), c(8, "LastError"), c(8, "Close"), c(1, "Close")]
                + [q for k in range(8) for q in [c(0, "IoSnap", "zz", "f1", k, 0)] + PEEK + [c(0, "IoSnap", "zz", "f1", k, (137 * k + 500) % 1000)] + PEEK]
                + [q for k in (1, 2, 3, 5, 9, 14, 20, 27, 36, 50, 80) for q in [c(0, "Cut", "zz", "f1", -k, 0)] + PEEK], 4, 6, cap=(500, 8000)) for z in (0, 1)],
    "C17": [cfg(WALPHA + [c(1, "LastError")], PATHS + [c(0, "Path", "zz")] + NEW1 + [c(1, "OpenWriteEx", "f1", "p", z)],
                [c(1, "LastError"), c(1, "Close"), c(0, "FaultOff"), c(0, "Limit", -1), c(0, "Dump", "f1")] + AGAIN, 5, 6, cap=(1600, 30000), mid=FAULTS) for z in (0, 1)]
         + [cfg(WALPHA + [c(1, "LastError")], PATHS + [c(0, "Path", "zz")] + NEW1 + base() + [c(1, "OpenAppend", "f0", "app")],
                [c(1, "LastError"), c(1, "Close"), c(0, "FaultOff"), c(0, "Limit", -1), c(0, "Dump", "f0")] + AGAIN, 4, 5, cap=(1000, 9000), mid=FAULTS)],
    "C18": [cfg([c(1, "WriteRaw", K(1), [ONE]), c(1, "ReadRaw"), c(1, "OpenWrite", "f1", "p"), c(1, "OpenRead", "f2"), c(1, "OpenRead", ""), c(1, "Close"), c(1, "LastError"), c(1, "ErrCount"), c(1, "WriteRawStart", "x", "t", 1, 1, 0), c(1, "WriteRawStart", "1", "t", 1, 1, 0),
                 c(1, "WriteDone"), c(1, "AcrSetInfo", 1, "a b", "", 1), c(1, "SetSV", [ONE] * 5), c(1, "RegRawStart"), c(1, "RegRaw", "'\""), c(1, "GetDomain", 9)], PATHS + NEW1, FIN, 5, 6, errs=1)],
    "C22": [cfg([c(1, "OpenRead", "f0"), c(2, "OpenRead", "f0"), c(1, "ReadRawStart", 2), c(2, "ReadStrStart", 2), c(1, "ReadRaw"), c(2, "ReadStr"), c(1, "Close"), c(2, "Close"), c(1, "SetSV", [tok(-1.0), tok(-2.0), tok(-3.0), tok(-4.0), tok(-5.0)]),
                 c(2, "RenameUel", "a", "zz"), c(1, "RegMapStart"), c(1, "RegMap", 5, "a"), c(1, "RegDone"), c(2, "OpenWriteEx", "f2", "p", 1), c(2, "WriteStrStart", "x", "t", 1, 1, 0), c(2, "WriteStr", D("q"), [SVD[1]]), c(2, "WriteDone"), c(1, "Destroy"), c(2, "WriteRaw", K(1), [ONE])],
                PATHS + NEW1 + [c(2, "Create"), c(2, "AutoConvert", 0)] + base(), [c(2, "LastError"), c(2, "SysInfo"), c(2, "UelInfo"), c(2, "Close")] + look(2, "f0") + look(2, "f2", 1, 2), 5, 7)],
    "C23": [cfg([c(1, "MaxLens", 1), c(1, "MaxLens", 2), c(1, "MaxLens", 0), c(1, "DomElems", 2, 1, -1, 0), c(1, "DomElems", 2, 2, -1, 1), c(1, "UelMaxLen"), c(1, "SymMaxLen"), c(1, "ReadRawStart", 2), c(1, "ReadRaw"), c(1, "ReadMapStart", 2), c(1, "ReadMap"), c(1, "ReadDone"), c(1, "SymInfoX", 2),
                 c(1, "HasText", 1), c(1, "RenameUel", "a", "longer"), c(1, "SysInfo"), c(1, "SymInfoX", 0)], R, FIN + look(1, "f0"), 7, 9)],
    "C25": [cfg([c(1, "OpenWriteEx", "f1", "p", 0), c(1, "OpenRead", "f0"), c(1, "OpenAppend", "f0", "app"), c(1, "Close"), c(1, "RegStrStart"), c(1, "RegStr", "q"), c(1, "RegDone"), c(1, "WriteRawStart", "x", "t", 1, 1, 0), c(1, "WriteRaw", K(1), [ACR[1]]),
                 c(1, "WriteMapStart", "y", "t", 1, 0, 0), c(1, "WriteStrStart", "w", "t", 1, 1, 0), c(1, "WriteStr", D("b"), [TWO]), c(1, "WriteDone"), c(1, "ReadRawStart", 2), c(1, "ReadRaw"), c(1, "ReadMapStart", 2), c(1, "ReadMap"), c(1, "ReadStrStart", 2), c(1, "ReadStr"), c(1, "ReadDone"),
                 c(1, "SliceStart", 2), c(1, "Slice", E20("a")), c(1, "FiltStart", 1), c(1, "FiltReg", 1), c(1, "FiltDone")]
                + [c(1, "Trace", n, "tr") for n in (3, 0, 1, 2)] + [c(1, o) for o in ("MemUsed", "DllVersion", "SysInfo", "CurDim", "UelInfo", "AcrCount", "GetSV", "ErrCount", "DataErrCount", "FileInfo", "FileVersion", "UelMaxLen", "SymMaxLen",
                                                                      "GetStoreDomSets", "GetAllowBogus", "GetAcrNaN")]
                + [c(1, o, n) for o in ("GetDomain", "GetDomainX", "SymInfo", "SymInfoX", "SymDim", "HasText", "UelGet", "GetUel", "GetElemText", "AcrGetInfo", "AcrGetMap", "AcrValue") for n in (0, 1, 2, 9)]
                + [c(1, "GetComment", 1, 1), c(1, "FindSym", "P"), c(1, "FindSym", "no"), c(1, "FindUel", "A"), c(1, "FindUel", "zz"), c(1, "AcrIndex", ACR[2]), c(1, "AcrName", ACR[1]), c(1, "AcrName", ONE), c(1, "AcrNextNr", -1), c(1, "MapValue", SVD[2]), c(1, "MapValue", ONE),
                   c(1, "ErrStr", -100002), c(1, "DataErrRec", 1), c(1, "DataErrRecX", 1), c(1, "FiltExists", 1)],
                PATHS + NEW1 + base(acr=True), FIN + look(1, "f0") + look(1, "f1", 3), 5, 6, cap=(2500, 30000), mid=((), (c(1, "Trace", 3, "t"),)))],
    "C07": [cfg([c(1, "OpenWriteEx", "f1", "p", 0), c(1, "OpenRead", "f0"), c(1, "OpenAppend", "f0", "app"), c(1, "Close"), c(1, "RegRawStart"), c(1, "RegMapStart"), c(1, "RegStrStart"), c(1, "RegRaw", "q"), c(1, "RegMap", 4, "r"), c(1, "RegStr", "b"), c(1, "RegDone"),
                 c(1, "WriteRawStart", "x", "t", 1, 1, 0), c(1, "WriteMapStart", "y", "t", 1, 0, 0), c(1, "WriteStrStart", "w", "t", 1, 1, 0), c(1, "WriteRaw", K(1), [ONE]), c(1, "WriteMap", K(4), [ONE]), c(1, "WriteStr", D("b"), [TWO]), c(1, "WriteDone"), c(1, "SetDomain", D("*")),
                 c(1, "SetDomainX", 1, D("rel")), c(1, "AddAlias", "*", "al"), c(1, "AddComment", 1, "cm"), c(1, "AddSetText", "tt"), c(1, "AcrAdd", "ac", "t", 3), c(1, "RenameUel", "b", "bb"),
                 c(1, "ReadRawStart", 2), c(1, "ReadMapStart", 2), c(1, "ReadStrStart", 2), c(1, "ReadFiltStart", 2, [-1] * 20), c(1, "ReadRaw"), c(1, "ReadMap"), c(1, "ReadStr"), c(1, "ReadDone"), c(1, "FiltStart", 1), c(1, "FiltReg", 1), c(1, "FiltDone"), c(1, "FiltExists", 1),
                 c(1, "SliceStart", 2), c(1, "Slice", E20("a")), c(1, "SliceUels", [0] * 20), c(1, "FastEx", 1, -1), c(1, "FastFilt", 2, E20(), -1), c(1, "DomElems", 2, 1, -1, 1), c(1, "MaxLens", 2), c(1, "DataErrRec", 1), c(1, "GetUel", 1), c(1, "WriteRawStartKB", "kb", "t", 1, 1, 0, K(), K(9))],
                PATHS + NEW1 + base(), FIN + look(1, "f0") + look(1, "f1", 3), 5, 6, cap=(4000, 60000))],
}


DESIGN = {"C16": ["GDXIO"], "C17": ["GDXIO"]}
WEAK = {"GDXIO": [("GDXIO_order", "NeverMistaken"), ("GDXIO_latch", "Reported")]}


def explore(pid, work, tier, seed, log=lambda s: None):
    """model-check every configuration of a property; returns scripts covering every transition, and statistics"""
    scripts, st = [], dict(states=0, transitions=0, loops=0, configs=[], dropped=0)
    for m in DESIGN.get(pid, ()):
        out = run_tlc(work, m + ".tla", m + ".cfg", {}, tag=m)
        g = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if "Model checking completed. No error has been found." not in out or not g: raise CheckError(f"{m} violates its own invariants:\n" + out[-3000:])
        st["states"] += int(g.group(2)); st["transitions"] += int(g.group(1))
        st["configs"].append(dict(module=m, states=int(g.group(2)), transitions=int(g.group(1))))
        for bad, inv in WEAK.get(m, ()):      # the design without one of its two provisions must fail: the invariants are not vacuous
            if f"Invariant {inv} is violated" not in run_tlc(work, m + ".tla", bad + ".cfg", {}, tag=bad): raise CheckError(f"{m}: {inv} holds even for {bad}")
    for ci, cf_ in enumerate(CFG.get(pid, [])):
        depth = cf_[tier]
        f = f"{work}/mc_{pid}_{ci}.json"
        json.dump(dict(alpha=cf_["alpha"], setup=cf_["setup"], depth=depth, errs=cf_["errs"]), open(f, "w"))
        out = run_tlc(work, "MC.tla", "MC.cfg", dict(MC_FILE=f), heap="8g", tag=f"mc{ci}")
        if "Model checking completed. No error has been found." not in out:
            i = out.find("Error:")
            raise CheckError(f"specification {pid}/{ci} violates its own invariants:\n" + out[i:i + 3000])
        trans = {}
        n = nl = 0
        for m in re.finditer(r'^<<\s*"T",\s*<<([\d,\s]*)>>,\s*(\d+),\s*(\d)\s*>>', out, re.M):
            h = tuple(int(v) for v in m.group(1).split(",")) if m.group(1).strip() else ()
            trans.setdefault(h, []).append((int(m.group(2)), m.group(3) == "1"))
            n += 1
            nl += m.group(3) == "1"
        g = re.search(r"(\d+) states generated, (\d+) distinct", out)
        states = int(g.group(2))
        st["states"] += states; st["transitions"] += n; st["loops"] += nl
        st["configs"].append(dict(alphabet=len(cf_["alpha"]), depth=depth, states=states, transitions=n))
        paths = []
        r = random.Random(f"{seed}:{pid}:{ci}")
        for h, l in trans.items():
            loops = [i for i, lp in l if lp]
            r.shuffle(loops)
            paths.append(list(h) + loops)
            for i, lp in l:
                if not lp and h + (i,) not in trans:
                    paths.append(list(h) + [i])
        if len(cf_["mid"]) > 1: paths = paths * (12 if tier == "thorough" else 2)
        cap = cf_["cap"][tier == "thorough"]
        if len(paths) > cap:
            st["dropped"] += len(paths) - cap
            paths = r.sample(paths, cap)
        for k, p in enumerate(paths):
            scripts.append(dict(id=f"mc-{pid}-{ci}-{k}", ev=[dict(x=x, o=o, a=a) for x, o, a in cf_["setup"] + list(cf_["mid"][k % len(cf_["mid"])]) + [cf_["alpha"][i - 1] for i in p] + cf_["suffix"]]))
        log(f"  model {pid}/{ci}: depth {depth}, {states} states, {n} transitions, {len(paths)} scripts")
    return scripts, st


if __name__ == "__main__":
    import sys
    w = "/tmp/w"
    for p in sys.argv[2:] or sorted(CFG):
        t = time.time()
        sc, st = explore(p, w, sys.argv[1], 1, print)
        t1 = time.time()
        tr = run_driver("/tmp/w/o/driver", sc, w, "mcd")
        t2 = time.time()
        bad, s2 = check_traces(tr, w)
        print(p, "mc %.1f drv %.1f tlc %.1f" % (t1 - t, t2 - t1, time.time() - t2), len(sc), "scripts", sum(len(t["ev"]) for t in tr), "events bad", len(bad), "dropped", st["dropped"], flush=True)
        for i, pos, txt in bad[:2]:
            print("---", tr[i]["id"], pos, txt[:700])
            for e in tr[i]["ev"][max(0, pos - 6):pos]: print("   ", json.dumps(e)[:300])
