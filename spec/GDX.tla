-------------------------------- MODULE GDX --------------------------------
(***************************************************************************)
(* The GDX library as a state machine.                                     *)
(*                                                                         *)
(* A state is  [objs |-> handle -> object, disk |-> path -> file,          *)
(*              env |-> 0/1 (GDXCOMPRESS)].                                *)
(* Apply(S, x, op, a) is the transition taken by the API call op with      *)
(* arguments a on handle x: the successor state and everything the         *)
(* specification says about the call's results.  The specification is      *)
(* deterministic; where it deliberately says nothing about an output the   *)
(* field is absent from the result record.                                 *)
(***************************************************************************)
EXTENDS GDXFormat

----------------------------------------------------------------------------
(* error codes *)
eNOFILE == -100000
eBADMODE == -100002
eBADDIM == -100003
eBADELEM == -100004
eBADSYM == -100005
eDUPSYM == -100007
eDATADUP == -100009
eUNKFILT == -100010
eBADIDENT == -100012
eUELCONFLICT == -100013
eDUPSV == -100014
eBADERRREC == -100015
eBADUEL == -100017
eBADFILTNR == -100021
eBADFILTIX == -100022
eFILTUNMAPPED == -100023
eRAWNOTSORTED == -100025
eBADFORMAT == -100041
eOOM == -100043
eBADACROINDEX == -100047
eBADACRONUM == -100048
eBADACRONAME == -100049
eACRODUPEMAP == -100050
eACROBADADD == -100051
eUNKDOM == -100052
eNODOMDATA == -100054
eALIASSET == -100055
eBADTYPE == -100056
eNOSYMCOMM == -100057
eDOMVIOL == -100058
eALREADYOPEN == -100059
eTOOOLD == -100060

(* modes: no; ri wi; wdr wdm wds (domain may still be set); wr wm ws; er em es (registering);
   rr rm rmr rs (reading; rmr is a mapped read whose result needs no sorting); rf (filter); rl (slice) *)
AnyWrite == {"wi", "wdr", "wdm", "wds", "wr", "wm", "ws"}
AnyRead  == {"ri", "rr", "rm", "rmr", "rs"}
Modes == AnyWrite \cup AnyRead \cup {"no", "er", "em", "es", "rf", "rl"}

----------------------------------------------------------------------------
(* objects and files *)
NewObj == [ mode |-> "no", aft |-> "no", le |-> 0, ec |-> 0, et |-> 0,
            fn |-> "", prod |-> "", lib |-> "", known |-> TRUE, ver |-> 0, compr |-> 0,
            syms |-> <<>>, sidx |-> EmptyFun,
            uels |-> <<>>, uidx |-> EmptyFun, umap |-> <<>>, u2e |-> EmptyFun, high |-> 0, uorig |-> 0,
            hst |-> FALSE, stxt |-> <<>>, sti |-> EmptyFun, stn |-> <<>>, mst |-> <<>>,
            acr |-> <<>>, dstr |-> <<>>, filt |-> EmptyFun, curf |-> 0,
            erl |-> <<>>, cur |-> 0, wbuf |-> <<>>, wdom |-> <<>>,
            rsrc |-> <<>>, rpos |-> 0, rdom |-> <<>>, rkey |-> <<>>, rprev |-> <<>>, rsf |-> FALSE,
            cdim |-> 0, sv |-> DefSV, rsv |-> DefSV,
            acrnan |-> 0, nextacr |-> 0, sds |-> 1, abd |-> 1, ac |-> 1,
            slsy |-> 0, slix |-> <<>>, slel |-> <<>> ]

UnkFile(f) == [k |-> "unk", was |-> f]     \* f is being appended to
\* what Close leaves on disk
FileOf(o) == [ k |-> "ok", ver |-> 7, compr |-> o.compr, prod |-> Trunc(o.prod, 255), lib |-> o.lib,
               syms |-> [i \in 1..Len(o.syms) |-> [o.syms[i] EXCEPT !.hb = FALSE, !.bits = {}]],
               uels |-> o.uels, uidx |-> o.uidx, stxt |-> o.stxt,
               acr |-> [i \in 1..Len(o.acr) |->
                          [name |-> IF o.acr[i].name = "" THEN "UnknownACRO" \o ToString(o.acr[i].map) ELSE Trunc(o.acr[i].name, 255),
                           txt |-> Trunc(o.acr[i].txt, 255), map |-> o.acr[i].map]],
               dstr |-> o.dstr ]

InitState == [objs |-> EmptyFun, disk |-> EmptyFun, env |-> 0, io |-> EmptyFun, lim |-> FALSE, lp |-> ""]

----------------------------------------------------------------------------
(* results *)
Res(S, x, o, r) == [s |-> [S EXCEPT !.objs[x] = o], r |-> r]
SetErr(o, n) == [o EXCEPT !.le = IF @ = 0 THEN n ELSE @, !.ec = @ + 1, !.et = @ + 1]
Fail(S, x, o, n) == Res(S, x, SetErr(o, n), [rc |-> 0])
Rc(S, x, o, rc) == Res(S, x, o, [rc |-> rc])
\* a file that is no good may or may not count as an error
UnknownCount == -1000000
InitErrors(o) == [o EXCEPT !.le = 0, !.ec = 0, !.et = 0]

----------------------------------------------------------------------------
(* lookups *)
SymNr(o, s) == LET u == Up(s) IN IF u \in DOMAIN o.sidx THEN o.sidx[u] ELSE -1
UelNr(o, s) == LET u == Up(s) IN IF u \in DOMAIN o.uidx THEN o.uidx[u] ELSE -1
U2E(o, n) == IF n \in DOMAIN o.u2e THEN o.u2e[n] ELSE -1
HasSym(o, n) == n >= 1 /\ n <= Len(o.syms)
AddUel(o, s) == \* the caller has checked that s is new
   [o EXCEPT !.uels = Append(@, s), !.umap = Append(@, -1), !.uidx = Put(@, Up(s), Len(o.uels) + 1)]
FindOrAddUel(o, s) == IF UelNr(o, s) > 0 THEN o ELSE AddUel(o, s)
SetMap(o, en, n) == [o EXCEPT !.umap[en] = n, !.u2e = Put(@, n, en), !.high = Max2(@, n)]
\* give element en a user number if it has none
NewUsr(o, en) == IF o.umap[en] >= 0 THEN o ELSE SetMap(o, en, o.high + 1)
NameTaken(o, s) == SymNr(o, s) >= 1 \/ \E i \in 1..Len(o.acr) : SameText(o.acr[i].name, s)
GoodNew(o, s) == IF NameTaken(o, s) THEN eDUPSYM ELSE IF ~GoodIdent(s) THEN eBADIDENT ELSE 0

\* is the user map, taken in table order, strictly growing?  4: over the whole table; 3: over a prefix
\* that is followed by unmapped elements only; 2: with gaps; 1: not growing
MapStatusStep(a, m) == IF a.st = 1 THEN a
                       ELSE IF m < 0 THEN [a EXCEPT !.c = FALSE]
                       ELSE IF m > a.lv THEN [a EXCEPT !.lv = m, !.st = IF a.c THEN @ ELSE 2]
                       ELSE [a EXCEPT !.st = 1]
MapStatus(o) == LET a == FoldLeft(MapStatusStep, [lv |-> -1, c |-> TRUE, st |-> 3], o.umap)
                IN IF a.st = 3 /\ a.c THEN 4 ELSE a.st

----------------------------------------------------------------------------
(* values delivered to a reader; acronyms may be renumbered on the way in *)
AcrEntry(o, idx) == LET F == {i \in 1..Len(o.acr) : o.acr[i].map = idx}
                    IN IF F = {} THEN 0 ELSE CHOOSE i \in F : \A j \in F : i <= j
AcrRead(o, idx) ==
   IF o.acrnan # 0 THEN [o |-> o, v |-> o.sv[2]]
   ELSE LET n == AcrEntry(o, idx)
            rm == IF n = 0 THEN -1 ELSE o.acr[n].rmap
        IN IF n # 0 /\ rm > 0 THEN [o |-> o, v |-> AcrTok(rm)]
           ELSE IF o.nextacr <= 0 THEN [o |-> o, v |-> AcrTok(idx)]
           ELSE LET e == [name |-> "", txt |-> "", map |-> idx, rmap |-> o.nextacr, auto |-> TRUE]
                    l == IF n = 0 THEN Append(o.acr, e)
                         ELSE [o.acr EXCEPT ![n].rmap = o.nextacr, ![n].auto = TRUE]
                IN [o |-> [o EXCEPT !.acr = l, !.nextacr = @ + 1], v |-> AcrTok(o.nextacr)]
ReadVal(o, t) == IF IsStoredSV(t) THEN [o |-> o, v |-> o.rsv[SVIdx(t)]]
                 ELSE IF IsAcrTok(t) THEN AcrRead(o, AcrOf(t)) ELSE [o |-> o, v |-> t]
RECURSIVE ReadValsR(_, _, _, _)
ReadValsR(o, vs, i, acc) == IF i > Len(vs) THEN [o |-> o, v |-> acc]
                            ELSE LET q == ReadVal(o, vs[i]) IN ReadValsR(q.o, vs, i + 1, Append(acc, q.v))
\* a record read by the current read operation; texts of foreign files may be renumbered
RemapTxt(o, v) == IF o.mst # <<>> /\ o.cur # 0 /\ o.syms[o.cur].typ = 0 /\ IsIntTok(v[1])
                     /\ TokInt(v[1]) \in 1..(Len(o.mst) - 1)
                  THEN <<IntTok(o.mst[TokInt(v[1]) + 1])>> ELSE v
Plain(t) == ~IsStoredSV(t) /\ ~IsAcrTok(t)
ReadVals(o, vs) == LET q == IF \A i \in 1..Len(vs) : Plain(vs[i]) THEN [o |-> o, v |-> vs] ELSE ReadValsR(o, vs, 1, <<>>)
                   IN [q EXCEPT !.v = RemapTxt(o, @)]

----------------------------------------------------------------------------
(* error records *)
AddErr(o, k, v) == IF Len(o.erl) >= 11 THEN o ELSE [o EXCEPT !.erl = Append(@, [k |-> k, v |-> v])]
\* domain violations: recorded if some offending (negative) key has not been recorded in that position
AddDomErr(o, k, v) ==
   IF Len(o.erl) >= 11 THEN o
   ELSE IF \E d \in 1..Len(k) : k[d] < 0 /\ \A i \in 1..Len(o.erl) : o.erl[i].k[d] # k[d]
        THEN [o EXCEPT !.erl = Append(@, [k |-> k, v |-> v])] ELSE o

----------------------------------------------------------------------------
(* writing *)
PrepWrite(S, x, a, newmode) == \* a = name, text, dim, type, userinfo
   LET o == S.objs[x] IN
   IF o.mode # "wi" THEN Fail(S, x, o, eBADMODE)
   ELSE LET o1 == [o EXCEPT !.cur = 0, !.erl = <<>>, !.wbuf = <<>>]
            g == GoodNew(o, a[1])
        IN IF g # 0 THEN Fail(S, x, o1, g)
           ELSE IF a[3] < 0 \/ a[3] > 20 THEN Fail(S, x, o1, eBADDIM)
           ELSE IF a[4] < 0 \/ a[4] > 3 THEN Fail(S, x, o1, eBADTYPE)
           ELSE LET sy == NewSym(a[1], a[3], a[4], a[5], ExplText(a[2]), a[4] = 0 /\ a[3] = 1 /\ o.sds # 0,
                                 o.compr # 0 /\ a[3] > 0)
                IN Rc(S, x, [o1 EXCEPT !.mode = newmode, !.syms = Append(@, sy),
                                       !.sidx = Put(@, Up(a[1]), Len(o.syms) + 1), !.cur = Len(o.syms) + 1,
                                       !.cdim = a[3], !.wdom = [d \in 1..a[3] |-> 0]], 1)

\* one record reaches the file: domain check, order check, duplicates
IsZeroTok(t) == t = Zero \/ t = NegZeroTok
RECURSIVE CheckAcr(_, _, _)
CheckAcr(o, vs, i) ==
   IF i > Len(vs) THEN o
   ELSE IF IsAcrTok(vs[i]) /\ AcrEntry(o, AcrOf(vs[i])) = 0
        THEN CheckAcr([o EXCEPT !.acr = Append(@, [name |-> "", txt |-> "", map |-> AcrOf(vs[i]), rmap |-> -1, auto |-> FALSE])], vs, i + 1)
        ELSE CheckAcr(o, vs, i + 1)
\* keys before any record count as -256 in every position
DoWrite(o, k, v) ==
   LET sy == o.syms[o.cur]
       n == sy.dim
       ds == DataSize(sy.typ)
       viol == {d \in 1..n : o.wdom[d] # 0 /\ k[d] \notin o.syms[o.wdom[d]].bits}
       last == IF sy.recs = <<>> THEN [d \in 1..n |-> -256] ELSE sy.recs[Len(sy.recs)].k
       fd == FirstDiff(k, last)
       uv == SubSeq(v, 1, ds)
   IN IF viol # {} THEN [ok |-> 0, o |-> AddDomErr(SetErr(o, eDOMVIOL), [d \in 1..n |-> IF d \in viol THEN -k[d] ELSE k[d]], uv)]
      ELSE IF n > 0 /\ sy.recs # <<>> /\ fd > n THEN [ok |-> 0, o |-> AddErr(SetErr(o, eDATADUP), k, uv)]
      ELSE IF fd <= n /\ k[fd] < last[fd] THEN [ok |-> 0, o |-> AddErr(SetErr(o, eRAWNOTSORTED), k, uv)]
      ELSE LET st == [i \in 1..ds |-> StoredOf(o.sv, v[i])]
               o1 == IF \E i \in 1..ds : IsAcrTok(st[i]) THEN CheckAcr(o, st, 1) ELSE o
           IN [ok |-> 1,
               o |-> [o1 EXCEPT !.syms[o.cur] =
                        [@ EXCEPT !.recs = Append(@, [k |-> k, v |-> st]),
                                  !.stx = @ \/ (sy.typ = 0 /\ ~IsZeroTok(v[1])),
                                  !.bits = IF sy.hb /\ n = 1 THEN @ \cup {k[1]} ELSE @]]]

DoWriteAll(o, buf) == FoldLeft(LAMBDA p, r : DoWrite(p, r.k, r.v).o, o, buf)
\* fast path for a batch that needs no checking at all: already strictly sorted, no domains, no special cases
FinishBuf(o) ==
   LET buf == SortRecs(o.wbuf)
       sy == o.syms[o.cur]
       ds == DataSize(sy.typ)
       simple == /\ StrictlySorted(buf) /\ sy.dim > 0 /\ \A d \in 1..sy.dim : o.wdom[d] = 0
                 /\ \A i \in 1..Len(buf) : \A d \in 1..sy.dim : buf[i].k[d] >= 0
                 /\ \A i \in 1..Len(buf) : \A j \in 1..ds : ~IsAcrTok(buf[i].v[j])
   IN IF simple
      THEN [o EXCEPT !.syms[o.cur] =
               [@ EXCEPT !.recs = [i \in 1..Len(buf) |-> [k |-> buf[i].k, v |-> [j \in 1..ds |-> StoredOf(o.sv, buf[i].v[j])]]],
                         !.stx = sy.typ = 0 /\ \E i \in 1..Len(buf) : ~IsZeroTok(buf[i].v[1]),
                         !.bits = IF sy.hb /\ sy.dim = 1 THEN {buf[i].k[1] : i \in 1..Len(buf)} ELSE {}]]
      ELSE DoWriteAll(o, buf)
WriteDoneCore(o) ==
   LET o1 == IF o.mode \in {"wr", "wdr"} THEN o ELSE FinishBuf(o)
   IN [o1 EXCEPT !.syms[o.cur] = [@ EXCEPT !.cnt = Len(o1.syms[o.cur].recs), !.nerr = o1.ec],
                 !.ec = 0, !.mode = "wi", !.cur = 0, !.wbuf = <<>>]

RECURSIVE SetDomR(_, _, _, _)
\* acc = [o, ok]; domains are processed left to right
SetDomR(a, d, acc, n) ==
   IF d > n THEN [o |-> acc.o, ok |-> acc.ok, stop |-> FALSE]
   ELSE LET o == acc.o
            nm == a[d]
            dn == IF nm = "*" THEN 0 ELSE SymNr(o, nm)
        IN IF dn < 0 THEN SetDomR(a, d + 1, [o |-> SetErr(o, eUNKDOM), ok |-> 0], n)
           ELSE IF dn = 0 THEN SetDomR(a, d + 1, acc, n)
           ELSE LET RECURSIVE Root(_)
                    Root(i) == IF o.syms[i].typ = 4 /\ o.syms[i].ui > 0 THEN Root(o.syms[i].ui) ELSE i
                    rt == Root(dn)
                    sr == o.syms[rt]
                    o1 == [o EXCEPT !.syms[o.cur].ds[d] = dn]
                IN IF sr.typ = 4 THEN SetDomR(a, d + 1, [acc EXCEPT !.o = o1], n)      \* alias of the universe
                   ELSE IF sr.typ # 0 THEN SetDomR(a, d + 1, [o |-> SetErr(o, eALIASSET), ok |-> 0], n)
                   ELSE IF o.abd = 0 /\ sr.dim = 1 /\ ~sr.hb THEN [o |-> SetErr(o, eNODOMDATA), ok |-> 0, stop |-> TRUE]
                   ELSE LET self == n = 1 /\ dn = o.cur
                            o2 == IF ~self /\ sr.hb THEN [o1 EXCEPT !.wdom[d] = rt] ELSE o1
                        IN SetDomR(a, d + 1, [acc EXCEPT !.o = o2], n)
SetDomain(S, x, a) ==
   LET o == S.objs[x] IN
   IF o.mode \notin {"wdr", "wdm", "wds"} THEN Fail(S, x, o, eBADMODE)
   ELSE LET n == o.syms[o.cur].dim
            q == SetDomR(a, 1, [o |-> [o EXCEPT !.syms[o.cur] = [@ EXCEPT !.hd = TRUE, !.ds = [d \in 1..n |-> 0]]], ok |-> 1], n)
        IN IF q.stop THEN Rc(S, x, [o EXCEPT !.le = q.o.le, !.ec = q.o.ec, !.et = q.o.et], 0)
           ELSE Rc(S, x, [q.o EXCEPT !.mode = CASE @ = "wdr" -> "wr" [] @ = "wdm" -> "wm" [] OTHER -> "ws"], q.ok)

----------------------------------------------------------------------------
(* reading *)
ReadDoneCore(o) == [o EXCEPT !.mode = "ri", !.cur = 0, !.rsrc = <<>>, !.rpos = 0, !.rsf = FALSE]

RECURSIVE RootSym(_, _)
RootSym(o, n) == IF n = 0 THEN 0 ELSE IF o.syms[n].typ = 4 THEN RootSym(o, o.syms[n].ui) ELSE n

UniRecs(o) == [i \in 1..o.uorig |-> [k |-> <<i>>, v |-> <<Zero>>]]

InFilt(o, f, v) == v >= 0 /\ v \in o.filt[f].set
WillBeSorted(o, doms, n) ==
   LET st == MapStatus(o) IN
   \A d \in 1..n :
      CASE doms[d] = -2 -> TRUE
        [] doms[d] = -1 -> IF d = 1 THEN st >= 3 ELSE st = 4
        [] doms[d] = 0 -> st # 1
        [] OTHER -> st >= 2 \/ o.filt[doms[d]].sorted

BadKey(o, act, k, lazy) == k < 0 \/ (lazy /\ k > Len(o.uels)) \/ (act # -2 /\ (k < 1 \/ k > Len(o.uels)))
\* user key of raw key k under action act: -1 if it has none (not in the filter, not mapped)
UserKey(o, act, k) == CASE act = -2 -> k
                        [] act = -1 -> o.umap[k]
                        [] act = 0 -> o.umap[k]
                        [] OTHER -> IF InFilt(o, act, o.umap[k]) THEN o.umap[k] ELSE -1
FirstOf(n, P(_)) == LET F == {d \in 1..n : P(d)} IN IF F = {} THEN 0 ELSE CHOOSE d \in F : \A e \in F : d <= e
RECURSIVE ExpandKeys(_, _, _, _)
ExpandKeys(o, doms, k, d) ==
   IF d > Len(k) THEN o ELSE ExpandKeys(IF doms[d] = -1 THEN NewUsr(o, k[d]) ELSE o, doms, k, d + 1)
\* one record of a mapped read: bad / reject / take
MapRec(o, doms, k, lazy) ==
   LET n == Len(k)
       fb == FirstOf(n, LAMBDA d : BadKey(o, doms[d], k[d], lazy))
       ff == FirstOf(n, LAMBDA d : ~BadKey(o, doms[d], k[d], lazy) /\ doms[d] >= 0 /\ UserKey(o, doms[d], k[d]) < 0)
   IN IF fb # 0 /\ (lazy \/ ff = 0 \/ fb < ff) THEN [w |-> "bad", o |-> o, k |-> <<>>]
      ELSE IF ff # 0 THEN [w |-> "rej", o |-> o,
                           k |-> [d \in 1..n |-> IF d = ff \/ (lazy /\ doms[d] >= 0 /\ UserKey(o, doms[d], k[d]) < 0) THEN -k[d] ELSE k[d]]]
      ELSE LET o1 == ExpandKeys(o, doms, k, 1)
           IN [w |-> "take", o |-> o1, k |-> [d \in 1..n |-> UserKey(o1, doms[d], k[d])]]

\* eager mapped read: acc = [o, out, bad]
MapStep(acc, r, doms) ==
   IF acc.bad THEN acc
   ELSE LET q == ReadVals(acc.o, r.v)
            m == MapRec(q.o, doms, r.k, FALSE)
        IN IF m.w = "bad" THEN [acc EXCEPT !.o = SetErr(q.o, eBADELEM), !.bad = TRUE]
           ELSE IF m.w = "rej" THEN [acc EXCEPT !.o = AddDomErr(q.o, m.k, q.v)]
           ELSE [acc EXCEPT !.o = m.o, !.out = Append(@, [k |-> m.k, v |-> q.v])]
MapAll(recs, doms, acc) == FoldLeft(LAMBDA p, r : MapStep(p, r, doms), acc, recs)

\* PrepRead: result [o, n] with n = -1 on failure
PrepRead(oo, synr, doms, newmode) ==
   LET o == IF oo.mode \in {"rs", "rm", "rmr", "rr"} THEN ReadDoneCore(oo) ELSE oo IN
   IF o.mode # "ri" THEN [o |-> SetErr(o, eBADMODE), n |-> -1]
   ELSE LET o1 == [o EXCEPT !.erl = <<>>, !.cur = 0, !.rsf = FALSE] IN
   IF synr # 0 /\ ~HasSym(o, synr) THEN [o |-> SetErr(o1, eBADSYM), n |-> -1]
   ELSE LET rt == RootSym(o, synr)
            n == IF rt = 0 THEN 1 ELSE o.syms[rt].dim
            recs == IF rt = 0 THEN UniRecs(o) ELSE o.syms[rt].recs
            o2 == [o1 EXCEPT !.cur = rt, !.cdim = n, !.rdom = SubSeq(doms, 1, n), !.rpos = 0,
                             !.rprev = [d \in 1..n |-> -1], !.rkey = [d \in 1..n |-> -1]]
        IN IF \E d \in 1..n : doms[d] \notin {-2, -1, 0} /\ doms[d] \notin DOMAIN o.filt
           THEN [o |-> SetErr([o2 EXCEPT !.rsrc = <<>>], eUNKFILT), n |-> -1]
           ELSE IF rt # 0 /\ o.syms[rt].derr < 0 \* no data where the symbol table says
           THEN [o |-> SetErr([o2 EXCEPT !.rsrc = <<>>], o.syms[rt].derr), n |-> -1]
           ELSE IF n = 0 /\ recs = <<>> THEN [o |-> [o2 EXCEPT !.rsrc = <<>>, !.rsf = TRUE, !.mode = newmode], n |-> 1]
           ELSE IF newmode # "rm" THEN [o |-> [o2 EXCEPT !.rsrc = recs, !.mode = newmode], n |-> Len(recs)]
           ELSE IF WillBeSorted(o2, doms, n) THEN [o |-> [o2 EXCEPT !.rsrc = recs, !.mode = "rmr"], n |-> Len(recs)]
           ELSE LET m == MapAll(recs, doms, [o |-> o2, out |-> <<>>, bad |-> FALSE])
                IN IF m.bad THEN [o |-> SetErr([m.o EXCEPT !.mode = "ri", !.rsrc = <<>>], eOOM), n |-> -1]
                   ELSE [o |-> [m.o EXCEPT !.rsrc = SortRecs(m.out), !.mode = "rm"], n |-> Len(m.out)]
Unmapped == [d \in 1..20 |-> -2]
Strict == [d \in 1..20 |-> 0]
StartRead(S, x, synr, doms, newmode) ==
   LET q == PrepRead(S.objs[x], synr, doms, newmode)
   IN Res(S, x, q.o, [rc |-> IF q.n >= 0 THEN 1 ELSE 0, n |-> q.n])

DefVals(o) == ReadVals(o, DefRec(o.syms[o.cur].typ, o.syms[o.cur].ui))
\* next record in storage order: [end |-> TRUE] or o, k, v, fd
DoRead(o) ==
   IF o.rsf THEN LET q == DefVals(o) IN [end |-> FALSE, o |-> [q.o EXCEPT !.rsf = FALSE], k |-> <<>>, v |-> q.v, fd |-> 0]
   ELSE IF o.rpos >= Len(o.rsrc) THEN [end |-> TRUE]
   ELSE LET r == o.rsrc[o.rpos + 1]
            q == ReadVals(o, r.v)
            n == Len(r.k)
            fd == IF n = 0 THEN 0 ELSE IF o.rpos = 0 THEN 1 ELSE FirstDiff(o.rsrc[o.rpos].k, r.k)
        IN [end |-> FALSE, o |-> [q.o EXCEPT !.rpos = @ + 1], k |-> r.k, v |-> q.v, fd |-> fd]
LabelOf(o, k) == IF k >= 1 /\ k <= Len(o.uels) THEN o.uels[k] ELSE "?L__" \o ToString(k)

RECURSIVE MapLazy(_)
MapLazy(o) ==
   IF o.rpos >= Len(o.rsrc) THEN [w |-> "end", o |-> o, k |-> <<>>, v |-> <<>>]
   ELSE LET r == o.rsrc[o.rpos + 1]
            q == ReadVals([o EXCEPT !.rpos = @ + 1], r.v)
            m == MapRec(q.o, o.rdom, r.k, TRUE)
        IN IF m.w = "bad" THEN [w |-> "bad", o |-> SetErr(q.o, eBADELEM), k |-> <<>>, v |-> <<>>]
           ELSE IF m.w = "rej" THEN MapLazy(AddDomErr(q.o, m.k, q.v))
           ELSE [w |-> "take", o |-> m.o, k |-> m.k, v |-> q.v]
FrstOf(prev, k) == LET f == FirstDiff(k, prev) IN IF f > Len(k) THEN 0 ELSE f
ReadMap(S, x) ==
   LET o == S.objs[x] IN
   IF o.mode \notin {"rm", "rmr"} THEN Fail(S, x, o, eBADMODE)
   ELSE IF o.rsf THEN LET q == DefVals(o) IN Res(S, x, [q.o EXCEPT !.rsf = FALSE], [rc |-> 1, k |-> <<>>, v |-> q.v, fd |-> 0])
   ELSE IF o.mode = "rm"
   THEN IF o.rpos >= Len(o.rsrc) THEN Rc(S, x, o, 0)
        ELSE LET r == o.rsrc[o.rpos + 1]
             IN Res(S, x, [o EXCEPT !.rpos = @ + 1, !.rprev = r.k], [rc |-> 1, k |-> r.k, v |-> r.v, fd |-> FrstOf(o.rprev, r.k)])
   ELSE LET m == MapLazy(o)
        IN IF m.w # "take" THEN Rc(S, x, m.o, 0)
           ELSE Res(S, x, [m.o EXCEPT !.rprev = m.k], [rc |-> 1, k |-> m.k, v |-> m.v, fd |-> FrstOf(o.rprev, m.k)])

\* read a whole symbol in storage order: acc = [o, out]; stops after lim records if lim >= 0
ReadStep(p, lim) ==
   IF lim >= 0 /\ Len(p.out) >= lim THEN p
   ELSE LET q == DoRead(p.o) IN IF q.end THEN p
        ELSE [o |-> q.o, out |-> Append(p.out, [k |-> q.k, v |-> q.v, fd |-> q.fd])]
ReadAllR(o, lim) == FoldLeft(LAMBDA p, i : ReadStep(p, lim), [o |-> o, out |-> <<>>], [i \in 1..(Len(o.rsrc) + 1) |-> i])
\* without acronyms the values do not change the object, so the batch is a comprehension
ReadAll(o, lim) ==
   LET n == Len(o.rsrc)
       m == IF lim >= 0 THEN Min2(n - o.rpos, lim) ELSE n - o.rpos
   IN IF o.rsf \/ \E i \in 1..n : \E j \in 1..Len(o.rsrc[i].v) : IsAcrTok(o.rsrc[i].v[j]) THEN ReadAllR(o, lim)
      ELSE [o |-> [o EXCEPT !.rpos = @ + m],
            out |-> [i \in 1..m |->
                       LET p == o.rpos + i
                           r == o.rsrc[p]
                       IN [k |-> r.k, v |-> ReadVals(o, r.v).v,
                           fd |-> IF Len(r.k) = 0 THEN 0 ELSE IF p = 1 THEN 1 ELSE FirstDiff(o.rsrc[p - 1].k, r.k)]]]

----------------------------------------------------------------------------
(* open and close *)
Loaded(o, f, fn, hst) ==
   LET nu == Len(f.uels)
       \* later duplicates (foreign files) hide earlier ones
       Idx(l) == FoldLeft(LAMBDA acc, i : Put(acc, Up(l[i]), i), EmptyFun, [i \in 1..Len(l) |-> i])
       uix == IF "uidx" \in DOMAIN f THEN f.uidx ELSE Idx(f.uels)
       \* set texts: duplicates are merged, the numbers of later ones are mapped
       Txt(p, t) == IF t \in DOMAIN p.ix THEN [p EXCEPT !.mp = Append(@, p.ix[t])]
                    ELSE [l |-> Append(p.l, t), ix |-> Put(p.ix, t, Len(p.l)), mp |-> Append(p.mp, Len(p.l))]
       tx == FoldLeft(Txt, [l |-> <<>>, ix |-> EmptyFun, mp |-> <<>>], IF hst THEN f.stxt ELSE <<>>)
   IN [o EXCEPT !.syms = f.syms,
                !.sidx = Idx([i \in 1..Len(f.syms) |-> f.syms[i].name]),
                !.uels = f.uels, !.uidx = uix, !.umap = [i \in 1..nu |-> -1], !.u2e = EmptyFun, !.high = 0,
                !.uorig = nu, !.hst = hst, !.stxt = tx.l, !.sti = tx.ix, !.stn = [i \in 1..Len(tx.l) |-> 0],
                !.mst = IF Len(tx.l) = Len(tx.mp) THEN <<>> ELSE tx.mp,
                !.acr = [i \in 1..Len(f.acr) |-> [name |-> f.acr[i].name, txt |-> f.acr[i].txt, map |-> f.acr[i].map, rmap |-> -1, auto |-> FALSE]],
                !.dstr = f.dstr, !.filt = EmptyFun, !.erl = <<>>, !.cur = 0,
                !.fn = fn, !.prod = f.prod, !.lib = f.lib, !.known = TRUE, !.ver = f.ver, !.compr = f.compr,
                !.le = 0, !.sv = DefSV, !.rsv = DefSV]

\* everything a session owns is released
Closed(o) == [o EXCEPT !.mode = "no", !.syms = <<>>, !.sidx = EmptyFun, !.uels = <<>>, !.uidx = EmptyFun,
                       !.umap = <<>>, !.u2e = EmptyFun, !.high = 0, !.hst = FALSE, !.stxt = <<>>, !.sti = EmptyFun,
                       !.stn = <<>>, !.mst = <<>>, !.acr = <<>>, !.dstr = <<>>, !.filt = EmptyFun, !.erl = <<>>,
                       !.cur = 0, !.wbuf = <<>>, !.rsrc = <<>>, !.rpos = 0, !.rsf = FALSE, !.fn = ""]

OpenWrite(S, x, path, prod, compr) ==
   LET o == S.objs[x] IN
   IF o.mode # "no" THEN Res(S, x, o, [rc |-> 0, err |-> eALREADYOPEN])
   ELSE IF path = "" THEN Res(S, x, [o EXCEPT !.le = eNOFILE], [rc |-> 0, err |-> eNOFILE])
   ELSE IF path \notin DOMAIN S.disk THEN \* a path in a directory that does not exist
        Res(S, x, [o EXCEPT !.le = 2], [rc |-> 0, err |-> 2])
   ELSE IF S.disk[path].k = "dir" THEN Res(S, x, [o EXCEPT !.le = -1], [rc |-> 0, errnz |-> 1])
   ELSE LET o1 == [InitErrors(o) EXCEPT !.mode = "wi", !.fn = path, !.prod = prod, !.lib = "own", !.known = TRUE, !.ver = 7,
                     !.compr = compr, !.hst = TRUE, !.stxt = <<"">>, !.sti = Put(EmptyFun, "", 0), !.stn = <<0>>,
                     !.sv = DefSV, !.rsv = DefSV, !.uorig = 0]
        IN [s |-> [S EXCEPT !.objs[x] = o1, !.disk[path] = BadFile], r |-> [rc |-> 1, err |-> 0]]

OpenRead(S, x, path, rmode) ==
   LET o == S.objs[x] IN
   IF o.mode # "no" THEN Res(S, x, o, [rc |-> 0, err |-> eALREADYOPEN])
   ELSE IF path = "" THEN Res(S, x, [InitErrors(o) EXCEPT !.le = eNOFILE], [rc |-> 0, err |-> eNOFILE])
   ELSE IF path \notin DOMAIN S.disk \/ S.disk[path].k = "none"
        THEN Res(S, x, [InitErrors(o) EXCEPT !.le = 2], [rc |-> 0, err |-> 2])
   ELSE IF S.disk[path].k # "ok"
        THEN Res(S, x, [InitErrors(o) EXCEPT !.known = FALSE, !.le = -1, !.et = UnknownCount], [rc |-> 0, errnz |-> 1])
   ELSE Res(S, x, [Loaded(InitErrors(o), S.disk[path], path, rmode % 2 = 0) EXCEPT !.mode = "ri"], [rc |-> 1, err |-> 0])

OpenAppend(S, x, path) ==
   LET q == OpenRead(S, x, path, 0) IN
   IF S.objs[x].mode = "no" /\ path \in DOMAIN S.disk /\ S.disk[path].k = "none"
   THEN \* an empty file is created, which cannot be appended to
        [s |-> [S EXCEPT !.objs[x] = [InitErrors(@) EXCEPT !.known = FALSE, !.le = -1, !.et = UnknownCount], !.disk[path] = BadFile], r |-> [rc |-> 0, errnz |-> 1]]
   ELSE IF q.r.rc = 0 THEN q
   ELSE IF S.disk[path].ver < 7 THEN Res(S, x, SetErr(Closed(q.s.objs[x]), eTOOOLD), [rc |-> 0, err |-> eTOOOLD])
   ELSE IF "native" \in DOMAIN S.disk[path] /\ ~S.disk[path].native \* cannot be continued in another byte order
   THEN Res(S, x, SetErr(Closed(q.s.objs[x]), eBADFORMAT), [rc |-> 0, err |-> eBADFORMAT])
   ELSE [s |-> [q.s EXCEPT !.objs[x].mode = "wi", !.objs[x].cur = 0, !.objs[x].ver = 7,
                           !.disk[path] = UnkFile(@)], r |-> q.r]

Close(S, x) ==
   LET o0 == S.objs[x] IN
   IF o0.mode = "no" THEN Res(S, x, Closed(o0), [rc |-> 1])
   ELSE LET o1 == IF o0.mode \in AnyWrite \ {"wi"} THEN WriteDoneCore(o0)
                  ELSE IF o0.mode \in {"er", "em", "es"} THEN [o0 EXCEPT !.mode = o0.aft] ELSE o0
            conv == o1.mode = "wi" /\ o1.ac # 0 /\ o1.compr # S.env
        IN IF o1.mode = "wi"
           THEN [s |-> [S EXCEPT !.objs[x] = Closed(o1), !.disk[o1.fn] = FileOf(o1)],
                 r |-> [rc |-> IF conv THEN 227 ELSE 0]]
           ELSE Rc(S, x, Closed(o1), 0)

Destroy(S, x) == \* a session abandoned while writing leaves an unfinished file behind
   LET o == S.objs[x]
       wr == o.mode \in AnyWrite \/ (o.mode \in {"er", "em", "es"} /\ o.aft = "wi")
       objs == [y \in DOMAIN S.objs \ {x} |-> S.objs[y]]
   IN [s |-> [S EXCEPT !.objs = objs, !.disk = IF wr THEN [@ EXCEPT ![o.fn] = IF @.k = "unk" THEN @ ELSE BadFile] ELSE @],
       r |-> [rc |-> 1]]

----------------------------------------------------------------------------
(* unique elements *)
RegStart(S, x, m, raw) ==
   LET o == S.objs[x] IN
   IF o.mode # "wi" /\ (raw \/ o.mode # "ri") THEN Fail(S, x, o, eBADMODE)
   ELSE Rc(S, x, [o EXCEPT !.aft = o.mode, !.mode = m], 1)
RegRaw(S, x, u) ==
   LET o == S.objs[x]
       t == RTrim(u) IN
   IF o.mode # "er" THEN Fail(S, x, o, eBADMODE)
   ELSE IF ~GoodUel(t) THEN Fail(S, x, o, eBADUEL)
   ELSE Rc(S, x, FindOrAddUel(o, t), 1)
RegStr(S, x, u) ==
   LET o == S.objs[x]
       t == RTrim(u) IN
   IF o.mode # "es" THEN Fail(S, x, o, eBADMODE)
   ELSE IF ~GoodUel(t) THEN Fail(S, x, o, eBADUEL)
   ELSE LET o1 == FindOrAddUel(o, t)
            en == UelNr(o1, t)
            o2 == NewUsr(o1, en)
        IN Res(S, x, o2, [rc |-> 1, n |-> o2.umap[en]])
RegMap(S, x, n, u) ==
   LET o == S.objs[x]
       t == RTrim(u)
       en == UelNr(o, t) IN
   IF o.mode # "em" THEN Fail(S, x, o, eBADMODE)
   ELSE IF ~GoodUel(t) THEN Fail(S, x, o, eBADUEL)
   ELSE IF en > 0 /\ o.umap[en] >= 0 THEN IF o.umap[en] = n THEN Rc(S, x, o, 1) ELSE Fail(S, x, o, eUELCONFLICT)
   ELSE IF n < 0 \/ n \in DOMAIN o.u2e THEN Fail(S, x, o, eUELCONFLICT)    \* another element owns n
   ELSE LET o1 == FindOrAddUel(o, t) IN Rc(S, x, SetMap(o1, UelNr(o1, t), n), 1)
RenameUel(S, x, old, new) ==
   LET o == S.objs[x]
       t == RTrim(new)
       en == UelNr(o, RTrim(old)) IN
   IF o.mode = "no" THEN Rc(S, x, o, -1)
   ELSE IF ~GoodUel(t) THEN Rc(S, x, o, eBADUEL)
   ELSE IF en < 0 THEN Rc(S, x, o, 2)
   ELSE IF UelNr(o, t) >= 0 THEN Rc(S, x, o, 3)
   ELSE Rc(S, x, [o EXCEPT !.uels[en] = t,
                           !.uidx = [u \in (DOMAIN @ \ {Up(o.uels[en])}) \cup {Up(t)} |-> IF u = Up(t) THEN en ELSE o.uidx[u]]], 0)

----------------------------------------------------------------------------
(* writing: records *)
WriteRaw(S, x, k, v) ==
   LET o == S.objs[x] IN
   IF o.mode \notin {"wr", "wdr"} THEN Fail(S, x, o, eBADMODE)
   ELSE LET q == DoWrite([o EXCEPT !.mode = "wr"], SubSeq(k, 1, o.cdim), v) IN Rc(S, x, q.o, q.ok)
WriteMap(S, x, k, v) ==
   LET o == S.objs[x]
       n == o.cdim
       ek == [d \in 1..n |-> U2E(o, k[d])] IN
   IF o.mode \notin {"wm", "wdm"} THEN Fail(S, x, o, eBADMODE)
   ELSE IF \E d \in 1..n : ek[d] < 0 THEN Fail(S, x, [o EXCEPT !.mode = "wm"], eBADELEM)
   ELSE Rc(S, x, [o EXCEPT !.mode = "wm", !.wbuf = Append(@, [k |-> ek, v |-> v])], 1)
RECURSIVE AddKeys(_, _, _)
AddKeys(o, k, d) == \* labels are added left to right up to the first bad one
   IF d > Len(k) THEN [o |-> o, ok |-> TRUE]
   ELSE LET t == RTrim(k[d]) IN
        IF UelNr(o, t) > 0 THEN AddKeys(o, k, d + 1)
        ELSE IF ~GoodUel(t) THEN [o |-> SetErr(o, eBADUEL), ok |-> FALSE]
        ELSE AddKeys(AddUel(o, t), k, d + 1)
WriteStr(S, x, kk, v) ==
   LET o == S.objs[x] IN
   IF o.mode \notin {"ws", "wds"} THEN Fail(S, x, o, eBADMODE)
   ELSE LET k == SubSeq(kk, 1, o.cdim)
            q == AddKeys([o EXCEPT !.mode = "ws"], k, 1)
        IN IF ~q.ok THEN Rc(S, x, q.o, 0)
           ELSE Rc(S, x, [q.o EXCEPT !.wbuf = Append(@, [k |-> [d \in 1..Len(k) |-> UelNr(q.o, RTrim(k[d]))], v |-> v])], 1)
WriteDone(S, x) ==
   LET o == S.objs[x] IN
   IF o.mode \notin AnyWrite \ {"wi"} THEN Fail(S, x, o, eBADMODE) ELSE Rc(S, x, WriteDoneCore(o), 1)

----------------------------------------------------------------------------
(* symbols *)
AddAlias(S, x, id1, id2) ==
   LET o == S.objs[x]
       big == 2147483647
       n1 == IF id1 = "*" THEN big ELSE SymNr(o, id1)
       n2 == IF id2 = "*" THEN big ELSE SymNr(o, id2)
       n == IF n1 > 0 THEN n1 ELSE n2
       nm == IF n1 > 0 THEN id2 ELSE id1
       sy == IF n = big THEN 0 ELSE n
   IN IF o.mode \notin AnyWrite THEN Fail(S, x, o, eBADMODE)
      ELSE IF (n1 >= 0) = (n2 >= 0) THEN Fail(S, x, o, eALIASSET)
      ELSE IF sy # 0 /\ o.syms[sy].typ \notin {0, 4} THEN Fail(S, x, o, eALIASSET)
      ELSE IF GoodNew(o, nm) # 0 THEN Fail(S, x, o, GoodNew(o, nm))
      ELSE Rc(S, x, [o EXCEPT !.syms = Append(@, NewSym(nm, IF sy = 0 THEN 1 ELSE o.syms[sy].dim, 4, sy,
                                                      "Aliased with " \o (IF sy = 0 THEN "*" ELSE o.syms[sy].name), FALSE, FALSE)),
                              !.sidx = Put(@, Up(nm), Len(o.syms) + 1)], 1)
SymInfo(S, x, n) ==
   LET o == S.objs[x] IN
   Res(S, x, o, IF n = 0 THEN [rc |-> 1, id |-> "*", dim |-> 1, typ |-> 0]
                ELSE IF HasSym(o, n) THEN [rc |-> 1, id |-> o.syms[n].name, dim |-> o.syms[n].dim, typ |-> o.syms[n].typ]
                ELSE [rc |-> 0, id |-> "", dim |-> -1, typ |-> 0])
SymInfoX(S, x, n) ==
   LET o == S.objs[x] IN
   Res(S, x, o, IF n = 0 THEN IF o.mode = "no" THEN [rc |-> 1, ui |-> 0, txt |-> "Universe"]
                              ELSE [rc |-> 1, cnt |-> o.uorig, ui |-> 0, txt |-> "Universe"]
                ELSE IF HasSym(o, n) THEN [rc |-> 1, cnt |-> IF o.syms[n].dim = 0 THEN 1 ELSE o.syms[n].cnt,
                                           ui |-> o.syms[n].ui, txt |-> o.syms[n].txt]
                ELSE [rc |-> 0, cnt |-> 0, ui |-> 0, txt |-> ""])
SetDomainX(S, x, n, a) ==
   LET o == S.objs[x]
       RECURSIVE Go(_, _)
       Go(p, d) == \* p = [o, l]
          IF d > o.syms[n].dim THEN p
          ELSE LET s == a[d] IN
               IF ~GoodIdent(s) THEN Go([p EXCEPT !.l = Append(@, 0)], d + 1)
               ELSE LET F == {i \in 1..Len(p.o.dstr) : SameText(p.o.dstr[i], s)} IN
                    IF F # {} THEN Go([p EXCEPT !.l = Append(@, CHOOSE i \in F : \A j \in F : i >= j)], d + 1)
                    ELSE Go([o |-> [p.o EXCEPT !.dstr = Append(@, s)], l |-> Append(p.l, Len(p.o.dstr) + 1)], d + 1)
       q == Go([o |-> o, l |-> <<>>], 1)
   IN IF ~HasSym(o, n) THEN Fail(S, x, o, eBADSYM)
      ELSE IF o.syms[n].dim = 0 THEN Rc(S, x, o, 1)
      ELSE Rc(S, x, [q.o EXCEPT !.syms[n].hx = TRUE, !.syms[n].dx = q.l], 1)
GetDomain(S, x, n) ==
   LET o == S.objs[x] IN
   IF ~HasSym(o, n) THEN Fail(S, x, o, eBADSYM)
   ELSE Res(S, x, o, [rc |-> 1, l |-> [d \in 1..o.syms[n].dim |-> IF o.syms[n].hd THEN o.syms[n].ds[d] ELSE 0]])
GetDomainX(S, x, n) ==
   LET o == S.objs[x] IN
   IF ~HasSym(o, n) THEN Fail(S, x, o, eBADSYM)
   ELSE LET sy == o.syms[n] IN
        Res(S, x, o, [rc |-> IF sy.hx THEN 2 ELSE IF sy.hd THEN 3 ELSE 1,
                      l |-> [d \in 1..sy.dim |->
                               IF sy.hx THEN (IF sy.dx[d] = 0 THEN "*" ELSE o.dstr[sy.dx[d]])
                               ELSE IF sy.hd THEN (IF sy.ds[d] = 0 THEN "*" ELSE o.syms[sy.ds[d]].name) ELSE "*"]])
AddComment(S, x, n, t) ==
   LET o == S.objs[x]
       m == IF n <= 0 THEN o.cur ELSE n IN
   IF o.mode \notin AnyWrite THEN Fail(S, x, o, eBADMODE)
   ELSE IF m = 0 \/ m > Len(o.syms) THEN Fail(S, x, o, eNOSYMCOMM)
   ELSE Rc(S, x, [o EXCEPT !.syms[m].comm = Append(@, Trunc(t, 255))], 1)
GetComment(S, x, n, i) ==
   LET o == S.objs[x] IN
   Res(S, x, o, IF HasSym(o, n) /\ i >= 1 /\ i <= Len(o.syms[n].comm) THEN [rc |-> 1, t |-> o.syms[n].comm[i]] ELSE [rc |-> 0, t |-> ""])

----------------------------------------------------------------------------
(* set texts *)
AddSetText(S, x, t) ==
   LET o == S.objs[x]
       g == MakeGoodTxt(Trunc(t, 255)) IN
   IF ~o.hst THEN Res(S, x, o, [rc |-> 0, n |-> 0])
   ELSE IF g \in DOMAIN o.sti THEN Res(S, x, o, [rc |-> 1, n |-> o.sti[g]])
   ELSE Res(S, x, [o EXCEPT !.stxt = Append(@, g), !.stn = Append(@, 0), !.sti = Put(@, g, Len(o.stxt))], [rc |-> 1, n |-> Len(o.stxt)])
GetElemText(S, x, n) ==
   LET o == S.objs[x] IN
   Res(S, x, o, IF ~o.hst THEN [rc |-> 0, t |-> "", node |-> 0]
                ELSE IF n < 0 \/ n >= Len(o.stxt) THEN [rc |-> 0, t |-> "?Str__" \o ToString(n), node |-> 0]
                ELSE [rc |-> 1, t |-> o.stxt[n + 1], node |-> o.stn[n + 1]])
SetTextNode(S, x, n, node) ==
   LET o == S.objs[x] IN
   IF o.hst /\ n >= 0 /\ n < Len(o.stxt) /\ o.stn[n + 1] = 0 THEN Rc(S, x, [o EXCEPT !.stn[n + 1] = node], 1)
   ELSE Rc(S, x, o, 0)

----------------------------------------------------------------------------
(* acronyms *)
AcrAdd(S, x, nm, txt, idx) ==
   LET o == S.objs[x]
       F == {i \in 1..Len(o.acr) : SameText(o.acr[i].name, nm) \/ o.acr[i].map = idx} IN
   IF o.mode = "no" THEN Fail(S, x, o, eBADMODE)
   ELSE IF F = {} THEN Rc(S, x, [o EXCEPT !.acr = Append(@, [name |-> nm, txt |-> MakeGoodTxt(txt), map |-> idx, rmap |-> idx, auto |-> FALSE])], Len(o.acr) + 1)
   ELSE LET i == CHOOSE j \in F : \A m \in F : j <= m
        IN IF SameText(o.acr[i].name, nm) /\ o.acr[i].map = idx THEN Rc(S, x, o, 0)
           ELSE Rc(S, x, SetErr(o, eACROBADADD), -1)
AcrSetInfo(S, x, n, nm, txt, idx) ==
   LET o == S.objs[x] IN
   IF o.mode = "no" THEN Fail(S, x, o, eBADMODE)
   ELSE IF n < 1 \/ n > Len(o.acr) THEN Fail(S, x, o, eBADACRONUM)
   ELSE LET e == o.acr[n] IN
   IF o.mode \in AnyWrite \/ e.auto
   THEN IF GoodNew(o, nm) # 0 THEN Fail(S, x, SetErr(o, GoodNew(o, nm)), eBADACRONAME)
        ELSE IF (IF e.auto THEN e.rmap ELSE e.map) # idx THEN Fail(S, x, o, eBADACROINDEX)
        ELSE Rc(S, x, [o EXCEPT !.acr[n].name = nm, !.acr[n].txt = MakeGoodTxt(txt), !.acr[n].auto = FALSE], 1)
   ELSE IF e.rmap = idx THEN Rc(S, x, o, 1)
   ELSE IF ~SameText(nm, e.name) THEN Fail(S, x, o, eBADACRONAME)
   ELSE IF \E i \in 1..Len(o.acr) : o.acr[i].rmap = idx THEN Fail(S, x, o, eACRODUPEMAP)
   ELSE Rc(S, x, [o EXCEPT !.acr[n].rmap = idx], 1)
AcrGetInfo(S, x, n) ==
   LET o == S.objs[x] IN
   Res(S, x, o, IF n < 1 \/ n > Len(o.acr) THEN [rc |-> 0, nm |-> "", t |-> "", ix |-> 0]
                ELSE [rc |-> 1, nm |-> Trunc(o.acr[n].name, 63), t |-> Trunc(o.acr[n].txt, 255), ix |-> o.acr[n].map])
AcrGetMap(S, x, n) ==
   LET o == S.objs[x] IN
   IF o.mode = "no" THEN Fail(S, x, o, eBADMODE)
   ELSE IF n < 1 \/ n > Len(o.acr) THEN Fail(S, x, o, eBADACRONUM)
   ELSE Res(S, x, o, [rc |-> 1, org |-> o.acr[n].map, new |-> o.acr[n].rmap, auto |-> IF o.acr[n].auto THEN 1 ELSE 0])
AcrName(S, x, t) ==
   LET o == S.objs[x] IN
   IF ~IsAcrTok(t) THEN Res(S, x, o, [rc |-> 0, nm |-> ""])
   ELSE LET n == AcrEntry(o, AcrOf(t)) IN
        Res(S, x, o, [rc |-> 1, nm |-> IF n = 0 THEN "UnknownAcronym" \o ToString(AcrOf(t)) ELSE Trunc(o.acr[n].name, 255)])

----------------------------------------------------------------------------
(* filters *)
FiltStart(S, x, n) ==
   LET o == S.objs[x] IN
   IF o.mode # "ri" THEN Fail(S, x, o, eBADMODE)
   ELSE IF n < 1 THEN Fail(S, x, o, eBADFILTNR)
   ELSE Rc(S, x, [o EXCEPT !.mode = "rf", !.curf = n, !.filt = Put(@, n, [max |-> o.high, set |-> {}, sorted |-> FALSE])], 1)
FiltReg(S, x, u) ==
   LET o == S.objs[x] IN
   IF o.mode # "rf" THEN Fail(S, x, o, eBADMODE)
   ELSE IF u < 1 \/ u > o.filt[o.curf].max THEN Fail(S, x, o, eBADFILTIX)
   ELSE IF U2E(o, u) < 1 THEN Fail(S, x, o, eFILTUNMAPPED)
   ELSE Rc(S, x, [o EXCEPT !.filt[o.curf].set = @ \cup {u}], 1)
FiltDone(S, x) ==
   LET o == S.objs[x] IN
   IF o.mode # "rf" THEN Fail(S, x, o, eBADMODE)
   ELSE LET F == o.filt[o.curf].set
            q == SelectSeq(o.umap, LAMBDA v : v \in F)
            srt == MapStatus(o) # 1 \/ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
        IN Rc(S, x, [o EXCEPT !.mode = "ri", !.filt[o.curf].sorted = srt], 1)

----------------------------------------------------------------------------
(* bulk reads *)
FastRead(S, x, n, lim) == \* lim < 0: callback never stops; otherwise it stops after lim records
   LET q == PrepRead(S.objs[x], n, Unmapped, "rr") IN
   IF q.n < 0 THEN Res(S, x, q.o, [rc |-> 0, n |-> -1, recs |-> <<>>])
   ELSE LET l == IF lim = 0 THEN 1 ELSE lim
            m == ReadAll(q.o, l)
        IN Res(S, x, ReadDoneCore(m.o), [rc |-> 1, n |-> q.n, recs |-> m.out])
\* records whose keys match the given labels in the non-empty positions
FiltElems(o, fs, n) == [d \in 1..n |-> IF fs[d] = "" THEN 0 ELSE UelNr(o, fs[d])]
FastFilt(S, x, n, fs, lim) ==
   LET q == PrepRead(S.objs[x], n, Unmapped, "rr") IN
   IF q.n < 0 THEN Res(S, x, q.o, [rc |-> 0, recs |-> <<>>])
   ELSE LET fe == FiltElems(q.o, fs, q.o.cdim) IN
        IF \E d \in 1..q.o.cdim : fe[d] < 0 THEN Res(S, x, ReadDoneCore(q.o), [rc |-> 0, recs |-> <<>>])
        ELSE LET Hit(k) == \A d \in 1..q.o.cdim : fe[d] = 0 \/ fe[d] = k[d]
                 \* the callback ends the read at the lim-th record it is given
                 H == {i \in 1..Len(q.o.rsrc) : Hit(q.o.rsrc[i].k)}
                 l == IF lim < 0 \/ Cardinality(H) < Max2(lim, 1) THEN -1
                      ELSE CHOOSE i \in H : Cardinality({j \in H : j <= i}) = Max2(lim, 1)
                 m == ReadAll(q.o, l)
                 out == SelectSeq(m.out, LAMBDA r : Hit(r.k))
             IN Res(S, x, ReadDoneCore(m.o), [rc |-> 1, recs |-> [i \in 1..Len(out) |-> [k |-> out[i].k, v |-> out[i].v]]])
AscSeq(K) == LET q == SetToSeq(K) IN IF \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1] THEN q ELSE SortSeq(q, <)
SliceStart(S, x, n) ==
   LET q == PrepRead(S.objs[x], n, Unmapped, "rr") IN
   IF q.n < 0 THEN Rc(S, x, q.o, 0)
   ELSE LET m == ReadAll(q.o, -1)
            ix == [d \in 1..q.o.cdim |-> AscSeq({m.out[i].k[d] : i \in 1..Len(m.out)})]
        IN Res(S, x, [ReadDoneCore(m.o) EXCEPT !.mode = "rl", !.slsy = n, !.slix = ix, !.slel = [d \in 1..q.o.cdim |-> ""]],
               [rc |-> 1, cnt |-> [d \in 1..20 |-> IF d <= q.o.cdim THEN Len(ix[d]) ELSE 0]])
PosIn(q, v) == CHOOSE i \in 1..Len(q) : q[i] = v
Slice(S, x, fs) ==
   LET o == S.objs[x] IN
   IF o.mode # "rl" THEN Fail(S, x, o, eBADMODE)
   ELSE LET n == o.cdim
            fe == FiltElems(o, fs, n)
            dimen == Cardinality({d \in 1..n : fs[d] = ""})
            o1 == [o EXCEPT !.mode = "ri", !.slel = SubSeq(fs, 1, n)]
        IN IF \E d \in 1..n : fe[d] < 0 THEN Res(S, x, o1, [rc |-> 0, dim |-> dimen])
           ELSE LET q == PrepRead(o1, o.slsy, Unmapped, "rl")
                    m == ReadAll(q.o, -1)
                    hit == SelectSeq(m.out, LAMBDA r : \A d \in 1..n : fe[d] = 0 \/ fe[d] = r.k[d])
                    free == AscSeq({d \in 1..n : fe[d] = 0})
                IN Res(S, x, [m.o EXCEPT !.mode = "rl", !.rsf = FALSE],
                       [rc |-> 1, dim |-> dimen,
                        recs |-> [i \in 1..Len(hit) |-> [k |-> [j \in 1..Len(free) |-> PosIn(o.slix[free[j]], hit[i].k[free[j]]) - 1], v |-> hit[i].v]]])
SliceUels(S, x, ks) ==
   LET o == S.objs[x] IN
   IF o.mode # "rl" THEN Fail(S, x, o, eBADMODE)
   ELSE LET n == o.cdim
            RECURSIVE Go(_, _, _)
            Go(d, h, acc) == IF d > n THEN acc
                             ELSE IF o.slel[d] # "" THEN Go(d + 1, h, Append(acc, o.slel[d]))
                             ELSE Go(d + 1, h + 1, Append(acc, IF ks[h] < 0 \/ ks[h] >= Len(o.slix[d]) THEN "?"
                                                                  ELSE IF o.slix[d][ks[h] + 1] \notin 1..Len(o.uels) THEN "?" ELSE o.uels[o.slix[d][ks[h] + 1]]))
        IN Res(S, x, o, [rc |-> 1, l |-> Go(1, 1, <<>>)])
DomElems(S, x, n, pos, f, cb) ==
   LET o == S.objs[x] IN
   IF ~HasSym(o, n) THEN Fail(S, x, o, eBADSYM)
   ELSE IF o.syms[n].dim = 0 THEN Rc(S, x, o, 0)
   ELSE IF pos < 1 \/ pos > o.syms[n].dim THEN Fail(S, x, o, eBADDIM)
   ELSE IF f # -1 /\ f \notin DOMAIN o.filt THEN Fail(S, x, o, eUNKFILT)
   ELSE LET q == PrepRead(o, n, Unmapped, "rr") IN
   IF q.n < 0 THEN Rc(S, x, q.o, 0)
   ELSE LET Go(p, i) ==
               IF p.bad THEN p
               ELSE LET r == DoRead(p.o) IN
                    IF r.end THEN p
                    ELSE IF (f # -1 \/ cb = 1) /\ r.k[pos] \notin 1..Len(o.uels)
                         THEN [p EXCEPT !.o = SetErr(r.o, eBADELEM), !.bad = TRUE]
                    ELSE IF f # -1 /\ ~InFilt(r.o, f, r.o.umap[r.k[pos]])
                         THEN [p EXCEPT !.o = AddDomErr(r.o, [d \in 1..Len(r.k) |-> IF d = pos THEN -r.k[d] ELSE r.k[d]], r.v)]
                         ELSE [p EXCEPT !.o = r.o, !.K = @ \cup {r.k[pos]}]
            g == FoldLeft(Go, [o |-> q.o, K |-> {}, bad |-> FALSE], [i \in 1..Len(q.o.rsrc) |-> i])
            o1 == ReadDoneCore(g.o)
            ks == AscSeq({k \in g.K : k >= 1})
            RECURSIVE Map(_, _)
            Map(oo, i) == IF i > Len(ks) THEN oo ELSE Map(NewUsr(oo, ks[i]), i + 1)
            o2 == IF cb = 1 THEN Map(o1, 1) ELSE o1
            prs == [i \in 1..Len(ks) |-> <<o2.umap[ks[i]], ks[i]>>]
            srt == SortSeq(prs, LAMBDA p, r : p[1] < r[1])
        IN IF g.bad THEN Rc(S, x, o1, 0)
           ELSE Res(S, x, o2, IF cb = 1 THEN [rc |-> 1, n |-> Len(ks), l |-> [i \in 1..Len(srt) |-> <<srt[i][2], srt[i][1]>>]] ELSE [rc |-> 1, n |-> Len(ks)])
MaxLens(S, x, n) ==
   LET o == S.objs[x] IN
   IF o.mode # "ri" THEN Res(S, x, SetErr(o, eBADMODE), [rc |-> 0, l |-> [d \in 1..20 |-> 0]])
   ELSE IF n < 0 \/ n > Len(o.syms) THEN Res(S, x, o, [rc |-> 0, l |-> [d \in 1..20 |-> 0]])
   ELSE LET q == PrepRead(o, n, Unmapped, "rr")
            m == IF q.o.cdim > 0 THEN ReadAll(q.o, -1) ELSE [o |-> q.o, out |-> <<>>]
            U == 1..Len(o.uels)
            SetMax(T) == IF T = {} THEN 0 ELSE CHOOSE i \in T : \A j \in T : j <= i
            L(d) == SetMax({Len(o.uels[k]) : k \in {m.out[i].k[d] : i \in 1..Len(m.out)} \cap U})
            l == [d \in 1..20 |-> IF d <= q.o.cdim THEN L(d) ELSE 0]
        IN Res(S, x, ReadDoneCore(m.o), [rc |-> SetMax({l[d] : d \in 1..20}), l |-> l])

----------------------------------------------------------------------------
(* errors *)
ErrRec(S, x, n, signed) ==
   LET o == S.objs[x] IN
   IF o.mode \notin {"ri", "wi", "rm", "rmr", "wr", "wm", "ws"} THEN Fail(S, x, o, eBADMODE)
   ELSE IF o.erl = <<>> THEN Rc(S, x, o, 0)
   ELSE IF n < 1 \/ n > Len(o.erl) THEN Fail(S, x, o, eBADERRREC)
   ELSE LET e == o.erl[n] IN
        Res(S, x, o, [rc |-> 1, k |-> [d \in 1..Len(e.k) |-> IF ~signed /\ e.k[d] < 0 THEN -e.k[d] ELSE e.k[d]], v |-> e.v])
LastError(S, x) ==
   LET o == S.objs[x] IN
   Res(S, x, [o EXCEPT !.le = 0], IF o.le = -1 THEN [rcnz |-> 1] ELSE [rc |-> o.le])
SetSV(S, x, l) ==
   LET o == S.objs[x] IN
   IF \E i, j \in 1..5 : i # j /\ l[i] = l[j] THEN Fail(S, x, o, eDUPSV)
   ELSE Rc(S, x, [o EXCEPT !.sv = l, !.rsv = l], 1)
MapValue(S, x, t) ==
   LET o == S.objs[x]
       F == {i \in 1..5 : o.sv[i] = t} IN
   Res(S, x, o, IF F = {} THEN [rc |-> 0, sv |-> 5] ELSE [rc |-> 1, sv |-> (CHOOSE i \in F : \A j \in F : i <= j) - 1])

----------------------------------------------------------------------------
(* dispatch *)
NextRaw(S, x) ==
   LET o == S.objs[x] IN
   IF o.mode # "rr" THEN Fail(S, x, o, eBADMODE)
   ELSE LET q == DoRead(o) IN IF q.end THEN Rc(S, x, ReadDoneCore(o), 0)
        ELSE Res(S, x, q.o, [rc |-> 1, k |-> q.k, v |-> q.v, fd |-> q.fd])
NextStr(S, x) ==
   LET o == S.objs[x] IN
   IF o.mode # "rs" THEN Fail(S, x, o, eBADMODE)
   ELSE LET q == DoRead(o) IN IF q.end THEN Rc(S, x, ReadDoneCore(o), 0)
        ELSE Res(S, x, q.o, [rc |-> 1, k |-> [d \in 1..Len(q.k) |-> LabelOf(o, q.k[d])], v |-> q.v, fd |-> q.fd])
ReadDone(S, x) ==
   LET o == S.objs[x] IN
   IF o.mode \notin {"ri", "rr", "rm", "rmr", "rs", "rl"} THEN Fail(S, x, o, eBADMODE) ELSE Rc(S, x, ReadDoneCore(o), 1)

Swap(S, x, f, nv) == LET o == S.objs[x] IN Rc(S, x, [o EXCEPT ![f] = nv], o[f])
Query(S, x, r) == [s |-> S, r |-> r]
MaxLen(l) == LET T == {Len(l[i]) : i \in 1..Len(l)} IN IF T = {} THEN 0 ELSE CHOOSE i \in T : \A j \in T : j <= i

\* what happens to files behind the library's back
EnvOps == {"SetEnv", "Path", "Rm", "Cp", "Junk", "Dump", "PutBytes", "Cut", "IoSnap", "Fault", "FaultOff", "Limit", "Mkdir", "PutHole", "SetLoadPath", "GetLoadPath"}
EnvStep(S, op, a) ==
   CASE op = "SetEnv" -> [s |-> [S EXCEPT !.env = a[1]], r |-> [rc |-> 1]]
     [] op = "Path" -> \* a writable path comes into being; nothing is there yet
                      [s |-> [S EXCEPT !.disk = IF a[1] \in DOMAIN @ THEN @ ELSE Put(@, a[1], [k |-> "none"])], r |-> [rc |-> 1]]
     [] op = "Rm" -> [s |-> [S EXCEPT !.disk = Put(@, a[1], [k |-> "none"])], r |-> [rc |-> 1]]
     [] op = "Cp" -> [s |-> [S EXCEPT !.disk = Put(@, a[2], S.disk[a[1]])], r |-> [rc |-> 1]]
     [] op = "Dump" -> \* a = path, bytes of the file, its inflated blocks
          LET d == Diff(S.disk[a[1]], Decode(a[2], a[3]))
          IN [s |-> S, r |-> IF d = <<>> THEN [rc |-> 1] ELSE [rc |-> 1, differs |-> d]]
     [] op = "PutHole" -> \* a file is what it is no matter how far apart its parts lie
          [s |-> [S EXCEPT !.disk = Put(@, a[1], Decode(a[2], a[3]))], r |-> [rc |-> 1]]
     [] op = "PutBytes" -> [s |-> [S EXCEPT !.disk = Put(@, a[1], Decode(a[2], a[3]))], r |-> [rc |-> 1]]
     [] op \in {"Cut", "IoSnap"} -> \* a = path, bytes, blocks, original path: bytes is a prefix of the original file;
                                 \* or (IoSnap) what the file consisted of when only some of the writes had been performed, and a[5] = 1
                                 \* if that is what it consisted of in the end: nothing else may pass for a file
          LET f == Decode(a[2], a[3])
              d == IF f.k = "bad" THEN <<>> ELSE IF op = "IoSnap" /\ a[5] = 0 THEN <<"opens before it is complete">> ELSE Diff(S.disk[a[4]], f)
          IN [s |-> [S EXCEPT !.disk = Put(@, a[1], f)], r |-> IF d = <<>> THEN [rc |-> 1] ELSE [rc |-> 1, differs |-> d]]
     [] op \in {"Fault", "FaultOff"} -> [s |-> S, r |-> [rc |-> 1]]     \* what fails, and when, is seen in the calls
     [] op = "Limit" -> [s |-> [S EXCEPT !.lim = TRUE], r |-> [rc |-> 1]]
     [] op = "SetLoadPath" -> [s |-> [S EXCEPT !.lp = a[1]], r |-> [rc |-> 1]]      \* of the process, not of an object
     [] op = "GetLoadPath" -> [s |-> S, r |-> [rc |-> 1, s |-> S.lp]]
     [] op = "Mkdir" -> [s |-> [S EXCEPT !.disk = Put(@, a[1], [k |-> "dir"])], r |-> [rc |-> 1]]
     [] op = "Junk" -> [s |-> [S EXCEPT !.disk = Put(@, a[1], BadFile)], r |-> [rc |-> 1]]

ApiStep(S, x, op, a) ==
   LET o == S.objs[x] IN
   CASE op = "WriteRaw" -> WriteRaw(S, x, a[1], a[2])
     [] op = "WriteMap" -> WriteMap(S, x, a[1], a[2])
     [] op = "WriteStr" -> WriteStr(S, x, a[1], a[2])
     [] op = "ReadRaw" -> NextRaw(S, x)
     [] op = "ReadStr" -> NextStr(S, x)
     [] op = "ReadMap" -> ReadMap(S, x)
     [] op = "RegRaw" -> RegRaw(S, x, a[1])
     [] op = "RegStr" -> RegStr(S, x, a[1])
     [] op = "RegMap" -> RegMap(S, x, a[1], a[2])
     [] op = "FiltReg" -> FiltReg(S, x, a[1])
     [] op = "Destroy" -> Destroy(S, x)
     [] op = "OpenWrite" -> OpenWrite(S, x, a[1], a[2], S.env)
     [] op = "OpenWriteEx" -> OpenWrite(S, x, a[1], a[2], a[3])
     [] op = "OpenRead" -> OpenRead(S, x, a[1], 0)
     [] op = "OpenReadEx" -> OpenRead(S, x, a[1], a[2])
     [] op = "OpenAppend" -> OpenAppend(S, x, a[1])
     [] op = "Close" -> Close(S, x)
     [] op \in {"WriteRawStart", "WriteRawStartKB"} -> PrepWrite(S, x, a, "wdr")
     [] op = "WriteMapStart" -> PrepWrite(S, x, a, "wdm")
     [] op = "WriteStrStart" -> PrepWrite(S, x, a, "wds")
     [] op = "WriteDone" -> WriteDone(S, x)
     [] op = "SetDomain" -> SetDomain(S, x, a[1])
     [] op = "SetDomainX" -> SetDomainX(S, x, a[1], a[2])
     [] op = "GetDomain" -> GetDomain(S, x, a[1])
     [] op = "GetDomainX" -> GetDomainX(S, x, a[1])
     [] op = "AddAlias" -> AddAlias(S, x, a[1], a[2])
     [] op = "AddComment" -> AddComment(S, x, a[1], a[2])
     [] op = "GetComment" -> GetComment(S, x, a[1], a[2])
     [] op = "SymInfo" -> SymInfo(S, x, a[1])
     [] op = "SymInfoX" -> SymInfoX(S, x, a[1])
     [] op = "SymDim" -> Query(S, x, [rc |-> IF a[1] = 0 THEN 1 ELSE IF HasSym(o, a[1]) THEN o.syms[a[1]].dim ELSE -1])
     [] op = "FindSym" -> Query(S, x, IF a[1] = "*" THEN [rc |-> 1, n |-> 0]
                                      ELSE IF o.mode = "no" THEN [rc |-> 0]
                                      ELSE [rc |-> IF SymNr(o, a[1]) > 0 THEN 1 ELSE 0, n |-> SymNr(o, a[1])])
     [] op = "HasText" -> Query(S, x, [rc |-> IF HasSym(o, a[1]) /\ o.syms[a[1]].stx THEN 1 ELSE 0])
     [] op = "SysInfo" -> Query(S, x, [rc |-> 1, ns |-> Len(o.syms), nu |-> Len(o.uels)])
     [] op = "CurDim" -> Query(S, x, [rc |-> o.cdim])
     [] op = "RegRawStart" -> RegStart(S, x, "er", TRUE)
     [] op = "RegMapStart" -> RegStart(S, x, "em", FALSE)
     [] op = "RegStrStart" -> RegStart(S, x, "es", FALSE)
     [] op = "RegDone" -> IF o.mode \in {"er", "em", "es"} THEN Rc(S, x, [o EXCEPT !.mode = o.aft], 1) ELSE Fail(S, x, o, eBADMODE)
     [] op = "UelInfo" -> Query(S, x, IF o.mode = "no" THEN [rc |-> 0, nu |-> 0, hi |-> 0] ELSE [rc |-> 1, nu |-> Len(o.uels), hi |-> o.high])
     [] op = "UelGet" -> Query(S, x, IF a[1] >= 1 /\ a[1] <= Len(o.uels) THEN [rc |-> 1, u |-> o.uels[a[1]], m |-> o.umap[a[1]]]
                                     ELSE [rc |-> 0, u |-> "?L__" \o ToString(a[1]), m |-> -1])
     [] op = "FindUel" -> LET n == UelNr(o, RTrim(a[1])) IN Query(S, x, IF n > 0 THEN [rc |-> 1, n |-> n, m |-> o.umap[n]] ELSE [rc |-> 0, n |-> -1, m |-> -1])
     [] op = "GetUel" -> Query(S, x, IF o.mode = "no" THEN [rc |-> 0, u |-> ""]
                                     ELSE IF U2E(o, a[1]) >= 1 THEN [rc |-> 1, u |-> o.uels[U2E(o, a[1])]]
                                     ELSE [rc |-> 0, u |-> "?L__" \o ToString(a[1])])
     [] op = "RenameUel" -> RenameUel(S, x, a[1], a[2])
     [] op = "ReadRawStart" -> StartRead(S, x, a[1], Unmapped, "rr")
     [] op = "ReadStrStart" -> StartRead(S, x, a[1], Unmapped, "rs")
     [] op = "ReadMapStart" -> StartRead(S, x, a[1], Strict, "rm")
     [] op = "ReadFiltStart" -> StartRead(S, x, a[1], a[2], "rm")
     [] op = "ReadDone" -> ReadDone(S, x)
     [] op = "Fast" -> LET q == FastRead(S, x, a[1], -1)
                       IN [q EXCEPT !.r.recs = [i \in 1..Len(@) |-> [k |-> @[i].k, v |-> @[i].v]]]
     [] op = "FastEx" -> FastRead(S, x, a[1], a[2])
     [] op = "FastFilt" -> FastFilt(S, x, a[1], a[2], a[3])
     [] op = "SliceStart" -> SliceStart(S, x, a[1])
     [] op = "Slice" -> Slice(S, x, a[1])
     [] op = "SliceUels" -> SliceUels(S, x, a[1])
     [] op = "DomElems" -> DomElems(S, x, a[1], a[2], a[3], a[4])
     [] op = "MaxLens" -> MaxLens(S, x, a[1])
     [] op = "FiltExists" -> IF o.mode \notin AnyRead THEN Fail(S, x, o, eBADMODE) ELSE Rc(S, x, o, IF a[1] \in DOMAIN o.filt THEN 1 ELSE 0)
     [] op = "FiltStart" -> FiltStart(S, x, a[1])
     [] op = "FiltDone" -> FiltDone(S, x)
     [] op = "AddSetText" -> AddSetText(S, x, a[1])
     [] op = "GetElemText" -> GetElemText(S, x, a[1])
     [] op = "SetTextNode" -> SetTextNode(S, x, a[1], a[2])
     [] op = "AcrAdd" -> AcrAdd(S, x, a[1], a[2], a[3])
     [] op = "AcrCount" -> Query(S, x, [rc |-> Len(o.acr)])
     [] op = "AcrGetInfo" -> AcrGetInfo(S, x, a[1])
     [] op = "AcrSetInfo" -> AcrSetInfo(S, x, a[1], a[2], a[3], a[4])
     [] op = "AcrGetMap" -> AcrGetMap(S, x, a[1])
     [] op = "AcrNextNr" -> Rc(S, x, [o EXCEPT !.nextacr = IF a[1] >= 0 THEN a[1] ELSE @], o.nextacr)
     [] op = "AcrIndex" -> Query(S, x, [rc |-> IF IsAcrTok(a[1]) THEN AcrOf(a[1]) ELSE 0])
     [] op = "AcrName" -> AcrName(S, x, a[1])
     [] op = "AcrValue" -> Query(S, x, [v |-> IF a[1] <= 0 THEN Zero ELSE AcrTok(a[1])])
     [] op = "GetSV" -> Query(S, x, [rc |-> 1, l |-> o.sv])
     [] op = "SetSV" -> SetSV(S, x, a[1])
     [] op = "SetReadSV" -> Rc(S, x, [o EXCEPT !.rsv = a[1]], 1)
     [] op = "ResetSV" -> Rc(S, x, [o EXCEPT !.sv = DefSV, !.rsv = DefSV], 1)
     [] op = "MapValue" -> MapValue(S, x, a[1])
     [] op = "LastError" -> LastError(S, x)
     [] op = "ErrCount" -> Query(S, x, IF o.et < 0 THEN EmptyFun ELSE [rc |-> o.et])
     [] op = "ErrStr" -> Query(S, x, IF a[1] \in DOMAIN ErrText THEN [rc |-> 1, t |-> ErrText[a[1]]] ELSE [rc |-> 1])
     [] op = "DataErrCount" -> Query(S, x, [rc |-> Len(o.erl)])
     [] op = "DataErrRec" -> ErrRec(S, x, a[1], FALSE)
     [] op = "DataErrRecX" -> ErrRec(S, x, a[1], TRUE)
     [] op = "FileInfo" -> Query(S, x, [rc |-> 1, ver |-> IF o.mode = "no" THEN 0 ELSE o.ver, compr |-> IF o.mode = "no" THEN 0 ELSE o.compr])
     [] op = "FileVersion" -> Query(S, x, IF o.known THEN [rc |-> 1, prod |-> Trunc(o.prod, 255), lib |-> o.lib] ELSE [rc |-> 1])   \* lib: "own" for the version of this library
     [] op = "AutoConvert" -> Swap(S, x, "ac", a[1])
     [] op = "SetStoreDomSets" -> Rc(S, x, [o EXCEPT !.sds = a[1]], 1)
     [] op = "GetStoreDomSets" -> Query(S, x, [rc |-> IF o.sds # 0 THEN 1 ELSE 0])
     [] op = "SetAllowBogus" -> Rc(S, x, [o EXCEPT !.abd = a[1]], 1)
     [] op = "GetAllowBogus" -> Query(S, x, [rc |-> IF o.abd # 0 THEN 1 ELSE 0])
     [] op = "SetAcrNaN" -> Rc(S, x, [o EXCEPT !.acrnan = a[1]], 1)
     [] op = "GetAcrNaN" -> Query(S, x, [rc |-> IF o.acrnan # 0 THEN 1 ELSE 0])
     [] op = "UelMaxLen" -> Query(S, x, [rc |-> MaxLen(o.uels)])
     [] op = "SymMaxLen" -> Query(S, x, [rc |-> MaxLen([i \in 1..Len(o.syms) |-> o.syms[i].name])])
     [] op = "Trace" -> Query(S, x, [rc |-> 1])
     [] op = "MemUsed" -> Query(S, x, [rc |-> 1])                                     \* 1: not negative
     [] op = "DllVersion" -> Query(S, x, [rc |-> 1, lib |-> "own"])

Step(S, x, op, a) ==
   IF op \in EnvOps THEN EnvStep(S, op, a)
   ELSE IF op = "Create" THEN [s |-> [S EXCEPT !.objs = Put(@, x, NewObj)], r |-> [rc |-> 1]]
   ELSE ApiStep(S, x, op, a)

(* batches: the same call for a list of argument tuples; the same call until it returns 0 *)
RepStep(acc, args, x, op) == LET q == Step(acc.s, x, op, args) IN [s |-> q.s, r |-> Append(acc.r, q.r)]
Rep(S, x, op, argss) == LET q == FoldLeft(LAMBDA acc, a : RepStep(acc, a, x, op), [s |-> S, r |-> <<>>], argss)
                        IN [s |-> q.s, r |-> [l |-> q.r]]
\* (done in chunks: TLC's name lookup is linear in the recursion depth)
Chunk == [i \in 1..100 |-> i]
LoopStep(p, x, op, n) ==
   IF p.e \/ Len(p.r) >= n THEN [p EXCEPT !.e = TRUE]
   ELSE LET q == Step(p.s, x, op, <<0>>) IN [s |-> q.s, r |-> Append(p.r, q.r), e |-> q.r.rc = 0]
RECURSIVE LoopR(_, _, _, _)
LoopR(p, x, op, n) == IF p.e THEN [s |-> p.s, r |-> [l |-> p.r]]
                      ELSE LoopR(FoldLeft(LAMBDA q, i : LoopStep(q, x, op, n), p, Chunk), x, op, n)

Apply(S, x, op, a) ==
   CASE op = "Rep" -> Rep(S, x, a[1], a[2])
     [] op = "Loop" -> LoopR([s |-> S, r |-> <<>>, e |-> FALSE], x, a[1], a[2])
     [] OTHER -> Step(S, x, op, a)

----------------------------------------------------------------------------
(* I/O failures.  The environment lets system calls of object x fail during a call: io.hard (the system refuses) or  *)
(* io.soft (only a part is done, interrupted).  A refusal while writing must be reported by gdxGetLastError or, at   *)
(* the latest, by gdxClose; and whenever gdxClose reports success (rc = 0) after any of this, the file is complete.  *)
NoIo == [hard |-> FALSE, dirty |-> FALSE, soft |-> FALSE]
IoOf(S, x) == IF x \in DOMAIN S.io THEN S.io[x] ELSE NoIo
ApplyIo(S, x, op, a, io, rc) ==
   LET f0 == IF op \in {"OpenWrite", "OpenWriteEx", "OpenAppend", "OpenRead", "OpenReadEx"} /\ S.objs[x].mode = "no"
             THEN NoIo ELSE IoOf(S, x)     \* what failed before this session is not its business
       f == [hard |-> f0.hard \/ io.hard > 0, dirty |-> f0.dirty \/ io.hard > 0, soft |-> f0.soft \/ io.soft > 0]
       S1 == [S EXCEPT !.io = Put(@, x, f)]
       q == Apply(S1, x, op, a)
       wr == x \in DOMAIN S.objs /\ (S.objs[x].mode \in AnyWrite \/ (S.objs[x].mode \in {"er", "em", "es"} /\ S.objs[x].aft = "wi"))
       lost == [q.s EXCEPT !.disk[S.objs[x].fn] = UnkFile([k |-> "none"]), !.io = Put(@, x, NoIo)]
   IN IF op = "LastError" /\ f.hard /\ wr THEN [s |-> [S1 EXCEPT !.io[x].hard = FALSE], r |-> [rcnz |-> 1]]
      ELSE IF op = "LastError" /\ (f.soft \/ S.lim) /\ wr /\ rc # 0 /\ ("rc" \notin DOMAIN q.r \/ q.r.rc # rc)
           THEN [s |-> [S1 EXCEPT !.io[x].dirty = TRUE], r |-> EmptyFun]     \* reported although it could have been repaired
      ELSE IF op = "Close" /\ ~wr THEN [s |-> [q.s EXCEPT !.io = Put(@, x, NoIo)], r |-> EmptyFun]
      ELSE IF op = "Close" /\ f.hard THEN [s |-> lost, r |-> [rcnz |-> 1]]
      ELSE IF op = "Close" /\ f.dirty THEN [s |-> lost, r |-> EmptyFun]
      ELSE IF op = "Close" /\ (f.soft \/ S.lim)
           THEN IF rc = 0 THEN [s |-> [q.s EXCEPT !.io = Put(@, x, NoIo)], r |-> q.r] ELSE [s |-> lost, r |-> EmptyFun]
      ELSE IF op = "Create" THEN [s |-> [q.s EXCEPT !.io = Put(@, x, NoIo)], r |-> q.r]
      ELSE q
=============================================================================
