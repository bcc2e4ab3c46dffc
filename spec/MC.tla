--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of the specification with a finite alphabet of   *)
(* calls (read from the file named by MC_FILE), up to a bounded number of  *)
(* calls.  The invariants and step properties below are the specification- *)
(* level form of the listed properties; every transition explored is also  *)
(* printed, and is then replayed into the library (tools/mc.py).           *)
(***************************************************************************)
EXTENDS GDX, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC_FILE)

VARIABLES S, hist
vars == <<S, hist>>

\* error counters only grow; states that differ in them alone are identified unless the configuration asks otherwise
AbsObj(o) == IF Cfg.errs = 1 THEN [o EXCEPT !.ec = Min2(@, 3), !.et = Min2(@, 3)]
             ELSE [o EXCEPT !.ec = 0, !.et = 0, !.le = 0]
Abs(s) == [s EXCEPT !.objs = [x \in DOMAIN @ |-> AbsObj(@[x])]]
View == Abs(S)

Init == /\ S = FoldLeft(LAMBDA s, c : Apply(s, c[1], c[2], c[3]).s, InitState, Cfg.setup)
        /\ hist = <<>>

Usable(c) ==
   /\ \/ c[1] = 0 
      \/ IF c[2] = "Create" THEN c[1] \notin DOMAIN S.objs ELSE c[1] \in DOMAIN S.objs
   \* a file left behind by an aborted append is not specified, so nobody looks at it
   /\ c[2] \in {"OpenRead", "OpenReadEx", "OpenAppend"} => (c[3][1] \in DOMAIN S.disk => S.disk[c[3][1]].k # "unk")
Next == \E i \in 1..Len(Cfg.alpha) :
           LET c == Cfg.alpha[i] IN
           /\ Usable(c)
           /\ LET q == Apply(S, c[1], c[2], c[3]) IN
              /\ S' = q.s /\ hist' = Append(hist, i)
              /\ PrintT(<<"T", hist, i, IF Abs(S) = Abs(q.s) THEN 1 ELSE 0>>)
Spec == Init /\ [][Next]_vars
Bound == Len(hist) < Cfg.depth

----------------------------------------------------------------------------
(* invariants: what is true of every object and every file at all times *)
InvMap(l, ix) == \* ix is the case-insensitive index of the list l of distinct names
   /\ \A i \in 1..Len(l) : Up(l[i]) \in DOMAIN ix /\ ix[Up(l[i])] = i
   /\ Cardinality(DOMAIN ix) = Len(l)
Names(l) == [i \in 1..Len(l) |-> l[i].name]
RecsOk(sy) == /\ StrictlySorted(sy.recs)
              /\ sy.dim = 0 => Len(sy.recs) <= 1
              /\ \A i \in 1..Len(sy.recs) : Len(sy.recs[i].k) = sy.dim /\ Len(sy.recs[i].v) = DataSize(sy.typ)
SymsOk(l) == \A n \in 1..Len(l) :
   LET sy == l[n] IN
   /\ RecsOk(sy) /\ GoodIdent(sy.name) /\ sy.dim \in 0..20 /\ sy.typ \in 0..4
   /\ sy.typ = 4 => sy.recs = <<>> /\ sy.ui < n
   /\ Len(sy.txt) <= 255
   /\ sy.hd => /\ Len(sy.ds) = sy.dim /\ \A d \in 1..sy.dim : sy.ds[d] <= n
                                         /\ sy.ds[d] > 0 => l[sy.ds[d]].typ \in {0, 4}
   /\ sy.stx = (sy.typ = 0 /\ \E i \in 1..Len(sy.recs) : sy.recs[i].v[1] # Zero)
UelsOk(o) == InvMap(o.uels, o.uidx)
UserMapOk(o) == /\ Len(o.umap) = Len(o.uels)
                /\ \A e \in 1..Len(o.umap) : o.umap[e] >= 0 => U2E(o, o.umap[e]) = e
                /\ \A n \in DOMAIN o.u2e : o.umap[o.u2e[n]] = n /\ n <= o.high
AcrOk(l) == \A i, j \in 1..Len(l) : i # j => l[i].map # l[j].map
TextsOk(o) == o.hst => /\ o.stxt[1] = "" /\ Len(o.stn) = Len(o.stxt)
                       /\ \A i \in 1..Len(o.stxt) : o.sti[o.stxt[i]] = i - 1
\* a record of a symbol whose domain is a set stored with its elements lies in that set
DomsOk(o) == o.cur > 0 /\ o.mode \in AnyWrite =>
   LET sy == o.syms[o.cur] IN
   \A d \in 1..sy.dim : o.wdom[d] # 0 => \A i \in 1..Len(sy.recs) : \E j \in 1..Len(o.syms[o.wdom[d]].recs) : o.syms[o.wdom[d]].recs[j].k[1] = sy.recs[i].k[d]
ObjOk(o) ==
   /\ o.mode \in Modes
   /\ InvMap(Names(o.syms), o.sidx) /\ SymsOk(o.syms)
   /\ UelsOk(o) /\ UserMapOk(o) /\ AcrOk(o.acr) /\ TextsOk(o) /\ DomsOk(o)
   /\ Len(o.erl) <= 11
   /\ o.mode = "no" => o.syms = <<>> /\ o.uels = <<>> /\ o.acr = <<>> /\ ~o.hst /\ o.filt = EmptyFun
   /\ \A f \in DOMAIN o.filt : \A u \in o.filt[f].set : u <= o.filt[f].max /\ U2E(o, u) >= 1
FileOk(f) == f.k = "ok" =>
   /\ SymsOk(f.syms) /\ AcrOk(f.acr)
   /\ \A n \in 1..Len(f.syms) : f.syms[n].typ # 4 => f.syms[n].cnt = Len(f.syms[n].recs)
   /\ InvMap(f.uels, f.uidx)
Inv == /\ \A x \in DOMAIN S.objs : ObjOk(S.objs[x])
       /\ \A p \in DOMAIN S.disk : FileOk(S.disk[p])

\* all ways to read a symbol deliver the same records
AllRaw(o, n) == LET q == PrepRead(o, n, Unmapped, "rr") IN ReadAll(q.o, -1).out
AllFiltFree(o, n) == LET q == PrepRead(o, n, Unmapped, "rm")
                         RECURSIVE Go(_, _)
                         Go(p, acc) == LET m == MapLazy(p) IN IF m.w # "take" THEN acc ELSE Go(m.o, Append(acc, [k |-> m.k, v |-> m.v]))
                     IN IF q.o.rsf THEN <<[k |-> <<>>, v |-> DefVals(q.o).v]>> ELSE Go(q.o, <<>>)
Agree == \A x \in DOMAIN S.objs :
   LET o == S.objs[x] IN
   o.mode = "ri" /\ o.nextacr = 0 => \A n \in 1..Len(o.syms) :
      LET a == AllRaw(o, n) IN
      (\A i \in 1..Len(a) : \A d \in 1..Len(a[i].k) : a[i].k[d] <= Len(o.uels)) =>
      /\ AllFiltFree(o, n) = [i \in 1..Len(a) |-> [k |-> a[i].k, v |-> a[i].v]]
      /\ FastRead(S, x, n, -1).r.recs = a
      /\ FastFilt(S, x, n, [d \in 1..20 |-> ""], -1).r.recs = [i \in 1..Len(a) |-> [k |-> a[i].k, v |-> a[i].v]]

----------------------------------------------------------------------------
(* step properties *)
\* a call rejected because of the mode leaves no trace except in the error state
NoErr(o) == [o EXCEPT !.le = 0, !.ec = 0, !.et = 0]
Called == Cfg.alpha[hist'[Len(hist')]]
Rejected == LET c == Called IN
   c[1] # 0 /\ c[1] \in DOMAIN S.objs /\ c[1] \in DOMAIN S'.objs
   => LET o == S.objs[c[1]]
          o2 == S'.objs[c[1]]
      IN (o2.et = o.et + 1 /\ o.le = 0 /\ o2.le = eBADMODE) => NoErr(o2) = NoErr(o) /\ S'.disk = S.disk
\* calls on one object have no effect on another object
Independent == LET c == Called IN \A y \in DOMAIN S.objs : y # c[1] => y \in DOMAIN S'.objs /\ S'.objs[y] = S.objs[y]
\* the last error is kept until it is asked for or a file is opened; the count never falls while a file is open
Latched == LET c == Called IN
   c[1] \in DOMAIN S.objs /\ c[1] \in DOMAIN S'.objs
   => LET o == S.objs[c[1]]
          o2 == S'.objs[c[1]]
      IN /\ (o.le # 0 /\ c[2] \notin {"LastError", "OpenRead", "OpenReadEx", "OpenWrite", "OpenWriteEx", "OpenAppend"}) => o2.le = o.le
         /\ (o.mode # "no") => o2.et >= o.et
         /\ (o2.et > o.et /\ o.le = 0) => o2.le # 0
\* element numbers and user numbers, once given, stay (while the file is open)
Stable == LET c == Called IN
   c[1] \in DOMAIN S.objs /\ c[1] \in DOMAIN S'.objs
   => LET o == S.objs[c[1]]
          o2 == S'.objs[c[1]]
      IN o.mode # "no" /\ o2.mode # "no" =>
           /\ Len(o2.uels) >= Len(o.uels)
           /\ c[2] # "RenameUel" => SubSeq(o2.uels, 1, Len(o.uels)) = o.uels
           /\ c[2] = "RenameUel" => Cardinality({i \in 1..Len(o.uels) : o2.uels[i] # o.uels[i]}) <= 1
           /\ \A e \in 1..Len(o.umap) : o.umap[e] >= 0 => o2.umap[e] = o.umap[e]
           /\ Len(o2.syms) >= Len(o.syms)
           /\ \A n \in 1..Len(o.syms) : /\ o2.syms[n].name = o.syms[n].name /\ o2.syms[n].dim = o.syms[n].dim /\ o2.syms[n].typ = o.syms[n].typ
                                        /\ o2.syms[n].ui = o.syms[n].ui /\ o2.syms[n].txt = o.syms[n].txt
                                        /\ n # o.cur => o2.syms[n].recs = o.syms[n].recs
                                        /\ SubSeq(o2.syms[n].comm, 1, Len(o.syms[n].comm)) = o.syms[n].comm
           /\ SubSeq(o2.stxt, 1, Len(o.stxt)) = o.stxt
           /\ Len(o2.acr) >= Len(o.acr) /\ \A i \in 1..Len(o.acr) : o2.acr[i].map = o.acr[i].map
\* what a closed file holds: everything the session held, and reading it back gives the same tables
RoundTrip == LET c == Called IN
   c[2] = "Close" /\ c[1] \in DOMAIN S.objs /\ S.objs[c[1]].mode = "wi"
   => LET o == S.objs[c[1]]
          f == S'.disk[o.fn]
          o2 == OpenRead(S', c[1], o.fn, 0).s.objs[c[1]]
      IN /\ f.k = "ok" /\ Len(o2.syms) = Len(o.syms) /\ o2.uels = o.uels
         /\ \A n \in 1..Len(o.syms) : [o2.syms[n] EXCEPT !.hb = FALSE, !.bits = {}] = [o.syms[n] EXCEPT !.hb = FALSE, !.bits = {}]
         /\ o2.stxt = o.stxt /\ o2.dstr = o.dstr /\ Len(o2.acr) = Len(o.acr)
\* appending keeps what was there
AppendKeeps == LET c == Called IN
   c[2] = "Close" /\ c[1] \in DOMAIN S.objs /\ S.objs[c[1]].fn \in DOMAIN S.disk /\ S.disk[S.objs[c[1]].fn].k = "unk"
   => LET was == S.disk[S.objs[c[1]].fn].was
          now == S'.disk[S.objs[c[1]].fn]
          ns == Len(was.syms)
      IN /\ now.k = "ok" /\ now.compr = was.compr
         /\ Len(now.syms) >= ns /\ Len(now.uels) >= Len(was.uels)
         /\ \A n \in 1..ns : /\ [now.syms[n] EXCEPT !.comm = <<>>, !.hx = FALSE, !.dx = <<>>] = [was.syms[n] EXCEPT !.comm = <<>>, !.hx = FALSE, !.dx = <<>>]
                            /\ SubSeq(now.syms[n].comm, 1, Len(was.syms[n].comm)) = was.syms[n].comm
         /\ SubSeq(now.stxt, 1, Len(was.stxt)) = was.stxt
         /\ \A i \in 1..Len(was.acr) : now.acr[i].map = was.acr[i].map
Props == [][Rejected /\ Independent /\ Latched /\ Stable /\ RoundTrip /\ AppendKeeps]_vars
=============================================================================
