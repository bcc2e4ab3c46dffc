------------------------------ MODULE MCTools ------------------------------
(***************************************************************************)
(* The laws of the tools, checked for every pair of files of a family and  *)
(* every set of options given in the file named by MC_FILE.  The files     *)
(* are made by the specified library itself (sequences of calls).  Every   *)
(* pair is then replayed into the real tools (tools/mctools.py).           *)
(***************************************************************************)
EXTENDS GDXDump, IOUtils

Cfg == JsonDeserialize(IOEnv.MC_FILE)
MkFile(l) == FoldLeft(LAMBDA s, c : Apply(s, c[1], c[2], c[3]).s, InitState, l).disk["a.gdx"]
F == TLCEval([n \in 1..Len(Cfg.files) |-> MkFile(Cfg.files[n])])

VARIABLES i, j, k
vars == <<i, j, k>>
Init == i \in 1..Len(Cfg.files) /\ j \in 1..Len(Cfg.files) /\ k \in 1..Len(Cfg.opts)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* gdxdiff *)
SwapAct(t) == CASE t = "INS1" -> "INS2" [] t = "INS2" -> "INS1" [] t = "DIF1" -> "DIF2" [] t = "DIF2" -> "DIF1"
SwapSt(t) == IF t = "Symbol not found in file 2" THEN "Symbol not found in file 1"
             ELSE IF t = "Symbol not found in file 1" THEN "Symbol not found in file 2"
             ELSE IF t \in {"Data are different", "Keys are different"} THEN "different" ELSE t
NoSwap(t) == IF t \in {"Data are different", "Keys are different"} THEN "different" ELSE t
Front1(l) == SubSeq(l, 1, Len(l) - 1)
SymRecs(T) == UNION {{<<Up(s.name), r.k, r.v>> : r \in s.recs} : s \in T}
\* the content as far as labels, texts and values go
Content(f, o) == {[n |-> Up(f.syms[x].name), t |-> EffTyp(f, x), d |-> f.syms[x].dim,
                   r |-> LET R == RecsOf(f, x) IN {<<UpAll(R[q].k), IF f.syms[x].typ \in {0, 4} THEN R[q].v ELSE [m \in 1..Len(R[q].v) |-> ValName(f, R[q].v[m])]>> : q \in 1..Len(R)}]
                  : x \in {y \in 1..Len(f.syms) : Wanted(o, f.syms[y].name)}}
PlainOpts(o) == o.eps = 0 /\ o.rel = 0 /\ o.field = 0 /\ o.settext /\ ~o.fldonly /\ ~o.diffonly /\ ~o.matrix /\ o.defaults
DiffLaws ==
   LET o == Cfg.opts[k]
       f == F[i]
       g == F[j]
       d == DiffFiles(f, g, o)
       e == DiffFiles(g, f, o)
       cf == Content(f, o)
       cg == Content(g, o)
   IN /\ i = j => d.st = {}                                                        \* a file does not differ from itself
      /\ {<<Up(p[1]), SwapSt(p[2])>> : p \in e.st} = {<<Up(p[1]), NoSwap(p[2])>> : p \in d.st}        \* symmetry
      /\ ~o.matrix => {<<t[1], Append(Front1(t[2]), SwapAct(t[2][Len(t[2])])), t[3]>> : t \in SymRecs(e.syms)} = SymRecs(d.syms)
      /\ PlainOpts(o) =>
         /\ (d.st = {}) = (cf = cg)                                                 \* reported exactly when there is a difference
         /\ \A s \in d.syms :                                                       \* the differences turn one file into the other
            LET a == CHOOSE x \in cf : x.n = Up(s.name)
                b == CHOOSE x \in cg : x.n = Up(s.name)
                Of(T, h) == {<<Front1(r.k), IF s.typ = 0 THEN r.v ELSE [n \in 1..Len(r.v) |-> ValName(h, r.v[n])]>> : r \in {q \in s.recs : q.k[Len(q.k)] \in T}}
            IN b.r = (a.r \ Of({"INS1", "DIF1"}, f)) \cup Of({"INS2", "DIF2"}, g)
      /\ ~o.matrix /\ ~o.diffonly /\ o.eps > 0 =>                                   \* a tolerance only removes differences
         SymRecs(d.syms) \subseteq SymRecs(DiffFiles(f, g, [o EXCEPT !.eps = 0]).syms)

----------------------------------------------------------------------------
(* gdxmerge: Cfg.opts[k] = [ids, excl] *)
MergeLaws ==
   LET o == Cfg.opts[k]
       fs == <<[f |-> F[i], id |-> "f1"], [f |-> F[j], id |-> "f2"]>>
       m == FoldLeft(LAMBDA q, e : MergeFile(q, e.f, e.id), [syms |-> <<>>, errs |-> <<>>, nf |-> 0, o |-> o], fs)
       Own(f, x) == LET R == RecsOf(f, x) IN {<<UpAll(R[q].k), IF f.syms[x].typ \in {0, 4} THEN R[q].v ELSE [n \in 1..Len(R[q].v) |-> ValName(f, R[q].v[n])]>> : q \in 1..Len(R)}
       Part(q, id) == {<<Tail(r.k), r.v>> : r \in {z \in m.syms[q].recs : z.k[1] = Up(id)}}
       Merged(nm) == {q \in 1..Len(m.syms) : SameText(m.syms[q].name, nm)}
   IN /\ \A x, y \in 1..Len(m.syms) : x # y => ~SameText(m.syms[x].name, m.syms[y].name)
      /\ \A q \in 1..Len(m.syms) : \A r \in m.syms[q].recs : r.k[1] \in {"F1", "F2"} /\ Len(r.k) = m.syms[q].dim
      /\ \A p \in 1..2 : LET f == fs[p].f IN \A x \in 1..Len(f.syms) :
            LET nm == f.syms[x].name IN
            /\ MergeWanted(o, nm) = (Merged(nm) # {})
            /\ \A q \in Merged(nm) :
               \/ Part(q, fs[p].id) = Own(f, x)                                     \* exactly the records of that file
               \/ Part(q, fs[p].id) = {} /\ p = 2 /\ \E t \in 1..Len(m.errs) : IsSuffixStr(nm, m.errs[t])    \* or none, with a message
      /\ i = j => m.errs = <<>>

----------------------------------------------------------------------------
Tooling == IF Cfg.tool = "gdxdiff" THEN DiffLaws ELSE IF Cfg.tool = "gdxmerge" THEN MergeLaws ELSE TRUE
=============================================================================
