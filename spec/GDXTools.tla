------------------------------ MODULE GDXTools ------------------------------
(***************************************************************************)
(* The command line tools, as functions of the contents of their input     *)
(* files and their options: gdxdiff and gdxmerge give another content and  *)
(* a report, gdxdump gives text.                                           *)
(*                                                                         *)
(* Labels are identified without regard to case, as everywhere in GDX.     *)
(* The order of symbols, records and labels in a produced file is left     *)
(* open.                                                                   *)
(***************************************************************************)
EXTENDS GDX

UpAll(l) == [i \in 1..Len(l) |-> Up(l[i])]
\* the order of strings byte by byte
RECURSIVE StrLessR(_, _, _)
StrLessR(a, b, i) == IF i >= Len(b) THEN FALSE ELSE IF i >= Len(a) THEN TRUE
                     ELSE IF ByteAt(a, i) # ByteAt(b, i) THEN ByteAt(a, i) < ByteAt(b, i) ELSE StrLessR(a, b, i + 1)
StrLess(a, b) == StrLessR(a, b, 0)
SortStrs(T) == SortSeq(SetToSeq(T), StrLess)
Spaces(n) == FoldLeft(LAMBDA acc, i : acc \o " ", "", Count(n))
PadL(s, n) == Spaces(n - Len(s)) \o s
PadR(s, n) == s \o Spaces(n - Len(s))
IsPrefixStr(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuffixStr(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

----------------------------------------------------------------------------
(* contents *)
TypNames == <<"Set", "Parameter", "Variable", "Equation", "Alias">>
\* an alias is the set it stands for
EffTyp(f, i) == IF f.syms[i].typ = 4 THEN 0 ELSE f.syms[i].typ
SetText(f, t) == LET n == TokInt(t) IN IF n = 0 \/ n >= Len(f.stxt) THEN "" ELSE f.stxt[n + 1]
\* acronyms are known by their names
AcrNames(f, t) == {f.acr[j].name : j \in {j \in 1..Len(f.acr) : f.acr[j].map = AcrOf(t)}}
ValName(f, t) == IF ~IsAcrTok(t) \/ AcrNames(f, t) = {} THEN t ELSE "acronym " \o Up(CHOOSE n \in AcrNames(f, t) : TRUE)
ValsOf(f, typ, v) == IF typ = 0 THEN <<SetText(f, v[1])>> ELSE v
LabelAt(f, k) == IF k \in 1..Len(f.uels) THEN f.uels[k] ELSE "no label " \o ToString(k)
\* records of symbol i with labels: a sequence, in the order stored
RecsOf(f, i) ==
   LET n == RootSym(f, i) IN
   IF n = 0 THEN [j \in 1..Len(f.uels) |-> [r |-> <<j>>, k |-> <<f.uels[j]>>, v |-> <<"">>]]
   ELSE LET s == f.syms[n] IN
        IF s.dim = 0 /\ s.recs = <<>> THEN <<[r |-> <<>>, k |-> <<>>, v |-> ValsOf(f, s.typ, DefRec(s.typ, s.ui))]>>
        ELSE [j \in 1..Len(s.recs) |-> [r |-> s.recs[j].k, k |-> [d \in 1..s.dim |-> LabelAt(f, s.recs[j].k[d])], v |-> ValsOf(f, s.typ, s.recs[j].v)]]
DomNames(f, i) == LET s == f.syms[i] IN
   [d \in 1..s.dim |-> IF s.hx THEN (IF s.dx[d] = 0 THEN "*" ELSE f.dstr[s.dx[d]])
                       ELSE IF s.hd THEN (IF s.ds[d] = 0 THEN "*" ELSE f.syms[s.ds[d]].name) ELSE "*"]
SymNames(f) == {f.syms[i].name : i \in 1..Len(f.syms)}
IdxOf(f, nm) == LET F == {i \in 1..Len(f.syms) : SameText(f.syms[i].name, nm)} IN IF F = {} THEN 0 ELSE CHOOSE i \in F : TRUE
InList(l, nm) == \E i \in 1..Len(l) : SameText(l[i], nm)

\* what matters of a produced file; acr: name acronyms; sub: types of symbols whose subtype matters
CanonSym(f, i, acr, sub) ==
   LET s == f.syms[i]
       R == RecsOf(f, i)
   IN [name |-> s.name, dim |-> s.dim, typ |-> s.typ, ui |-> IF s.typ \in sub THEN s.ui ELSE 0, txt |-> s.txt,
       recs |-> {[k |-> UpAll(R[j].k), v |-> IF s.typ = 0 \/ ~acr THEN R[j].v ELSE [d \in 1..Len(R[j].v) |-> ValName(f, R[j].v[d])]] : j \in 1..Len(R)},
       n |-> Len(R), ok |-> s.derr = 0]
Canon(f, acr, sub) == IF f.k # "ok" THEN {} ELSE {CanonSym(f, i, acr, sub) : i \in 1..Len(f.syms)}
MkSym(name, dim, typ, ui, txt, recs) == [name |-> name, dim |-> dim, typ |-> typ, ui |-> ui, txt |-> txt, recs |-> recs, n |-> Cardinality(recs), ok |-> TRUE]

----------------------------------------------------------------------------
(* small numbers: multiples of 1/64 below 1024, as integers (in units of 1/64); used with tolerances *)
HexVal(c) == (CHOOSE i \in 1..16 : HexDigit[i] = c) - 1
Hex4(t, i) == ((HexVal(Ch(t, i)) * 16 + HexVal(Ch(t, i + 1))) * 16 + HexVal(Ch(t, i + 2))) * 16 + HexVal(Ch(t, i + 3))
Pow2(n) == FoldLeft(LAMBDA a, i : 2 * a, 1, Count(n))
ExpOf(t) == Hex4("0" \o SubSeq(t, 1, 3), 1) % 2048
\* 65536 + the leading 16 bits of the mantissa, times 2^(exponent - 16)
SmallTok(t) == /\ ~IsStoredSV(t) /\ ~IsAcrTok(t)
               /\ \/ t = Zero
                  \/ /\ SubSeq(t, 8, 16) = "000000000" /\ ExpOf(t) \in (1023 - 6)..(1023 + 9)
                     /\ (65536 + Hex4(t, 4)) % Pow2(1023 + 10 - ExpOf(t)) = 0
SmallVal(t) == IF t = Zero THEN 0
               ELSE LET m == (65536 + Hex4(t, 4)) \div Pow2(1023 + 10 - ExpOf(t))
                    IN IF HexVal(Ch(t, 1)) >= 8 THEN -m ELSE m
Abs(n) == IF n < 0 THEN -n ELSE n

\* equality of two stored values under the tolerances (units of 1/64); numbers that are not small differ unless equal
ValEq(f1, a, f2, b, o) ==
   IF IsStoredSV(a) \/ IsStoredSV(b)
   THEN \/ a = b
        \/ o.eps > 0 /\ a = "eps" /\ SmallTok(b) /\ Abs(SmallVal(b)) <= o.eps
        \/ o.eps > 0 /\ b = "eps" /\ SmallTok(a) /\ Abs(SmallVal(a)) <= o.eps
   ELSE IF IsAcrTok(a) /\ IsAcrTok(b) /\ AcrNames(f1, a) # {} /\ AcrNames(f2, b) # {}
   THEN ValName(f1, a) = ValName(f2, b)
   ELSE \/ a = b
        \/ /\ SmallTok(a) /\ SmallTok(b) /\ (o.eps > 0 \/ o.rel > 0)
           /\ LET x == SmallVal(a)
                  y == SmallVal(b)
                  d == Abs(x - y)
              IN \/ d <= o.eps
                 \/ o.rel > 0 /\ d * 64 <= o.rel * (64 + Min2(Abs(x), Abs(y)))

----------------------------------------------------------------------------
(* gdxdiff: options o = [eps, rel, field (0: all, else 1..5), fldonly, diffonly, settext, defaults, domains, matrix, ids, skip,
   hasids, hasskip, f1, f2 (the paths as given), file1, file2 (as found), usage] *)
FieldNames == <<"LEVEL", "MARGINAL", "LOWER", "UPPER", "SCALE">>
FieldText == <<"Level", "Marginal", "Lower", "Upper", "Scale">>
Wanted(o, nm) == (o.hasids => InList(o.ids, nm)) /\ (o.hasskip => ~InList(o.skip, nm))
Fields(o) == IF o.field = 0 THEN 1..5 ELSE {o.field}
VarEq(typ) == typ \in {2, 3}

\* position of a label in the common table of labels
Statics(o) == <<"INS1", "INS2", "DIF1", "DIF2">> \o (IF o.diffonly THEN FieldNames ELSE <<>>)
LabelTab(f1, f2, o) == LET l == Statics(o) \o UpAll(f1.uels) \o UpAll(f2.uels)
                       IN [u \in {l[i] : i \in 1..Len(l)} |-> CHOOSE i \in 1..Len(l) : l[i] = u /\ \A j \in 1..(i - 1) : l[j] # u]

\* comparison of symbol i of file 1 with symbol j of file 2: status and the records of the difference symbol
CompareSym(f1, f2, i, j, o, tab) ==
   LET s1 == f1.syms[i]
       s2 == f2.syms[j]
       typ == EffTyp(f1, i)
       n == s1.dim
       Key(r) == IF o.matrix THEN r.r ELSE [d \in 1..n |-> tab[Up(r.k[d])]]
       Recs(f, m) == LET R == TLCEval(RecsOf(f, m))
                         K == TLCEval([q \in 1..Len(R) |-> Key(R[q])])
                     IN [x \in {K[q] : q \in 1..Len(R)} |-> R[CHOOSE q \in 1..Len(R) : K[q] = x]]
       R1 == TLCEval(Recs(f1, i))
       R2 == TLCEval(Recs(f2, j))
       FieldsDiffer(v, w) == {t \in (IF typ = 1 THEN {1} ELSE Fields(o)) : ~ValEq(f1, v[t], f2, w[t], o)}
       RecEq(v, w) == IF typ = 0 THEN ~o.settext \/ v = w ELSE FieldsDiffer(v, w) = {}
       def == DefRec(typ, s1.ui)
       \* a record of one side only does not count if it holds the default values
       Ignore(v) == /\ typ # 0 /\ ~o.defaults
                    /\ \A t \in (IF typ = 1 THEN {1} ELSE Fields(o)) : ValEq(f1, v[t], f2, def[t], o)
       Ins1 == {k \in DOMAIN R1 \ DOMAIN R2 : ~Ignore(R1[k].v)}
       Ins2 == {k \in DOMAIN R2 \ DOMAIN R1 : ~Ignore(R2[k].v)}
       Dif == {k \in DOMAIN R1 \cap DOMAIN R2 : ~RecEq(R1[k].v, R2[k].v)}
       All == Ins1 \cup Ins2 \cup Dif
       frst == CHOOSE k \in All : \A m \in All : ~LexLess(m, k)
       par == VarEq(typ) /\ o.diffonly
       fld == VarEq(typ) /\ o.fldonly
       toobig == n >= 20 \/ (par /\ n + 2 > 20)
       E(k, R, act, t) == [k |-> (UpAll(R[k].k) \o (IF par THEN <<FieldNames[t]>> ELSE <<>>)) \o <<act>>,
                           v |-> IF par \/ fld THEN <<R[k].v[t]>> ELSE R[k].v]
       Show(K, R, act) == {E(k, R, act, t) : k \in K, t \in (IF par THEN Fields(o) ELSE IF fld THEN {o.field} ELSE {1})}
       recs == Show(Ins1, R1, "INS1") \cup Show(Ins2, R2, "INS2") \cup
               UNION {IF par THEN UNION {{E(k, R1, "DIF1", t), E(k, R2, "DIF2", t)} : t \in FieldsDiffer(R1[k].v, R2[k].v)}
                      ELSE Show({k}, R1, "DIF1") \cup Show({k}, R2, "DIF2") : k \in Dif}
       sym == MkSym(s2.name, IF par THEN n + 2 ELSE n + 1, IF par \/ fld THEN 1 ELSE typ, IF par \/ fld \/ typ = 0 THEN 0 ELSE s1.ui,
                    IF fld THEN "Differences Field = " \o FieldText[o.field] ELSE IF par THEN "Differences Only" ELSE "Differences", recs)
       None(st) == [st |-> st, sym |-> {}]
   IN IF typ # EffTyp(f2, j) THEN None("Types are different")
      ELSE IF n # s2.dim THEN None("Dimensions are different")
      ELSE IF o.domains /\ n > 0 /\ UpAll(DomNames(f1, i)) # UpAll(DomNames(f2, j)) THEN None("Domains are different")
      ELSE IF All = {} THEN None("")
      ELSE IF toobig THEN None("Dim >= maxdim & different")
      ELSE [st |-> IF frst \in Dif THEN "Data are different" ELSE "Keys are different", sym |-> {sym}]

\* what is printed about symbols that cannot be compared
Conflict(f1, f2, i, j) ==
   LET s1 == f1.syms[i] s2 == f2.syms[j]
       t == EffTyp(f1, i) # EffTyp(f2, j)
       d == s1.dim # s2.dim
   IN IF ~t /\ ~d THEN <<>>
      ELSE <<("*** symbol = " \o s2.name) \o " cannot be compared">>
           \o (IF t THEN <<((("Typ1 = " \o TypNames[EffTyp(f1, i) + 1]) \o ", Typ2 = ") \o TypNames[EffTyp(f2, j) + 1])>> ELSE <<>>)
           \o (IF d THEN <<((("Dim1 = " \o ToString(s1.dim)) \o ", Dim2 = ") \o ToString(s2.dim))>> ELSE <<>>)

\* [st: status by name, syms: symbols of the difference file, lines: messages]
DiffFiles(f1, f2, o) ==
   LET tab == IF o.matrix THEN EmptyFun ELSE TLCEval(LabelTab(f1, f2, o))
       C == {i \in 1..Len(f1.syms) : Wanted(o, f1.syms[i].name)}
       Both == {i \in C : IdxOf(f2, f1.syms[i].name) # 0}
       N1 == {j \in 1..Len(f2.syms) : Wanted(o, f2.syms[j].name) /\ IdxOf(f1, f2.syms[j].name) = 0}
       cmp == [i \in Both |-> CompareSym(f1, f2, i, IdxOf(f2, f1.syms[i].name), o, tab)]
       D == {i \in Both : cmp[i].st # ""}
       st == {<<f2.syms[IdxOf(f2, f1.syms[i].name)].name, cmp[i].st>> : i \in D}
             \cup {<<f1.syms[i].name, "Symbol not found in file 2">> : i \in C \ Both}
             \cup {<<f2.syms[j].name, "Symbol not found in file 1">> : j \in N1}
       conf == FoldLeft(LAMBDA acc, nm : acc \o Conflict(f1, f2, IdxOf(f1, nm), IdxOf(f2, nm)), <<>>, SortStrs({f1.syms[i].name : i \in Both}))
   IN [st |-> st, syms |-> UNION {cmp[i].sym : i \in Both}, lines |-> conf]

RECURSIVE FreeName(_, _, _)
FreeName(base, T, n) == LET nm == IF n = 0 THEN base ELSE (base \o "_") \o ToString(n)
                        IN IF \E s \in T : SameText(s.name, nm) THEN FreeName(base, T, n + 1) ELSE nm
FilesCompared(T, o) == MkSym(FreeName("FilesCompared", T, 0), 1, 0, 0, "",
                             {[k |-> <<"FILE1">>, v |-> <<o.file1>>], [k |-> <<"FILE2">>, v |-> <<o.file2>>]})
DiffSummary(st) ==
   IF st = {} THEN <<"No differences found">>
   ELSE LET l == SortStrs({p[1] : p \in st})
            w == FoldLeft(LAMBDA m, nm : Max2(m, Len(nm)), 1, l)
        IN <<"Summary of differences:">> \o
           [i \in 1..Len(l) |-> (PadL(l[i], w) \o "   ") \o (CHOOSE p \in st : p[1] = l[i])[2]]
ListLine(title, on, l) == IF ~on THEN <<>> ELSE <<FoldLeft(LAMBDA a, s : (a \o " ") \o s, title, l)>>

\* symbols without labels, except for the action: what remains when the labels are not specified (matrix files)
NoLabels(T) == {[s EXCEPT !.recs = {[k |-> r.k[Len(r.k)], v |-> r.v] : r \in s.recs}] : s \in T}
ToolDiff(S, a) ==
   LET o == a[3]
       lines == a[6]
       body == SubSeq(lines, 2, Len(lines))            \* the first line identifies the program
       f1 == S.disk[o.file1]
       f2 == S.disk[o.file2]
       kept == [s |-> S, r |-> IF a[9] = (IF a[4] \in DOMAIN S.disk /\ S.disk[a[4]].k # "none" THEN 1 ELSE 0) THEN EmptyFun ELSE [outfile |-> "changed"]]
       Fails(rc) == [s |-> S, r |-> [rc |-> rc] @@ kept.r]
   IN IF o.usage THEN Fails(2)
      ELSE IF f1.k \in {"none", "dir"} THEN Fails(3)
      ELSE IF f1.k # "ok" THEN Fails(4)
      ELSE IF f2.k \in {"none", "dir"} THEN Fails(3)
      ELSE IF f2.k # "ok" THEN Fails(4)
      ELSE LET d == DiffFiles(f1, f2, o)
               want == {FilesCompared(d.syms, o)} \cup d.syms
               f == Decode(a[7], a[8])
               got == Canon(f, FALSE, {2, 3})
               same == IF o.matrix THEN NoLabels(got) = NoLabels(want) ELSE got = want
               exp == (((((<<"File1 : " \o o.file1, "File2 : " \o o.file2>> \o ListLine("ID    :", o.hasids, o.ids))
                      \o ListLine("SkipID:", o.hasskip, o.skip)) \o d.lines) \o DiffSummary(d.st))
                      \o <<"Output: " \o a[4]>>) \o <<"GDXDiff finished">>
               dl == IF same THEN EmptyFun ELSE [outfile |-> <<"expected", want \ got, "found", got \ want>>]
               dr == IF body = exp THEN EmptyFun ELSE [report |-> exp]
           IN [s |-> [S EXCEPT !.disk = Put(@, a[4], f)],
               r |-> [rc |-> IF d.st = {} THEN 0 ELSE 1] @@ dl @@ dr]

----------------------------------------------------------------------------
(* gdxmerge: options o = [files: sequence of [path, id] (in order; wild: the order is what the tool found), ids, excl, strict, wild, bad (patterns
   that match nothing), existed] *)
MergeWanted(o, nm) == (o.ids # <<>> => InList(o.ids, nm)) /\ (o.excl # <<>> => ~InList(o.excl, nm))
\* m = [syms: merged so far, errs: messages]; each symbol of each file in turn
MergeSym(m, f, i, id) ==
   LET s == f.syms[i]
       typ == EffTyp(f, i)
       ui == IF s.typ = 4 THEN 0 ELSE s.ui
       F == {q \in 1..Len(m.syms) : SameText(m.syms[q].name, s.name)}
       R == RecsOf(f, i)
       \* records as a set; acronyms by name
       recs == {[k |-> <<Up(id)>> \o UpAll(R[j].k), v |-> IF typ = 0 THEN R[j].v ELSE [d \in 1..Len(R[j].v) |-> ValName(f, R[j].v[d])]] : j \in 1..Len(R)}
       Err(t) == [m EXCEPT !.errs = Append(@, (("     " \o t) \o ": ") \o s.name)]
   IN IF s.dim >= 20 THEN Err("Dimension too large")
      ELSE IF ~MergeWanted(m.o, s.name) THEN m
      ELSE IF F = {} THEN [m EXCEPT !.syms = Append(@, MkSym(s.name, s.dim + 1, typ, ui, s.txt, recs))]
      ELSE LET q == CHOOSE q \in F : TRUE
               t == m.syms[q]
               m1 == [m EXCEPT !.syms[q].recs = @ \cup recs, !.syms[q].n = @ + Cardinality(recs), !.syms[q].txt = IF @ = "" THEN s.txt ELSE @]
           IN IF s.dim + 1 # t.dim THEN Err("Dimensions do not match")
              ELSE IF typ # t.typ THEN Err("Types do not match")
              ELSE IF typ \in {2, 3} /\ ui # t.ui THEN Err("Var/Equ subtypes do not match")
              ELSE IF t.txt # "" /\ s.txt # "" /\ t.txt # s.txt
                   THEN [m1 EXCEPT !.errs = Append(@, ("     Explanatory text is different: ") \o s.name)]
              ELSE m1
MergeFile(m, f, id) == IF f.k # "ok" THEN m
                       ELSE FoldLeft(LAMBDA q, i : MergeSym(q, f, i, id), [m EXCEPT !.nf = @ + 1], Count(Len(f.syms)))
MergeAll(S, fs, o) == FoldLeft(LAMBDA m, e : MergeFile(m, S.disk[e.path], e.id), [syms |-> <<>>, errs |-> <<>>, nf |-> 0, o |-> o], fs)
RECURSIVE MergeSetName(_, _)
MergeSetName(T, n) == LET nm == "Merged_set_" \o ToString(n) IN IF \E s \in T : SameText(s.name, nm) THEN MergeSetName(T, n + 1) ELSE nm

BagOf(l) == LET T == {l[i] : i \in 1..Len(l)} IN [x \in T |-> Cardinality({i \in 1..Len(l) : l[i] = x})]
Sel(l, P(_)) == SelectSeq(l, P)
ReadOrder(lines, fs) == LET p == "Reading file: "
                            L == SelectSeq(lines, LAMBDA t : IsPrefixStr(p, t))
                            nm(t) == SubSeq(t, Len(p) + 1, Len(t))
                        IN SubSeq([i \in 1..Len(L) |-> fs[CHOOSE q \in 1..Len(fs) : fs[q].path = nm(L[i]) \/ (q = Len(fs) /\ \A z \in 1..Len(fs) : fs[z].path # nm(L[i]))]], 1, Min2(Len(L), Len(fs)))
ToolMerge(S, a) ==
   LET o == a[3]
       lines == a[6]
       \* a file that does not exist is skipped
       there == SelectSeq(o.files, LAMBDA e : S.disk[e.path].k # "none")
       bad == o.bad \/ Len(there) < Len(o.files)
       fs == IF o.wild THEN ReadOrder(lines, there) ELSE there
       m == MergeAll(S, fs, o)
       base == {m.syms[q] : q \in 1..Len(m.syms)}
       ms == MergeSetName(base, 1)
       f == Decode(a[7], a[8])
       got0 == Canon(f, TRUE, {0, 1, 2, 3})
       gms == {s \in got0 : s.name = ms}
       got == got0 \ gms
       \* the list of merged files: their names with time stamps as texts
       listok == /\ Cardinality(gms) = 1
                 /\ LET s == CHOOSE s \in gms : TRUE IN
                    /\ s.dim = 1 /\ s.typ = 0 /\ s.txt = "Merge set" /\ s.n = Len(there)
                    /\ {r.k : r \in s.recs} = {<<Up(there[q].id)>> : q \in 1..Len(there)}
                    /\ \A q \in 1..Len(there) : \E r \in s.recs : r.k = <<Up(there[q].id)>> /\ IsSuffixStr("  " \o ExplText(there[q].path), r.v[1])
       errs == Sel(lines, LAMBDA t : IsPrefixStr("     ", t))
       tail == (IF m.errs = <<>> THEN <<>> ELSE <<"Number of errors reported = " \o ToString(Len(m.errs))>>)
               \o (IF m.nf = 0 THEN <<"No valid input files specified">> ELSE <<("Merge complete, " \o ToString(m.nf)) \o " input files merged">>)
       gtail == Sel(lines, LAMBDA t : \E p \in {"Number of errors", "Merge complete", "No valid input"} : IsPrefixStr(p, t))
       dl == IF got = base /\ listok THEN EmptyFun ELSE [outfile |-> <<"expected", base \ got, "found", got \ base, listok>>]
       dr == IF BagOf(errs) = BagOf(m.errs) /\ gtail = tail THEN EmptyFun ELSE [report |-> <<m.errs, tail>>]
   IN IF o.usage THEN [s |-> S, r |-> [rc |-> 1]]
      ELSE IF o.strict /\ (o.existed \/ bad) THEN [s |-> [S EXCEPT !.disk = Put(@, a[4], UnkFile([k |-> "none"]))], r |-> [rc |-> 1]]
      ELSE [s |-> [S EXCEPT !.disk = Put(@, a[4], f)], r |-> [rc |-> IF o.strict /\ m.nf = 0 THEN 1 ELSE 0] @@ dl @@ (IF o.strict /\ m.nf = 0 THEN EmptyFun ELSE dr)]

=============================================================================
