------------------------------- MODULE GDXDump -------------------------------
(***************************************************************************)
(* gdxdump: the text written for a file, as a function of its content and  *)
(* the options.  A text is a sequence of pieces; a piece that starts with  *)
(* a form feed stands for any decimal notation of the number that follows  *)
(* it with 15 significant digits.                                          *)
(***************************************************************************)
EXTENDS GDXTools

(* evaluated by overrides/GDXDump.java, for it needs unlimited precision: the lines are the pieces put together, where a number
   piece "\fhex" matches a decimal notation d (with decimal separator sep) with |d - value| <= half a unit of the 15th digit *)
TextIs(lines, pieces, sep) == Assert(FALSE, "TextIs is evaluated by an override")
\* (also an override) the pieces as one string, for messages
Joined(pieces) == FoldLeft(LAMBDA acc, p : acc \o p, "", pieces)

Cat(l) == FoldLeft(LAMBDA acc, p : acc \o p, <<>>, l)
Sep(l, d) == \* sequence of texts with d between them
   IF l = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, p : (acc \o <<d>>) \o p, l[1], Tail(l))
HasCh(s, T) == \E i \in 1..Len(s) : Ch(s, i) \in T
LowerHex == [c \in {HexDigit[i] : i \in 1..16} |-> CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] OTHER -> c]
RECURSIVE Lower(_)
Lower(t) == IF t = "" THEN "" ELSE LowerHex[Ch(t, 1)] \o Lower(SubSeq(t, 2, Len(t)))
RECURSIVE NoTrail0(_)
NoTrail0(t) == IF t = "" THEN "" ELSE IF Ch(t, Len(t)) = "0" THEN NoTrail0(SubSeq(t, 1, Len(t) - 1)) ELSE t
HexBytes(t) == "0x" \o Lower(t)
Hexponential(t) ==
   LET m == NoTrail0(SubSeq(t, 4, 16))
       e == ExpOf(t)
       md == IF m = "" THEN "0" ELSE Lower(m)
       sg == IF HexVal(Ch(t, 1)) >= 8 THEN "-" ELSE ""
   IN sg \o (IF e = 0 THEN (IF m = "" THEN "0x0.0p0" ELSE ("0x0." \o md) \o "p-1022")
             ELSE (("0x1." \o md) \o "p") \o ToString(e - 1023))

QChar(s) == IF HasCh(s, {"'"}) THEN "\"" ELSE "'"
Quoted(s) == (QChar(s) \o s) \o QChar(s)
RECURSIVE Double(_)
Double(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "\"" THEN "\"\"" ELSE Ch(s, 1)) \o Double(SubSeq(s, 2, Len(s)))
QCsv(s, o) == IF o.delim = "\t" THEN s ELSE ("\"" \o (IF HasCh(s, {"\""}) THEN Double(s) ELSE s)) \o "\""
Dots(s) == \E i \in 1..(Len(s) - 1) : SubSeq(s, i, i + 1) = ".."
\* texts are quoted when they contain something special
QText(s, paren) ==
   LET nb == {i \in 1..Len(s) : Ch(s, i) # " "}
       open == paren /\ nb # {} /\ Ch(s, CHOOSE i \in nb : \A j \in nb : i <= j) = "("
   IN " " \o (IF open \/ HasCh(s, {",", ";", "/", "$", "=", "'", "\""}) \/ Dots(s) THEN Quoted(s) ELSE s)
QElemText(s) == " " \o (IF HasCh(s, {" ", ",", ";", "/", "$", "=", "*"}) \/ Dots(s) THEN Quoted(s) ELSE s)

(* options: [file, fmt ("normal"/"gamsbas"/"csv"), dfmt, delim, sep, hdr, data, symb ("": all), uel, list ("", "symbols", "set", "setdi", "domain",
   "text", "version"), cdim, filter, sv (function: texts for special values), hashdr, header, allf, stext, out, usage] *)
SVText == [und |-> "Undf", na |-> "NA", pinf |-> "+Inf", minf |-> "-Inf", eps |-> "Eps"]
Val(f, t, o) ==
   IF IsAcrTok(t) THEN CHOOSE n \in AcrNames(f, t) : TRUE
   ELSE IF IsStoredSV(t) THEN (IF t \in DOMAIN o.sv THEN o.sv[t] ELSE SVText[t])
   ELSE IF IsZeroTok(t) /\ "zero" \in DOMAIN o.sv THEN o.sv["zero"]
   ELSE IF o.dfmt = "hexBytes" THEN HexBytes(t)
   ELSE IF o.dfmt = "hexponential" THEN Hexponential(t)
   ELSE IF IsZeroTok(t) THEN "0"
   ELSE "\f" \o t

FieldAbbr == <<"L", "M", "LO", "UP", "SCALE">>
VarWords == <<"unknown ", "binary  ", "integer ", "positive", "negative", "free    ", "sos1    ", "sos2    ", "semicont", "semiint ">>
TypShort == <<"Set", "Par", "Var", "Equ", "Alias">>
RegDom(f, s) == [d \in 1..s.dim |-> IF s.hd /\ s.ds[d] > 0 THEN f.syms[s.ds[d]].name ELSE "*"]
DomX(f, s) == [d \in 1..s.dim |-> IF s.hx THEN (IF s.dx[d] = 0 THEN "*" ELSE f.dstr[s.dx[d]])
                                  ELSE IF s.hd THEN (IF s.ds[d] = 0 THEN "*" ELSE f.syms[s.ds[d]].name) ELSE "*"]
DomKind(s) == IF s.hx THEN "Relaxed" ELSE IF s.hd THEN "Regular" ELSE "None"
RecCount(s) == IF s.dim = 0 THEN 1 ELSE s.cnt
Tgt(f, s) == IF s.ui = 0 THEN "*" ELSE f.syms[s.ui].name

\* one symbol; lc: items written before; gives [out, lc]
DumpSym(f, n, o, lc) ==
   LET s == f.syms[n]
       bas == o.fmt = "gamsbas"
       alias == s.typ = 4
       scalar == s.dim = 0 /\ s.typ = 1
       varequ == VarEq(s.typ)
       sub == IF s.typ = 0 /\ s.ui = 1 THEN "Singleton "
              ELSE IF s.typ = 2 /\ s.ui # 0 THEN VarWords[s.ui + 1] \o " "
              ELSE IF s.typ = 3 /\ s.ui = 59 THEN "Logic " ELSE ""
       head == <<"\n", IF scalar THEN "Scalar" ELSE sub \o TypNames[s.typ + 1]>>
               \o (IF alias THEN <<" (", s.name, ", ", Tgt(f, s), ");\n">>
                   ELSE (<<" ", s.name>> \o (IF s.dim = 0 THEN <<>> ELSE (<<"(">> \o Sep([d \in 1..s.dim |-> <<RegDom(f, s)[d]>>], ",")) \o <<")">>))
                        \o (IF s.txt = "" THEN <<>> ELSE <<QText(s.txt, s.dim = 0)>>))
       comm == Cat([i \in 1..Len(s.comm) |-> <<"* ", s.comm[i], "\n">>])
       cnt == RecCount(s)
       def == DefRec(s.typ, s.ui)
       R == RecsOf(f, n)
       vals == IF bas THEN (IF s.typ = 3 THEN <<2>> ELSE <<1, 2>>) ELSE IF varequ THEN <<1, 2, 3, 4, 5>> ELSE <<1>>
       Same(v, d) == v = d \/ (IsZeroTok(v) /\ IsZeroTok(d))
       Item(m, r, t) == \* m = [out, first, lc]
          IF ~scalar /\ s.typ # 0 /\ o.filter /\ Same(r.v[t], def[t]) /\ ~(s.typ = 3 /\ t \in {3, 4}) THEN m
          ELSE LET lead == IF m.first THEN <<>> ELSE IF bas THEN <<" ;\n">> ELSE <<", ">> \o (IF ~varequ \/ s.dim # 0 THEN <<"\n">> ELSE <<>>)
                   bl == IF ~bas THEN <<>> ELSE (IF m.lc = 6 THEN <<"$offListing\n">> ELSE <<>>) \o <<" ", s.name, ".", FieldAbbr[t], " ">>
                   key == IF s.dim = 0 THEN <<>>
                          ELSE LET k == Sep([d \in 1..s.dim |-> <<Quoted(r.k[d])>>], o.delim) IN IF bas THEN (<<"(">> \o k) \o <<")">> ELSE k
                   val == IF s.typ = 0 THEN (IF r.v[1] = "" THEN <<>> ELSE <<QElemText(r.v[1])>>)
                          ELSE IF s.typ = 1 THEN <<" ", Val(f, r.v[t], o)>>
                          ELSE (IF bas THEN <<" = ">> ELSE (IF s.dim > 0 THEN <<o.delim>> ELSE <<>>) \o <<FieldAbbr[t], " ">>) \o <<Val(f, r.v[t], o)>>
               IN [out |-> (((m.out \o lead) \o bl) \o key) \o val, first |-> FALSE, lc |-> m.lc + 1]
       items == FoldLeft(LAMBDA m, r : FoldLeft(LAMBDA q, t : Item(q, r, t), m, vals), [out |-> <<>>, first |-> TRUE, lc |-> lc], R)
       Out(h, b) == [out |-> (IF o.hdr THEN head ELSE <<>>) \o b, lc |-> h]
   IN IF s.typ \in {0, 1} /\ bas THEN [out |-> <<>>, lc |-> lc]
      ELSE IF cnt = 0 /\ o.data
      THEN Out(lc, IF o.hdr /\ ~alias THEN <<" / /;\n">> \o comm ELSE <<>>)
      ELSE IF ~o.data
      THEN Out(lc, comm \o (IF alias THEN <<>>
                            ELSE IF cnt = 0 THEN <<" ; !!empty\n", "$loadDC ", s.name, " !!empty\n">> ELSE <<" ;\n", "$loadDC ", s.name, "\n">>))
      ELSE Out(items.lc, (((IF o.hdr THEN <<" /">> \o (IF s.dim > 0 THEN <<"\n">> ELSE <<>>) ELSE <<>>) \o comm) \o items.out)
                         \o (IF bas THEN <<" ;\n">> ELSE IF o.hdr THEN <<" /;\n">> ELSE <<>>))

\* names of the columns of a CSV file: the domains, made unique
ColNames(f, s) ==
   LET D == [d \in 1..s.dim |-> IF DomX(f, s)[d] = "*" THEN "Dim" \o ToString(d) ELSE DomX(f, s)[d]]
       RECURSIVE Free(_, _, _, _)
       Free(l, base, nm, nr) == IF \E i \in 1..Len(l) : l[i] = nm THEN Free(l, base, (base \o "_") \o ToString(nr), nr + 1) ELSE [nm |-> nm, nr |-> nr]
   IN FoldLeft(LAMBDA m, d : LET q == Free(m.l, D[d], D[d], m.nr) IN [l |-> Append(m.l, q.nm), nr |-> q.nr], [l |-> <<>>, nr |-> 1], Count(s.dim)).l
DumpCsv(f, n, o) ==
   LET s == f.syms[n]
       typ == EffTyp(f, n)
       R == TLCEval(RecsOf(f, n))
       d1 == o.delim
       C == ColNames(f, s)
       full == VarEq(typ) /\ o.allf
       Q(t) == QCsv(t, o)
       NL(l) == l \o <<"\n">>
       own == IF o.header = "" THEN <<>> ELSE <<o.header, "\n">>
       \* one row per record
       hdr1 == NL((Sep([d \in 1..s.dim |-> <<Q(C[d])>>], d1)
               \o (IF typ # 0 THEN (IF s.dim = 0 THEN <<Q("Val")>> ELSE <<d1, Q("Val")>>) ELSE IF o.stext THEN <<d1, Q("Text")>> ELSE <<>>))
               \o (IF full THEN <<d1, Q("Marginal"), d1, Q("Lower"), d1, Q("Upper"), d1, Q("Scale")>> ELSE <<>>))
       vals(r) == IF typ = 0 THEN (IF ~o.stext THEN <<>> ELSE IF r.v[1] = "" THEN <<d1>> ELSE <<d1, Q(r.v[1])>>)
                  ELSE (IF s.dim = 0 THEN <<>> ELSE <<d1>>) \o Sep([t \in 1..(IF full THEN 5 ELSE 1) |-> <<Val(f, r.v[t], o)>>], d1)
       row1(r) == NL(Sep([d \in 1..s.dim |-> <<Q(r.k[d])>>], d1) \o vals(r))
       \* one row per combination of the first labels
       lastk == {R[j].r[s.dim] : j \in 1..Len(R)}
       cols == SortSeq(SetToSeq(lastk), LAMBDA a, b : a < b)
       Pre(r) == SubSeq(r.r, 1, s.dim - 1)
       starts == SelectSeq(Count(Len(R)), LAMBDA j : j = 1 \/ Pre(R[j]) # Pre(R[j - 1]))
       cell(j, c) == LET M == {q \in 1..Len(R) : Pre(R[q]) = Pre(R[j]) /\ R[q].r[s.dim] = c}
                     IN IF M = {} THEN <<d1>> ELSE <<d1, IF typ = 0 THEN "Y" ELSE Val(f, R[CHOOSE q \in M : TRUE].v[1], o)>>
       row2(j) == NL(Sep([d \in 1..(s.dim - 1) |-> <<Q(R[j].k[d])>>], d1) \o Cat([q \in 1..Len(cols) |-> cell(j, cols[q])]))
       hdr2 == NL(Cat([d \in 1..(s.dim - 1) |-> <<Q(C[d]), d1>>]) \o Sep([q \in 1..Len(cols) |-> <<Q(LabelAt(f, cols[q]))>>], d1))
       wide == o.cdim /\ s.dim >= 2
   IN (IF o.hashdr THEN own ELSE IF ~o.hdr THEN <<>> ELSE IF wide THEN hdr2 ELSE hdr1)
      \o (IF wide THEN Cat([i \in 1..Len(starts) |-> row2(starts[i])]) ELSE Cat([j \in 1..Len(R) |-> row1(R[j])]))

ByName(f) == [i \in 1..Len(f.syms) |-> IdxOf(f, SortStrs({f.syms[j].name : j \in 1..Len(f.syms)})[i])]
Width(n) == Len(ToString(n))
UelTable(f, o) ==
   LET n == Len(f.uels)
       csv == o.fmt = "csv"
   IN (IF csv THEN <<>> ELSE IF n > 0 THEN <<"Set ", o.uel, " /\n">> ELSE <<"$onEmpty\n", "Set ", o.uel, "(*) / /;\n", "$offEmpty\n">>)
      \o Cat([i \in 1..n |-> <<"  ", Quoted(f.uels[i]), IF csv THEN "\n" ELSE IF i < n THEN " ,\n" ELSE " /;\n">>])
SymbolList(f) ==
   LET l == ByName(f)
       n == Len(l)
       w1 == Width(n)
       w2 == FoldLeft(LAMBDA m, s : Max2(m, Len(s.name)), 6, f.syms)
       w3 == FoldLeft(LAMBDA m, s : Max2(m, Width(RecCount(s))), 7, f.syms)
   IN <<PadL(" ", w1), " ", PadR("Symbol", w2), " Dim Type ", PadR("Records", w3), "  Explanatory text\n">>
      \o Cat([i \in 1..n |-> LET s == f.syms[l[i]] IN
              <<PadL(ToString(i), w1), " ", PadR(s.name, w2), " ", PadL(ToString(s.dim), 3), " ", PadL(TypShort[s.typ + 1], 4), " ",
                PadL(ToString(RecCount(s)), w3), "  ", s.txt, "\n">>])
DomainList(f) ==
   LET l == ByName(f)
       w == Max2(4, Width(Len(l)))
   IN <<PadL("SyNr", w), "  Type  DomInf Symbol\n">>
      \o Cat([i \in 1..Len(l) |-> LET s == f.syms[l[i]] IN
              (<<PadL(ToString(l[i]), w), " ", PadL(TypShort[s.typ + 1], 5), " ", PadL(DomKind(s), 7), " ", s.name>>
              \o (IF s.dim = 0 THEN <<>> ELSE (<<"(">> \o Sep([d \in 1..s.dim |-> <<DomX(f, s)[d]>>], ", ")) \o <<")">>)) \o <<"\n">>])
DomText(f, s) ==
   LET RECURSIVE Go(_, _)
       Go(t, d) == IF d > s.dim THEN t
                   ELSE LET u == (t \o (IF d > 1 THEN ", " ELSE "")) \o DomX(f, s)[d]
                        IN IF Len(u) > 63 THEN "Domain exceeds 63 characters" ELSE Go(u, d + 1)
   IN Go("", 1)
SymbolsAsSet(f, di) ==
   LET n == Len(f.syms)
       Line(i) == LET s == f.syms[i]
                      q == IF HasCh(s.txt, {"\""}) THEN "'" ELSE "\""
                  IN <<"\"", s.name, "\".", ToString(s.dim), ".\"", TypShort[s.typ + 1], "\"">>
                     \o (IF di THEN <<".\"", DomText(f, s), "\"">> ELSE IF s.txt = "" THEN <<>> ELSE <<" ", q, s.txt, q>>)
                     \o <<IF i < n THEN ",\n" ELSE "\n">>
   IN ((IF di THEN <<"alias (Symbol, Dim, Type, Domain, *);\n", "set    gdxitemsDI(Symbol,Dim,Type,Domain)  Items in the GDX file /\n">>
        ELSE <<"alias (Symbol, Dim, Type, *);\n", "set    gdxitems(Symbol,Dim,Type)  Items in the GDX file /\n">>)
       \o Cat([i \in 1..n |-> Line(i)])) \o <<"/;\n">>
SetTextList(f) ==
   LET T == {0} \cup UNION {{TokInt(f.syms[i].recs[j].v[1]) : j \in 1..Len(f.syms[i].recs)} : i \in {i \in 1..Len(f.syms) : f.syms[i].typ = 0}}
       mx == CHOOSE m \in T : \A q \in T : m >= q
   IN <<"Count of set text strings in GDX: ", ToString(Len(f.stxt)), "\n", "max 0-based textIdx found in GDX: ", ToString(mx), "\n", "   idx   text\n">>
      \o Cat([i \in 1..Len(f.stxt) |-> <<PadL(ToString(i - 1), 6), "   \"", f.stxt[i], "\"\n">>])
Version(f) == <<"*  File format    : ", PadL(ToString(f.ver), 4), "\n*  Compression    : ", PadL(ToString(f.compr), 4),
                "\n*  Symbols        : ", PadL(ToString(Len(f.syms)), 4), "\n*  Unique Elements: ", PadL(ToString(Len(f.uels)), 4), "\n">>

Dump(f, o) ==
   LET o1 == [o EXCEPT !.hdr = IF o.fmt = "gamsbas" THEN FALSE ELSE o.symb = "" \/ o.hdr, !.data = o.fmt \in {"gamsbas", "csv"} \/ o.data]
       bas == o.fmt = "gamsbas"
       csv == o.fmt = "csv"
       gin == IF o1.data THEN <<>> ELSE <<"\n$gdxIn ", o.file, "\n">>
       acr == IF csv \/ f.acr = <<>> THEN <<>>
              ELSE <<"\n">> \o Cat([i \in 1..Len(f.acr) |-> <<"Acronym ", f.acr[i].name, IF f.acr[i].txt = "" THEN "" ELSE QText(f.acr[i].txt, TRUE), ";\n">>])
       uel == IF o.uel = "" THEN <<>> ELSE (IF csv THEN <<>> ELSE <<"\n">>) \o UelTable(f, o)
       n == IdxOf(f, o.symb)
       one == DumpSym(f, n, o1, 0)
       all == FoldLeft(LAMBDA m, i : LET q == DumpSym(f, i, o1, m.lc) IN [out |-> m.out \o q.out, lc |-> q.lc], [out |-> <<>>, lc |-> 0], Count(Len(f.syms)))
       ending(lc) == IF bas /\ lc > 6 THEN <<"$onListing\n">> ELSE <<>>
       R(t) == [rc |-> 0, out |-> ((gin \o acr) \o uel) \o t]
   IN IF csv /\ o.uel # "" THEN R(<<>>)
      ELSE IF o.list = "symbols" THEN R(SymbolList(f))
      ELSE IF o.list = "set" THEN R(SymbolsAsSet(f, FALSE))
      ELSE IF o.list = "setdi" THEN R(SymbolsAsSet(f, TRUE))
      ELSE IF o.list = "domain" THEN R(DomainList(f))
      ELSE IF o.list = "text" THEN R(SetTextList(f))
      ELSE IF o.symb # "" /\ n = 0 THEN [R(<<"Symbol not found: ", o.symb, "\n">>) EXCEPT !.rc = 6]
      ELSE IF o.symb # "" /\ csv THEN R(DumpCsv(f, n, o1))
      ELSE IF o.symb # "" THEN R((one.out \o (IF o1.hdr THEN <<>> ELSE <<"\n">>)) \o ending(one.lc))
      ELSE R((((<<"$onEmpty\n">> \o (IF o1.data THEN <<>> ELSE <<"$offEolCom\n", "$eolCom !!\n">>)) \o all.out) \o <<"\n$offEmpty\n">>) \o ending(all.lc))

ToolDump(S, a) ==
   LET o == a[3]
       f == S.disk[o.file]
       lines == IF o.list = "version" THEN SubSeq(a[6], 3, Len(a[6])) ELSE a[6]
       d == IF o.list = "version" THEN [rc |-> 0, out |-> Version(f)] ELSE Dump(f, o)
   IN [s |-> S,
       r |-> IF o.usage THEN [rc |-> 1]
             ELSE IF f.k \in {"none", "dir"} THEN [rc |-> 2]
             ELSE IF f.k # "ok" THEN [rc |-> 4]
             ELSE [rc |-> d.rc] @@ (IF TextIs(lines, d.out, o.sep) THEN EmptyFun ELSE [report |-> Joined(d.out)])]

----------------------------------------------------------------------------
\* a tool leaves its output file behind and nothing else, and does not change any other file
ToolStep(S, a) ==
   LET t == CASE a[1] = "gdxdiff" -> ToolDiff(S, a)
              [] a[1] = "gdxmerge" -> ToolMerge(S, a)
              [] a[1] = "gdxdump" -> ToolDump(S, a)
   IN [t EXCEPT !.r = [left |-> 0, touched |-> 0] @@ @]
ApplyX(S, x, op, a) ==
   CASE op = "Tool" -> ToolStep(S, a)
     [] op = "PutText" -> [s |-> [S EXCEPT !.disk = Put(@, a[1], BadFile)], r |-> [rc |-> 1]]
     [] OTHER -> Apply(S, x, op, a)
=============================================================================
