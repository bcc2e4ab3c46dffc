----------------------------- MODULE GDXFormat -----------------------------
(***************************************************************************)
(* The GDX file format: Decode(img, inf) is the content of a file image.   *)
(*                                                                         *)
(* img is a byte string (see GDXBase); inf gives, for each byte position   *)
(* p (from 0) at which a compressed block starts, the inflated text of     *)
(* the block: inflation itself (RFC 1950) is taken as a given function.    *)
(*                                                                         *)
(* The result is [k |-> "ok", ...] or [k |-> "bad"].  All positions below  *)
(* count from 0.                                                           *)
(***************************************************************************)
EXTENDS GDXBase, Json

NewSym(name, dim, typ, ui, txt, hb, cz) ==
   [ name |-> name, dim |-> dim, typ |-> typ, ui |-> ui, txt |-> txt, stx |-> FALSE, cnt |-> 0, nerr |-> 0,
     hd |-> FALSE, ds |-> <<>>, hx |-> FALSE, dx |-> <<>>, comm |-> <<>>, recs |-> <<>>,
     hb |-> hb, bits |-> {}, cz |-> cz, derr |-> 0 ]

BadFile == [k |-> "bad"]

----------------------------------------------------------------------------
(* bytes; reading beyond the end gives 0, callers compare their final position with Len(t) *)
ByteChars == JsonDeserialize("bytes.json")
ByteVal == [c \in {ByteChars[j] : j \in 1..256} |-> (CHOOSE i \in 1..256 : ByteChars[i] = c) - 1]
ByteAtDef(t, i) == IF i < Len(t) THEN ByteVal[Ch(t, i + 1)] ELSE 0
ByteAt(t, i) == ByteAtDef(t, i)             \* accelerated by overrides/GDXFormat.java
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex2(b) == HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1]

\* sw: the other byte order (most significant byte first)
U16(t, i, sw) == LET a == ByteAt(t, i) b == ByteAt(t, i + 1) IN IF sw THEN a * 256 + b ELSE b * 256 + a
I32Def(t, i, sw) ==
   LET b(j) == ByteAt(t, IF sw THEN i + 3 - j ELSE i + j)
       h == b(3)
   IN (IF h >= 128 THEN h - 256 ELSE h) * 16777216 + b(2) * 65536 + b(1) * 256 + b(0)
I32(t, i, sw) == I32Def(t, i, sw)           \* accelerated
\* 64 bit integers: only values that fit 31 bits matter (-1 stands for all others)
I64(t, i, sw) == LET lo == I32(t, IF sw THEN i + 4 ELSE i, sw)
                     hi == I32(t, IF sw THEN i ELSE i + 4, sw)
                 IN IF hi = 0 THEN lo ELSE -1
DblHexDef(t, i, sw) == LET b(j) == Hex2(ByteAt(t, IF sw THEN i + j ELSE i + 7 - j))
                       IN b(0) \o b(1) \o b(2) \o b(3) \o b(4) \o b(5) \o b(6) \o b(7)
DblHex(t, i, sw) == DblHexDef(t, i, sw)     \* accelerated
\* the value a plain double in a record stands for: acronyms carry their number
\* (the writer codes the special values; a plain double that is infinite stands for the special value too)
DblTok(t, i, sw) ==
   LET h == DblHex(t, i, sw)
   IN IF Ch(h, 1) # "7" \/ Ch(h, 2) \notin {"E", "F"} THEN h
      ELSE IF h = "7FF0000000000000" THEN "pinf"
      ELSE LET m == {k \in 1..Len(AcrTokens) : SubSeq(AcrTokens[k], 1, 16) = h}
           IN IF m = {} THEN h ELSE AcrTokens[CHOOSE k \in m : TRUE]
Str(t, i) == LET n == ByteAt(t, i) IN IF n = 0 \/ i + n >= Len(t) THEN "" ELSE SubSeq(t, i + 2, i + 1 + n)
StrEnd(t, i) == i + 1 + ByteAt(t, i)
IsMark(t, i, m) == ByteAt(t, i) = Len(m) /\ Str(t, i) = m

----------------------------------------------------------------------------
(* byte streams: the file from a position on, or the blocks that start there *)
InfAt(inf, p) == LET F == {j \in 1..Len(inf) : inf[j][1] = p} IN IF F = {} THEN "" ELSE inf[CHOOSE j \in F : TRUE][2]
RECURSIVE Blocks(_, _, _, _)
Blocks(img, inf, p, acc) ==
   IF p + 3 > Len(img) THEN acc
   ELSE LET n == ByteAt(img, p + 1) * 256 + ByteAt(img, p + 2)
            x == IF ByteAt(img, p) = 0 THEN SubSeq(img, p + 4, Min2(Len(img), p + 3 + n)) ELSE InfAt(inf, p)
        IN IF x = "" THEN acc ELSE Blocks(img, inf, p + 3 + n, acc \o x)
\* position 0 of the result corresponds to file position p
Stream(img, inf, p, cz) ==
   IF p < 0 \/ p > Len(img) THEN "" ELSE IF cz THEN Blocks(img, inf, p, "") ELSE SubSeq(img, p + 1, Len(img))

Count(n) == [j \in 1..n |-> j]
\* n short strings from position i on
StrStep(t, a) == [l |-> Append(a.l, Str(t, a.i)), i |-> StrEnd(t, a.i)]
Strs(t, i, n) == IF n < 0 \/ n > Len(t) THEN [l |-> <<>>, i |-> Len(t) + 1]
                 ELSE FoldLeft(LAMBDA a, j : StrStep(t, a), [l |-> <<>>, i |-> i], Count(n))
Ints(t, i, n, sw) == [j \in 1..n |-> I32(t, i + 4 * (j - 1), sw)]

----------------------------------------------------------------------------
(* file header: patterns of the three number types, each with its own byte order *)
GoodId(s) == SameText(s, "GAMSGDX")
Header(img) ==
   LET sww == IF U16(img, 1, FALSE) = 4660 THEN 0 ELSE IF U16(img, 1, TRUE) = 4660 THEN 1 ELSE 2
       swi == IF I32(img, 4, FALSE) = 305419896 THEN 0 ELSE IF I32(img, 4, TRUE) = 305419896 THEN 1 ELSE 2
       swd == IF DblHex(img, 9, FALSE) = PiTok THEN 0 ELSE IF DblHex(img, 9, TRUE) = PiTok THEN 1 ELSE 2
       good == /\ Len(img) > 26
               /\ ByteAt(img, 0) = 2 /\ ByteAt(img, 3) = 4 /\ ByteAt(img, 8) = 8
               /\ sww < 2 /\ swi < 2 /\ swd < 2
               /\ ByteAt(img, 17) = 123 /\ GoodId(Str(img, 18))
       i == swi = 1
       ver == I32(img, 26, i)
       p0 == IF ver <= 5 THEN 30 ELSE 34
       p1 == StrEnd(img, p0)
       p2 == StrEnd(img, p1)
       compr == IF ver <= 5 THEN 0 ELSE I32(img, 30, i)
       ix(j) == IF ver <= 5 THEN I32(img, p2 + 4 * j, i) ELSE I64(img, p2 + 4 + 8 * (j - 1), i)
   IN IF ~good \/ ver > 7 THEN BadFile
      ELSE IF p2 + 4 > Len(img) \/ I32(img, p2, i) # 19510624 THEN BadFile
      ELSE [k |-> "ok", sw |-> [w |-> sww = 1, i |-> i, d |-> swd = 1], ver |-> ver, compr |-> compr,
            audit |-> Str(img, p0), prod |-> Str(img, p1),
            symb |-> ix(1), uel |-> ix(2), sett |-> ix(3),
            acro |-> IF ver >= 7 THEN ix(4) ELSE 0, next |-> IF ver = 6 THEN 0 ELSE IF ver <= 5 THEN ix(4) ELSE ix(5),
            doms |-> IF ver >= 7 THEN ix(6) ELSE 0]

----------------------------------------------------------------------------
(* symbol table *)
SymEntry(t, a, h) ==
   LET sw == h.sw.i
       i0 == StrEnd(t, a.i)
       p == IF h.ver <= 5 THEN 4 ELSE 8
       i1 == i0 + p                                        \* dimension
       dim == I32(t, i1, sw)
       i2 == i1 + 4 + 1 + 4 + 4 + 4                         \* flag: has texts
       i3 == i2 + 1                                        \* text
       i4 == StrEnd(t, i3)                                 \* flag: compressed
       i5 == IF h.ver > 5 THEN i4 + 1 ELSE i4              \* flag: domain, comments
       hd == h.ver >= 7 /\ ByteAt(t, i5) # 0
       d0 == IF dim \in 0..20 THEN dim ELSE 0
       i6 == IF hd THEN i5 + 1 + 4 * d0 ELSE i5 + 1
       cm == IF h.ver >= 7 THEN Strs(t, i6 + 4, Max2(0, I32(t, i6, sw))) ELSE [l |-> <<>>, i |-> i5]
       sy == [NewSym(Str(t, a.i), dim, ByteAt(t, i1 + 4), I32(t, i1 + 5, sw), Str(t, i3), FALSE, h.ver > 5 /\ ByteAt(t, i4) # 0)
                EXCEPT !.stx = ByteAt(t, i2) # 0, !.cnt = I32(t, i1 + 9, sw), !.nerr = I32(t, i1 + 13, sw),
                       !.hd = hd, !.ds = IF hd THEN Ints(t, i5 + 1, d0, sw) ELSE <<>>,
                       !.comm = cm.l]
   IN IF a.i >= Len(t) THEN [a EXCEPT !.i = Len(t) + 1]
      ELSE [l |-> Append(a.l, sy), pos |-> Append(a.pos, IF h.ver <= 5 THEN I32(t, i0, sw) ELSE I64(t, i0, sw)), i |-> cm.i]
\* tables: [ok, l, ...]
No == [ok |-> FALSE, l |-> <<>>, pos |-> <<>>]
SymTable(img, inf, h) ==
   LET t == Stream(img, inf, h.symb, h.compr > 0)
       n == I32(t, 7, h.sw.i)
       q == FoldLeft(LAMBDA a, j : SymEntry(t, a, h), [l |-> <<>>, pos |-> <<>>, i |-> 11], Count(n))
   IN IF ~IsMark(t, 0, "_SYMB_") \/ n < 0 \/ n > Len(t) THEN No
      ELSE IF ~IsMark(t, q.i, "_SYMB_") THEN No ELSE [ok |-> TRUE, l |-> q.l, pos |-> q.pos]
\* a table of n strings between two equal marks; del: this many fewer strings than it says
StrTable(img, inf, h, p, mark, del) ==
   LET t == Stream(img, inf, p, h.compr > 0)
       m == Len(mark) + 1
       n == I32(t, m, h.sw.i) - del
       q == Strs(t, m + 4, n)
   IN IF ~IsMark(t, 0, mark) \/ n < 0 \/ n > Len(t) THEN No
      ELSE IF ~IsMark(t, q.i, mark) THEN No ELSE [ok |-> TRUE, l |-> q.l, t |-> t, i |-> q.i + m]
AcrStep(t, a, sw) == LET i1 == StrEnd(t, a.i)
                         i2 == StrEnd(t, i1)
                     IN [l |-> Append(a.l, [name |-> Str(t, a.i), txt |-> Str(t, i1), map |-> I32(t, i2, sw)]), i |-> i2 + 4]
AcrTable(img, inf, h) ==
   LET t == Stream(img, inf, h.acro, h.compr > 0)
       n == I32(t, 7, h.sw.i)
       q == FoldLeft(LAMBDA a, j : AcrStep(t, a, h.sw.i), [l |-> <<>>, i |-> 11], Count(n))
   IN IF h.ver < 7 THEN [ok |-> TRUE, l |-> <<>>]
      ELSE IF ~IsMark(t, 0, "_ACRO_") \/ n < 0 \/ n > Len(t) THEN No
      ELSE IF ~IsMark(t, q.i, "_ACRO_") THEN No ELSE [ok |-> TRUE, l |-> q.l]
\* relaxed domains: names, then (symbol, numbers of its domain names) until a number that is no symbol
RECURSIVE DomLinks(_, _, _, _, _)
DomLinks(t, i, syms, sw, acc) ==
   LET n == I32(t, i, sw) IN
   IF i + 4 > Len(t) THEN No
   ELSE IF n <= 0 THEN IF IsMark(t, i + 4, "_DOMS_") THEN [ok |-> TRUE, l |-> acc] ELSE No
   ELSE IF n > Len(syms) THEN No
   ELSE LET d == syms[n].dim
        IN DomLinks(t, i + 4 + 4 * d, syms, sw, Append(acc, [n |-> n, dx |-> Ints(t, i + 4, d, sw)]))
DomTable(img, inf, h, syms) ==
   IF h.ver < 7 \/ h.doms = 0 THEN [ok |-> TRUE, l |-> <<>>, links |-> <<>>]
   ELSE LET s == StrTable(img, inf, h, h.doms, "_DOMS_", 0)
            q == IF s.ok THEN DomLinks(s.t, s.i, syms, h.sw.i, <<>>) ELSE No
        IN IF ~q.ok THEN No ELSE [ok |-> TRUE, l |-> s.l, links |-> q.l]

----------------------------------------------------------------------------
(* records of a symbol *)
\* how many bytes a key takes, as an offset from the minimum (careful with 32 bit arithmetic)
KeySize(mn, mx) == IF mx < mn \/ (mn < 0 /\ mx > 2147483647 + mn) THEN 4
                   ELSE IF mx - mn < 255 THEN 1 ELSE IF mx - mn < 65535 THEN 2 ELSE 4
SVCode == <<"und", "na", "pinf", "minf", "eps", Zero, One, NegTokens[1], HalfTok, IntTokens[3]>>
ValStep(t, a, sw) ==
   LET b == ByteAt(t, a.i)
   IN IF b = 10 THEN [v |-> Append(a.v, DblTok(t, a.i + 1, sw)), i |-> a.i + 9]
      ELSE [v |-> Append(a.v, IF b < 10 THEN SVCode[b + 1] ELSE Zero), i |-> a.i + 1]
KeyStep(t, a, d, mn, sz, h) ==
   LET z == sz[d]
   IN [k |-> [a.k EXCEPT ![d] = mn[d] + (CASE z = 1 -> ByteAt(t, a.i) [] z = 2 -> U16(t, a.i, h.sw.w) [] OTHER -> I32(t, a.i, h.sw.i))],
       i |-> a.i + z]
\* a = [i, k (previous key), out, st]; st: "run", "end", "bad"
RecStep(t, a, n, ds, mn, sz, h, delta) ==
   IF a.st # "run" THEN a
   ELSE IF a.i >= Len(t) THEN [a EXCEPT !.st = "bad"]
   ELSE LET b == ByteAt(t, a.i) IN
        IF b > delta /\ b = 255 THEN [a EXCEPT !.st = "end"]
        ELSE LET q == IF b > delta
                      THEN [k |-> IF n > 0 THEN [a.k EXCEPT ![n] = @ + b - delta] ELSE a.k, i |-> a.i + 1]
                      ELSE FoldLeft(LAMBDA c, d : KeyStep(t, c, d, mn, sz, h), [k |-> a.k, i |-> a.i + 1],
                                    IF b \in 1..n THEN [j \in 1..(n - b + 1) |-> b + j - 1] ELSE <<>>)
                 w == FoldLeft(LAMBDA c, j : ValStep(t, c, h.sw.d), [v |-> <<>>, i |-> q.i], Count(ds))
             IN [i |-> w.i, k |-> q.k, out |-> Append(a.out, [k |-> q.k, v |-> w.v]), st |-> "run"]
RECURSIVE RecsR(_, _, _, _, _, _, _, _)
RecsR(t, a, n, ds, mn, sz, h, delta) ==
   IF a.st # "run" THEN a
   ELSE RecsR(t, FoldLeft(LAMBDA c, j : RecStep(t, c, n, ds, mn, sz, h, delta), a, Count(200)), n, ds, mn, sz, h, delta)
eBADDATA == -100029
eBADDIMMARK == -100030
\* records of symbol sy at position p: [recs, derr]; derr = 1: the data is incomplete
SymData(img, inf, h, sy, p) ==
   IF sy.typ = 4 THEN [recs |-> <<>>, derr |-> 0]
   ELSE LET t == Stream(img, inf, p, sy.cz)
            n == sy.dim
            mn == [d \in 1..n |-> I32(t, 12 + 8 * (d - 1), h.sw.i)]
            mx == [d \in 1..n |-> I32(t, 16 + 8 * (d - 1), h.sw.i)]
            sz == [d \in 1..n |-> KeySize(mn[d], mx[d])]
            q == RecsR(t, [i |-> 12 + 8 * n, k |-> [d \in 1..n |-> -256], out |-> <<>>, st |-> "run"],
                       n, DataSize(sy.typ), mn, sz, h, IF h.ver <= 6 THEN 10 ELSE n)
        IN IF ~IsMark(t, 0, "_DATA_") THEN [recs |-> <<>>, derr |-> eBADDATA]
           ELSE IF ByteAt(t, 7) # n THEN [recs |-> <<>>, derr |-> eBADDIMMARK]
           ELSE IF n = 0 /\ sy.cnt = 0 THEN [recs |-> <<>>, derr |-> 0]     \* default value
           ELSE IF q.st = "end" THEN [recs |-> q.out, derr |-> 0] ELSE [recs |-> q.out, derr |-> 1]

----------------------------------------------------------------------------
\* tables are loaded when the file is opened, data when it is read
Decode(img, inf) ==
   LET h == Header(img) IN
   IF h.k = "bad" THEN BadFile
   ELSE LET sy == SymTable(img, inf, h) IN
   IF ~sy.ok THEN BadFile
   ELSE LET ue == StrTable(img, inf, h, h.uel, "_UEL_", IF Len(h.audit) >= 19 /\ SubSeq(h.audit, 16, 19) = "2001" THEN 1 ELSE 0) IN
   IF ~ue.ok THEN BadFile
   ELSE LET st == StrTable(img, inf, h, h.sett, "_SETT_", 0) IN
   IF ~st.ok THEN BadFile
   ELSE LET ac == AcrTable(img, inf, h) IN
   IF ~ac.ok THEN BadFile
   ELSE LET dm == DomTable(img, inf, h, sy.l) IN
   IF ~dm.ok THEN BadFile
   ELSE LET Link(i) == {j \in 1..Len(dm.links) : dm.links[j].n = i}
            One1(i) == LET s == sy.l[i]
                           d == SymData(img, inf, h, s, sy.pos[i])
                           L == Link(i)
                       IN [s EXCEPT !.recs = d.recs, !.derr = d.derr, !.hx = L # {},
                                    !.dx = IF L = {} THEN <<>> ELSE dm.links[CHOOSE j \in L : \A m \in L : m <= j].dx]
            UIdx(l) == FoldLeft(LAMBDA acc, i : Put(acc, Up(l[i]), i), EmptyFun, Count(Len(l)))
        IN [k |-> "ok", ver |-> h.ver, compr |-> h.compr, prod |-> h.prod, lib |-> IF Len(h.audit) >= 27 /\ SubSeq(h.audit, 1, 27) = "GDX Library C++ V7 (AUDIT) " THEN "own" ELSE h.audit,
            syms |-> [i \in 1..Len(sy.l) |-> One1(i)],
            uels |-> ue.l, uidx |-> UIdx(ue.l), stxt |-> st.l, acr |-> ac.l, dstr |-> dm.l,
            native |-> ~h.sw.w /\ ~h.sw.i /\ ~h.sw.d]

\* what distinguishes two contents (<<>> if nothing does)
DiffSym(a, b) == {f \in {"name", "dim", "typ", "ui", "txt", "stx", "cnt", "nerr", "hd", "hx", "comm", "recs", "cz", "derr"} : a[f] # b[f]}
                   \cup (IF a.hd /\ b.hd /\ a.ds # b.ds THEN {"ds"} ELSE {})
                   \cup (IF a.hx /\ b.hx /\ a.dx # b.dx THEN {"dx"} ELSE {})
Diff(a, b) ==
   IF a.k = "unk" \/ (a.k = "none" /\ b.k = "bad") THEN <<>>
   ELSE IF a.k # b.k THEN <<"file", a.k, b.k>>
   ELSE IF a.k # "ok" THEN <<>>
   ELSE LET F == {f \in {"ver", "compr", "prod", "lib", "uels", "stxt", "acr", "dstr"} : a[f] # b[f]}
            G == {i \in 1..Min2(Len(a.syms), Len(b.syms)) : DiffSym(a.syms[i], b.syms[i]) # {}}
        IN IF F # {} THEN <<"file", F, [f \in F |-> a[f]], [f \in F |-> b[f]]>>
           ELSE IF Len(a.syms) # Len(b.syms) THEN <<"number of symbols", Len(a.syms), Len(b.syms)>>
           ELSE IF G # {} THEN LET i == CHOOSE i \in G : TRUE
                                   D == DiffSym(a.syms[i], b.syms[i])
                               IN <<"symbol", i, [f \in D |-> a.syms[i][f]], [f \in D |-> b.syms[i][f]]>>
           ELSE <<>>
=============================================================================
