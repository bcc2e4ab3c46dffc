------------------------------ MODULE GDXBase ------------------------------
(***************************************************************************)
(* Strings, value tokens and small helpers used by the GDX specification.  *)
(* Strings are byte strings: one TLA+ character (U+0000..U+00FF) per byte. *)
(* A double is a token: its 16 hex digits, followed by "@<index>" when the *)
(* double denotes an acronym.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, GDXConst

EmptyFun == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

----------------------------------------------------------------------------
(* strings *)
Ch(s, i) == SubSeq(s, i, i)

RECURSIVE UpR(_, _, _)
UpR(s, i, acc) == IF i > Len(s) THEN acc
                  ELSE LET c == Ch(s, i)
                       IN UpR(s, i + 1, acc \o (IF c \in DOMAIN UpperOf THEN UpperOf[c] ELSE c))
UpDef(s) == UpR(s, 1, "")
Up(s) == UpDef(s)                  \* accelerated by overrides/GDXBase.java, as are RTrim, CanBeQuoted, MakeGoodTxt, IsHexNonFinite, IsAcrTok
SameText(a, b) == Up(a) = Up(b)

\* characters below blank
IsCtrl(c) == c \in CtrlChars
IsBlank(c) == c = " " \/ IsCtrl(c)        \* bytes <= 32 are trimmed at the right end

RECURSIVE RTrimDef(_)
RTrimDef(s) == IF Len(s) = 0 THEN s
               ELSE IF IsBlank(Ch(s, Len(s))) THEN RTrimDef(SubSeq(s, 1, Len(s) - 1)) ELSE s
RTrim(s) == RTrimDef(s)

Chars(s) == {Ch(s, i) : i \in 1..Len(s)}

\* a label can be quoted: no control characters and not both kinds of quotes
CanBeQuotedDef(s) == LET C == Chars(s)
                     IN /\ \A c \in C : ~IsCtrl(c)
                        /\ ~("'" \in C /\ "\"" \in C)
CanBeQuoted(s) == CanBeQuotedDef(s)
GoodUel(s) == Len(s) < 64 /\ CanBeQuoted(s)

GoodIdent(s) == /\ Len(s) \in 1..63
                /\ Ch(s, 1) \in Letters
                /\ \A i \in 2..Len(s) : Ch(s, i) \in Letters \/ Ch(s, i) \in Digits \/ Ch(s, i) = "_"

\* explanatory texts: all quotes become the first quote seen, control characters become '?'
FirstQuote(s) == LET Q == {i \in 1..Len(s) : Ch(s, i) \in {"'", "\""}}
                 IN IF Q = {} THEN "" ELSE Ch(s, CHOOSE i \in Q : \A j \in Q : i <= j)
RECURSIVE GoodTxtR(_, _, _, _)
GoodTxtR(s, i, q, acc) ==
   IF i > Len(s) THEN acc
   ELSE LET c == Ch(s, i)
        IN GoodTxtR(s, i + 1, q,
              acc \o (IF c \in {"'", "\""} THEN q ELSE IF IsCtrl(c) THEN "?" ELSE c))
MakeGoodTxtDef(s) == GoodTxtR(s, 1, FirstQuote(s), "")
MakeGoodTxt(s) == MakeGoodTxtDef(s)
Trunc(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
ExplText(s) == MakeGoodTxt(IF Len(s) < 256 THEN s
                           ELSE "String overflow: " \o SubSeq(s, 1, 235) \o "...")

----------------------------------------------------------------------------
(* values *)
Zero == IntTokens[1]
One  == IntTokens[2]
SVNames == <<"und", "na", "pinf", "minf", "eps">>
IsHexNonFiniteDef(t) == Len(t) = 16 /\ SubSeq(t, 1, 3) \in {"7FF", "FFF"}
IsHexNonFinite(t) == IsHexNonFiniteDef(t)
IsInfTok(t) == IsHexNonFinite(t) /\ SubSeq(t, 4, 16) = "0000000000000"
IsAcrTokDef(t) == Len(t) > 16
IsAcrTok(t) == IsAcrTokDef(t)
AcrOf(t) == LET suf == SubSeq(t, 18, Len(t))
            IN CHOOSE i \in 1..Len(AcrTokens) : ToString(i) = suf
AcrTok(i) == AcrTokens[i]
IntTok(n) == IF n >= 0 THEN IntTokens[n + 1] ELSE NegTokens[-n]
IsIntTok(t) == \E i \in 1..Len(IntTokens) : IntTokens[i] = t
TokInt(t) == (CHOOSE i \in 1..Len(IntTokens) : IntTokens[i] = t) - 1

\* how a value is kept in a file, given the writer's special values sv (und, na, pinf, minf, eps)
StoredOf(sv, t) ==
   LET m == {i \in 1..5 : sv[i] = t}
   IN IF m # {} THEN SVNames[CHOOSE i \in m : \A j \in m : i <= j]
      ELSE IF t = NegZeroTok THEN Zero
      ELSE IF IsInfTok(t) THEN (IF Ch(t, 1) = "7" THEN "pinf" ELSE "minf")
      ELSE IF IsHexNonFinite(t) THEN "na"
      ELSE t
IsStoredSV(t) == t \in {"und", "na", "pinf", "minf", "eps"}
SVIdx(t) == CHOOSE i \in 1..5 : SVNames[i] = t

\* default records of variables / equations (level, marginal, lower, upper, scale)
DefVar(ui) == LET z == Zero IN
   CASE ui = 1 -> <<z, z, z, One, One>>
     [] ui \in {2, 3, 6, 7} -> <<z, z, z, "pinf", One>>
     [] ui = 4 -> <<z, z, "minf", z, One>>
     [] ui = 5 -> <<z, z, "minf", "pinf", One>>
     [] ui \in {8, 9} -> <<z, z, One, "pinf", One>>
     [] OTHER -> <<z, z, z, z, One>>
DefEqu(ui) == LET z == Zero IN
   CASE ui \in {54, 58} -> <<z, z, z, "pinf", One>>
     [] ui = 55 -> <<z, z, "minf", z, One>>
     [] ui = 56 -> <<z, z, "minf", "pinf", One>>
     [] OTHER -> <<z, z, z, z, One>>
DefRec(typ, ui) == CASE typ \in {0, 1, 4} -> <<Zero>> [] typ = 2 -> DefVar(ui) [] OTHER -> DefEqu(ui)
DataSize(typ) == IF typ \in {0, 1} THEN 1 ELSE IF typ \in {2, 3} THEN 5 ELSE 0

----------------------------------------------------------------------------
(* keys *)
RECURSIVE LexLessR(_, _, _)
LexLessR(a, b, i) == IF i > Len(a) THEN FALSE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLessR(a, b, i + 1)
LexLess(a, b) == LexLessR(a, b, 1)
\* first position (1-based) where a and b differ; Len+1 if equal
RECURSIVE FirstDiffR(_, _, _)
FirstDiffR(a, b, i) == IF i > Len(a) THEN i ELSE IF a[i] # b[i] THEN i ELSE FirstDiffR(a, b, i + 1)
FirstDiff(a, b) == FirstDiffR(a, b, 1)

StrictlySorted(recs) == \A i \in 1..(Len(recs) - 1) : LexLess(recs[i].k, recs[i + 1].k)

\* stable sort of records by key
PairLess(a, b) == LexLess(a[1], b[1]) \/ (a[1] = b[1] /\ a[2] < b[2])
SortRecs(buf) ==
   IF \A i \in 1..(Len(buf) - 1) : ~LexLess(buf[i + 1].k, buf[i].k) THEN buf
   ELSE LET q0 == SetToSeq({<<buf[i].k, i>> : i \in 1..Len(buf)})
            q == IF \A i \in 1..(Len(q0) - 1) : PairLess(q0[i], q0[i + 1]) THEN q0
                 ELSE SortSeq(q0, PairLess)
        IN [i \in 1..Len(q) |-> buf[q[i][2]]]
=============================================================================
