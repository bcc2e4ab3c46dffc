------------------------------ MODULE SelfTest ------------------------------
(* the accelerated string operators agree with their TLA+ definitions *)
EXTENDS GDXFormat
AllCh == CtrlChars \cup {" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@",
          "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~", "é", "ÿ", "ß"} \cup Letters \cup Digits
Few == {"a", "Z", " ", "\t", "'", "\"", "é", "7"}
Samples == {""} \cup AllCh \cup {a \o b : a \in AllCh, b \in Few} \cup {a \o b \o c : a \in Few, b \in AllCh, c \in Few}
ASSUME \A s \in Samples : /\ Up(s) = UpDef(s) /\ RTrim(s) = RTrimDef(s) /\ CanBeQuoted(s) = CanBeQuotedDef(s)
                       /\ IsAcrTok(s) = IsAcrTokDef(s) /\ MakeGoodTxt(s) = MakeGoodTxtDef(s)
ASSUME \A s \in Samples : \A t \in {"7FF", "FFF", "7FE", "FF7"} : \A n \in {"123456789ABC", "1234567890ABC", "1234567890ABCD"} :
          Len(s) < 2 => LET z == (t \o n) \o s IN IsHexNonFinite(z) = IsHexNonFiniteDef(z)
ASSUME \A i \in 1..Len(AcrTokens) : IsAcrTok(AcrTokens[i]) /\ AcrOf(AcrTokens[i]) = i
Bytes8 == {"\t" \o s : s \in {"", "a", "ÿÿÿ", "éß", "1234567", "abcdefghÿ"}} \cup {"ÿÿÿÿÿÿÿÿ", "@\tûTD-", "12345678901234567890", ""}
ASSUME \A t \in Bytes8 : \A i \in 0..20 : \A sw \in BOOLEAN :
          ByteAt(t, i) = ByteAtDef(t, i) /\ I32(t, i, sw) = I32Def(t, i, sw) /\ DblHex(t, i, sw) = DblHexDef(t, i, sw)
ASSUME \A i \in 1..256 : ByteAt(ByteChars[i], 0) = i - 1 /\ ByteAtDef(ByteChars[i], 0) = i - 1
ASSUME PrintT(<<"SELFTEST", Cardinality(Samples)>>)
=============================================================================
