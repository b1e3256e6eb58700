------------------------------- MODULE KmlLex -------------------------------
(***************************************************************************)
(* Lexical rules of KML as characters: white space, words, dates, decimal  *)
(* rounding.  Strings are TLA+ strings; SubSeq(s, i, i) is the i-th        *)
(* character.  What needs floating point (is this text a number, and which *)
(* one) is not expressible here and comes in as a table, see `fl' below.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
White == {" ", "\t", "\n", "\r"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [d \in Digits |->
   CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
     [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] OTHER -> 9]
DigitOf(n) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[n + 1]

SeqMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SeqMax(S) == CHOOSE x \in S : \A y \in S : x >= y

\* First index at or after i whose character is (not) in S; Len(s) + 1 if none.
RECURSIVE IndexIn(_, _, _), IndexNotIn(_, _, _), LastNotIn(_, _, _)
IndexIn(s, i, S)    == IF i > Len(s) THEN i
                       ELSE IF Ch(s, i) \in S THEN i ELSE IndexIn(s, i + 1, S)
IndexNotIn(s, i, S) == IF i > Len(s) THEN i
                       ELSE IF Ch(s, i) \notin S THEN i ELSE IndexNotIn(s, i + 1, S)
LastNotIn(s, i, S)  == IF i < 1 THEN 0
                       ELSE IF Ch(s, i) \notin S THEN i ELSE LastNotIn(s, i - 1, S)

\* Leading and trailing white space does not belong to a value.
Strip(s) == LET a == IndexNotIn(s, 1, White) IN
            IF a > Len(s) THEN "" ELSE SubSeq(s, a, LastNotIn(s, Len(s), White))

\* The maximal runs of characters that are not in S.
RECURSIVE Words(_, _, _)
Words(s, i, S) ==
  LET a == IndexNotIn(s, i, S) IN
  IF a > Len(s) THEN <<>>
  ELSE LET b == IndexIn(s, a, S) IN <<SubSeq(s, a, b - 1)>> \o Words(s, b, S)

\* The (possibly empty) parts between separator characters.
RECURSIVE Parts(_, _, _)
Parts(s, i, S) ==
  LET b == IndexIn(s, i, S) IN
  IF b > Len(s) THEN <<SubSeq(s, i, Len(s))>>
  ELSE <<SubSeq(s, i, b - 1)>> \o Parts(s, b + 1, S)

RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN ""
                ELSE IF Len(q) = 1 THEN q[1]
                ELSE q[1] \o sep \o Join(Tail(q), sep)

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
LowerCh(c) == LET K == {k \in 1..26 : Ch(Upper, k) = c} IN
              IF K = {} THEN c ELSE Ch(Lowers, CHOOSE k \in K : TRUE)
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))

AllIn(s, S) == \A i \in 1..Len(s) : Ch(s, i) \in S
IsDigits(s) == Len(s) > 0 /\ AllIn(s, Digits)
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0
            ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]

RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN "" ELSE c \o Rep(c, n - 1)

---------------------------------------------------------------------------
(* Results of reading a text: <<>> nothing there, <<v>> a value, Bad.      *)
Nothing == <<>>
Bad == <<"bad", "bad">>
IsBad(r) == Len(r) = 2
IsVal(r) == Len(r) = 1

---------------------------------------------------------------------------
(* Booleans.  Strict reading knows 0, 1, true and false; lenient reading   *)
(* ignores case and takes any number as "is it nonzero".                   *)
(* `fl' maps every text of the document that is a number to the number.    *)
ZeroTokens == {"0.0", "-0.0"}
ParseBool(t, strict, fl) ==
  LET u == IF strict THEN t ELSE Lower(t) IN
  CASE u \in {"1", "true"} -> <<"T">>
    [] u \in {"0", "false"} -> <<"F">>
    [] ~strict /\ t \in DOMAIN fl -> <<IF fl[t] \in ZeroTokens THEN "F" ELSE "T">>
    [] OTHER -> Bad

(* Enumerations.  Strict reading wants the exact spelling, lenient reading *)
(* ignores case.                                                           *)
ParseEnum(t, values, strict) ==
  LET hit == {i \in DOMAIN values : IF strict THEN values[i] = t
                                    ELSE Lower(values[i]) = Lower(t)} IN
  IF hit = {} THEN Bad ELSE <<values[CHOOSE i \in hit : TRUE]>>

ParseNum(t, table) == IF t \in DOMAIN table THEN <<table[t]>> ELSE Bad

---------------------------------------------------------------------------
(* Dates.  A date token is the resolution letter, a colon and the          *)
(* canonical text: Y:2010  M:2010-05  D:2010-05-06  T:2010-05-06T01:02:03+00:00 *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28)
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31

IsYear(s)  == Len(s) = 4 /\ IsDigits(s)
Is2(s)     == Len(s) = 2 /\ IsDigits(s)
ShapeYM(s) == Len(s) = 7 /\ IsYear(SubSeq(s, 1, 4)) /\ Ch(s, 5) = "-" /\ Is2(SubSeq(s, 6, 7))
ShapeYMD(s) == Len(s) = 10 /\ ShapeYM(SubSeq(s, 1, 7)) /\ Ch(s, 8) = "-" /\ Is2(SubSeq(s, 9, 10))
ShapeHMS(s) == Len(s) = 8 /\ Is2(SubSeq(s, 1, 2)) /\ Ch(s, 3) = ":" /\ Is2(SubSeq(s, 4, 5))
               /\ Ch(s, 6) = ":" /\ Is2(SubSeq(s, 7, 8))
ShapeZone(s) == s \in {"", "Z"}
                \/ (Len(s) = 6 /\ Ch(s, 1) \in {"+", "-"} /\ Is2(SubSeq(s, 2, 3))
                    /\ Ch(s, 4) = ":" /\ Is2(SubSeq(s, 5, 6)))
\* fraction and zone of a time
FracEnd(s) == IF s # "" /\ Ch(s, 1) = "." THEN IndexNotIn(s, 2, Digits) - 1 ELSE 0
ShapeTail(s) == LET k == FracEnd(s) IN
                (k = 0 \/ (k >= 2 /\ k <= 7)) /\ ShapeZone(SubSeq(s, k + 1, Len(s)))
ShapeDT(s) == Len(s) >= 19 /\ ShapeYMD(SubSeq(s, 1, 10)) /\ Ch(s, 11) = "T"
              /\ ShapeHMS(SubSeq(s, 12, 19)) /\ ShapeTail(SubSeq(s, 20, Len(s)))

ValidYear(s)  == NatOf(s) >= 1
ValidYM(s)  == ValidYear(SubSeq(s, 1, 4)) /\ NatOf(SubSeq(s, 6, 7)) \in 1..12
ValidYMD(s) == ValidYM(SubSeq(s, 1, 7))
               /\ NatOf(SubSeq(s, 9, 10)) \in 1..MonthDays(NatOf(SubSeq(s, 1, 4)), NatOf(SubSeq(s, 6, 7)))
\* hour 24 exists in ISO 8601 but is left open here
ValidHMS(s) == NatOf(SubSeq(s, 1, 2)) < 24 /\ NatOf(SubSeq(s, 4, 5)) < 60 /\ NatOf(SubSeq(s, 7, 8)) < 60
ValidZone(s) == Len(s) < 6 \/ (NatOf(SubSeq(s, 2, 3)) < 24 /\ NatOf(SubSeq(s, 5, 6)) < 60)

CanonFrac(d) == LET p == d \o Rep("0", 6 - Len(d)) IN IF AllIn(p, {"0"}) THEN "" ELSE "." \o p
CanonZone(z) == IF z \in {"", "Z", "-00:00"} THEN "+00:00" ELSE z
CanonDT(s) == LET t == SubSeq(s, 20, Len(s)) k == FracEnd(t) IN
              SubSeq(s, 1, 19) \o CanonFrac(IF k = 0 THEN "" ELSE SubSeq(t, 2, k))
              \o CanonZone(SubSeq(t, k + 1, Len(t)))

\* Texts the specification says nothing about (other ISO 8601 spellings).
DateShape(s) == CASE IsYear(s) -> "Y" [] ShapeYM(s) -> "M" [] ShapeYMD(s) -> "D"
                  [] ShapeDT(s) -> "T"
                  [] \A i \in 1..Len(s) : Ch(s, i) \notin Digits -> "none"
                  [] OTHER -> "open"
ParseDate(s) ==
  CASE IsYear(s)   -> IF ValidYear(s) THEN <<"Y:" \o s>> ELSE Bad
    [] ShapeYM(s)  -> IF ValidYM(s) THEN <<"M:" \o s>> ELSE Bad
    [] ShapeYMD(s) -> IF ValidYMD(s) THEN <<"D:" \o s>> ELSE Bad
    [] ShapeDT(s)  -> IF /\ ValidYMD(SubSeq(s, 1, 10)) /\ ValidHMS(SubSeq(s, 12, 19))
                         /\ LET t == SubSeq(s, 20, Len(s)) IN ValidZone(SubSeq(t, FracEnd(t) + 1, Len(t)))
                      THEN <<"T:" \o CanonDT(s)>> ELSE Bad
    [] OTHER -> Bad
DateText(token) == SubSeq(token, 3, Len(token))

---------------------------------------------------------------------------
(* Coordinates: tuples separated by white space, numbers by commas; blanks *)
(* after a comma are allowed.                                              *)
RECURSIVE DropBlanksAfterComma(_, _)
DropBlanksAfterComma(s, i) ==
  LET k == IndexIn(s, i, {","}) IN
  IF k >= Len(s) THEN SubSeq(s, i, Len(s))
  ELSE SubSeq(s, i, k) \o DropBlanksAfterComma(s, IndexNotIn(s, k + 1, {" "}))
ParseTuple(w, fl) ==
  LET p == Parts(w, 1, {","}) IN
  IF \E i \in DOMAIN p : p[i] \notin DOMAIN fl THEN Bad
  ELSE <<[i \in DOMAIN p |-> fl[p[i]]]>>
ParseCoords(t, fl) ==
  LET w == Words(DropBlanksAfterComma(Strip(t), 1), 1, White)
      r == TLCEval([i \in DOMAIN w |-> ParseTuple(w[i], fl)]) IN
  IF w = <<>> THEN Nothing
  ELSE IF \E i \in DOMAIN r : IsBad(r[i]) THEN Bad
  ELSE <<[i \in DOMAIN r |-> r[i][1]]>>
\* gx:coord and gx:angles separate numbers by white space
ParseNums(t, fl) ==
  LET w == Words(t, 1, White) IN
  IF \E i \in DOMAIN w : w[i] \notin DOMAIN fl THEN Bad
  ELSE <<[i \in DOMAIN w |-> fl[w[i]]]>>

---------------------------------------------------------------------------
(* Rounding a number, given as its exact decimal expansion, to p decimals: *)
(* to the nearest, ties to the even digit.                                 *)
RECURSIVE Increment(_)
Increment(s) ==       \* a string of digits plus one
  IF s = "" THEN "1"
  ELSE LET d == Ch(s, Len(s)) IN
       IF d = "9" THEN Increment(SubSeq(s, 1, Len(s) - 1)) \o "0"
       ELSE SubSeq(s, 1, Len(s) - 1) \o DigitOf(DigitVal[d] + 1)
RoundTo(x, p) ==
  LET neg  == Ch(x, 1) = "-"
      u    == IF neg THEN SubSeq(x, 2, Len(x)) ELSE x
      dot  == IndexIn(u, 1, {"."})
      ip   == SubSeq(u, 1, dot - 1)
      fp   == (IF dot > Len(u) THEN "" ELSE SubSeq(u, dot + 1, Len(u)))
      padded == IF Len(fp) < p THEN fp \o Rep("0", p - Len(fp)) ELSE fp
      kept == ip \o SubSeq(padded, 1, p)
      rest == SubSeq(padded, p + 1, Len(padded))
      half == rest # "" /\ Ch(rest, 1) = "5" /\ AllIn(SubSeq(rest, 2, Len(rest)), {"0"})
      more == rest # "" /\ DigitVal[Ch(rest, 1)] >= 5 /\ ~half
      up   == more \/ (half /\ DigitVal[Ch(kept, Len(kept))] % 2 = 1)
      n    == IF up THEN Increment(kept) ELSE kept
      body == IF p = 0 THEN n ELSE SubSeq(n, 1, Len(n) - p) \o "." \o SubSeq(n, Len(n) - p + 1, Len(n))
  IN (IF neg THEN "-" ELSE "") \o body
=============================================================================
