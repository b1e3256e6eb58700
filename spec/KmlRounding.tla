---------------------------- MODULE KmlRounding ----------------------------
(***************************************************************************)
(* Rounding decimal texts.  The numbers are built digit by digit; on every *)
(* one the rule of KmlLex is checked against what rounding means: the      *)
(* result has p decimals, is nowhere further away than half a unit, a tie  *)
(* goes to the even neighbour, and rounding is symmetric.                  *)
(***************************************************************************)
EXTENDS KmlLex, IOUtils
CONSTANTS MaxInt, MaxFrac, Alphabet      \* digits before and after the point

VARIABLES ipart, fpart
vars == <<ipart, fpart>>

Init == ipart \in Alphabet /\ fpart = ""
Longer(d) == \/ /\ Len(ipart) < MaxInt /\ fpart = "" /\ ipart # "0"
                /\ ipart' = ipart \o d /\ UNCHANGED fpart
             \/ /\ Len(fpart) < MaxFrac /\ fpart' = fpart \o d /\ UNCHANGED ipart
Next == \E d \in Alphabet : Longer(d)

Num == ipart \o "." \o (IF fpart = "" THEN "0" ELSE fpart)

\* All as integers in units of the last digit.
Scaled(t, places) ==
  LET dot == IndexIn(t, 1, {"."})
      fp == IF dot > Len(t) THEN "" ELSE SubSeq(t, dot + 1, Len(t)) IN
  NatOf(SubSeq(t, 1, dot - 1) \o fp \o Rep("0", places - Len(fp)))
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Abs(k) == IF k < 0 THEN -k ELSE k
Places == MaxFrac + 1

Precs == 0..MaxFrac
Decimals(t) == LET dot == IndexIn(t, 1, {"."}) IN IF dot > Len(t) THEN 0 ELSE Len(t) - dot
Close == \A p \in Precs :
  LET r == RoundTo(Num, p) unit == Pow10(Places - p)
      err == Abs(Scaled(r, Places) - Scaled(Num, Places)) IN
  /\ Decimals(r) = p
  /\ 2 * err <= unit
  /\ 2 * err = unit => (Scaled(r, Places) \div unit) % 2 = 0
Symmetric == \A p \in Precs : RoundTo("-" \o Num, p) = "-" \o RoundTo(Num, p)
Stable == \A p \in Precs : RoundTo(RoundTo(Num, p), p) = RoundTo(Num, p)

Emit == "EMIT" \in DOMAIN IOEnv => PrintT("NUM " \o Num)
=============================================================================
