-------------------------- MODULE KmlTracksModel ---------------------------
(***************************************************************************)
(* The elements of a track arrive one by one, in any interleaving: times,  *)
(* positions (of two or three numbers), angles (of three numbers or one),  *)
(* blank and unreadable ones.  The n-th of each belongs to the n-th of the *)
(* others; what does not match is refused (strict) or no item (lenient).   *)
(***************************************************************************)
EXTENDS KmlTracks, Json, IOUtils
CONSTANTS MaxLen, Alphabet

VARIABLES word   \* a string over Alphabet, the document in short
Nth(n) == CASE n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] n = 4 -> "4" [] n = 5 -> "5" [] n = 6 -> "6" [] OTHER -> "7"
Count(wd, S) == Cardinality({i \in 1..Len(wd) : SubSeq(wd, i, i) \in S})
DayOf(n) == "2010-05-0" \o Nth(n)
\* The element of the k-th letter: its value says the how-manieth of its kind it is.
Element(wd, k) ==
  LET ch == SubSeq(wd, k, k)
      pre == SubSeq(wd, 1, k)
      n(S) == Nth(Count(pre, S)) IN
  CASE ch = "W" -> [n |-> "kml:when", x |-> <<>>, t |-> "2010-05-0" \o n({"W"}), c |-> <<>>]
    [] ch = "B" -> [n |-> "kml:when", x |-> <<>>, t |-> " ", c |-> <<>>]
    [] ch = "V" -> [n |-> "kml:when", x |-> <<>>, t |-> "soon", c |-> <<>>]
    [] ch = "C" -> [n |-> "gx:coord", x |-> <<>>, t |-> n({"C", "D"}) \o ".5 2.0 3.0", c |-> <<>>]
    [] ch = "D" -> [n |-> "gx:coord", x |-> <<>>, t |-> n({"C", "D"}) \o ".5 2.0", c |-> <<>>]
    [] ch = "X" -> [n |-> "gx:coord", x |-> <<>>, t |-> "a b c", c |-> <<>>]
    [] ch = "A" -> [n |-> "gx:angles", x |-> <<>>, t |-> n({"A", "H"}) \o ".0 45.0 0.5", c |-> <<>>]
    [] OTHER    -> [n |-> "gx:angles", x |-> <<>>, t |-> n({"A", "H"}) \o ".0", c |-> <<>>]
DocOf(wd) == [n |-> "gx:Track", x |-> <<>>, t |-> "", c |-> TLCEval([k \in 1..Len(wd) |-> Element(wd, k)])]

Numbers == {Nth(n) \o ".5" : n \in 1..7} \cup {Nth(n) \o ".0" : n \in 1..7} \cup {"2.0", "3.0", "45.0", "0.5", "0.0"}
Tab == TLCEval([fl |-> TLCEval([t \in Numbers |-> t]), il |-> <<>>, dx |-> <<>>])

Init == word = ""
Next == Len(word) < MaxLen /\ \E ch \in Alphabet : word' = word \o ch

R(strict) == Read("Track", DocOf(word), "gx", strict, Tab)
Whens == Count(word, {"W"})
Cs == Count(word, {"C", "D"})
As == Count(word, {"A", "H"})
Fits == Whens = Cs /\ As <= Cs
Faulty == Count(word, {"V", "X"}) > 0
\* Refused exactly when something is unreadable or the numbers do not match.
Refusal == R(TRUE).ok <=> ~Faulty /\ (Whens > 0 /\ Cs > 0 => Fits)
Lenient == R(FALSE).ok /\ (ItemsIn(R(FALSE).o) # <<>> <=> Whens > 0 /\ Fits)
\* Each time with its own position and angle.
Together ==
  LET q == ItemsIn(R(FALSE).o) IN
  \A i \in DOMAIN q :
     /\ q[i].w = "D:" \o DayOf(i)
     /\ q[i].c[1] = Nth(i) \o ".5"
     /\ q[i].a[1][1] = (IF i <= As THEN Nth(i) \o ".0" ELSE "0.0")
\* Writing gives one element of each per item, and the same track again.
Again ==
  LET o == R(FALSE).o
      e == Concrete(Write(o, "normal"))
      r == Read("Track", e, "gx", TRUE, Tab) IN
  /\ Len(e.c) = 3 * Len(ItemsIn(o))
  /\ r.ok /\ r.o = o
\* Lists and items are two views of the same thing.
Views == LET o == R(FALSE).o IN TrackOf(o, ItemsIn(o))
Emit == "EMIT" \in DOMAIN IOEnv => PrintT("TRK " \o ToJson(DocOf(word)))
=============================================================================
