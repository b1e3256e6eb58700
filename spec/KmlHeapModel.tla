--------------------------- MODULE KmlHeapModel ----------------------------
(***************************************************************************)
(* Two containers, some members, and a list that belongs to the program.   *)
(* Ghost `added' is the definition of what a container has to hold: what   *)
(* was handed over when it was made or assigned, then what was appended.   *)
(***************************************************************************)
EXTENDS KmlHeap, Json, IOUtils
CONSTANTS Members, MaxLen, MaxList

VARIABLES state, added, path, over
vars == <<state, added, path, over>>
Conts == {"c1", "c2"}
Lit(q) == [from |-> "literal", q |-> q]
FromList == [from |-> "list", n |-> "L"]
FromOther(c) == [from |-> "of", n |-> c, k |-> "items"]
Alive(c) == c \in DOMAIN state.heap
Len2(c) == IF Alive(c) THEN Len(ListOf(state.heap[c], "items")) ELSE 0

New(c, src) == [a |-> "new", o |-> c, cls |-> "C", ns |-> "kml", s |-> <<>>, p |-> <<>>, l |-> [items |-> src]]
Acts ==
  {New(c, Lit(<<>>)) : c \in Conts}
  \cup {New(c, FromList) : c \in Conts}
  \cup {New(c, FromOther(d)) : c \in {x \in Conts : TRUE}, d \in {x \in Conts : Alive(x)}}
  \cup {[a |-> "append", o |-> c, k |-> "items", r |-> m] : c \in {x \in Conts : Alive(x) /\ Len2(x) < MaxLen}, m \in Members}
  \cup {[a |-> "append", o |-> "c1", k |-> "items", r |-> "c2"] :
           x \in {y \in {1} : Alive("c1") /\ Alive("c2") /\ Len2("c1") < MaxLen}}
  \cup {[a |-> "append", o |-> c, k |-> "items", r |-> c] : c \in {x \in Conts : Alive(x)}}
  \cup {[a |-> "pop", o |-> c, k |-> "items"] : c \in {x \in Conts : Len2(x) > 0}}
  \cup {[a |-> "setl", o |-> c, k |-> "items", q |-> FromList] : c \in {x \in Conts : Alive(x)}}
  \cup {[a |-> "lappend", n |-> "L", r |-> m] : m \in {x \in Members : Len(state.lists["L"]) < MaxList}}
  \cup {[a |-> "lclear", n |-> "L"] : x \in {y \in {1} : state.lists["L"] # <<>>}}
  \cup {[a |-> "look", o |-> c, what |-> "all"] : c \in {x \in Conts : Alive(x)}}
  \cup {[a |-> "copy", o |-> "c3", of |-> c] : c \in {x \in Conts : Alive(x)}}
\* c2 is in c1 and cannot come to hold itself; replacing it would leave the old one in c1.
Nested == Alive("c1") /\ \E i \in 1..Len2("c1") : state.heap["c1"].l["items"][i] = "c2"
Wanted(act) ==
  /\ ~(act.a = "new" /\ act.o = "c2" /\ Nested)
  /\ ~(act.a = "new" /\ "items" \in DOMAIN act.l /\ act.l["items"].from = "of"
       /\ (act.l["items"].n = act.o \/ Nested))
  /\ act.a # "copy" \/ ~over

Init == /\ state = [heap |-> TLCEval([m \in Members |-> Thing("M", "kml", <<>>, <<>>, <<>>)]), lists |-> [L |-> <<>>]]
        /\ added = [c \in Conts |-> <<>>] /\ path = <<>> /\ over = FALSE
Ghost(act) ==
  CASE act.a = "new" -> [added EXCEPT ![act.o] = IF act.l["items"].from = "literal" THEN <<>>
                            ELSE IF act.l["items"].from = "list" THEN state.lists["L"] ELSE added[act.l["items"].n]]
    [] act.a = "append" -> IF act.r = act.o THEN added ELSE [added EXCEPT ![act.o] = Append(@, act.r)]
    [] act.a = "pop" -> [added EXCEPT ![act.o] = SubSeq(@, 1, Len(@) - 1)]
    [] act.a = "setl" -> [added EXCEPT ![act.o] = state.lists["L"]]
    [] OTHER -> added
Step(act) == /\ Wanted(act)
             /\ IF act.a = "copy" THEN state' = state ELSE state' = Apply(state, act)
             /\ over' = (act.a = "copy")
             /\ added' = Ghost(act)
             /\ path' = Append(path, act)
             /\ ("EMIT" \in DOMAIN IOEnv => PrintT("BEH " \o ToJson(path')))
Next == ~over /\ \E act \in Acts : Step(act)
View == <<state, added, over>>

\* A container holds exactly what was added to it, in order.
Exact == \A c \in Conts : Alive(c) => ListOf(state.heap[c], "items") = added[c]
\* No operation touches anything but its object or its list.
Framed == [][\A n \in DOMAIN state.heap :
               state'.heap[n] # state.heap[n] =>
                 LET act == path'[Len(path')] IN act.a \in {"new", "append", "pop", "setl"} /\ act.o = n]_vars
ListFramed == [][state'.lists # state.lists => path'[Len(path')].a \in {"lappend", "lclear"}]_vars
=============================================================================
