------------------------------ MODULE KmlHeap ------------------------------
(***************************************************************************)
(* Objects as a program sees them: things with identity that refer to each *)
(* other, and the lists a program hands over when it makes them.           *)
(*                                                                         *)
(* A state is [heap, lists].  heap maps the names of the objects to        *)
(*   [cls, ns, s: simple properties, p: parts, l: lists of parts]          *)
(* where parts are names; lists maps names of the program's own lists to   *)
(* sequences of names.  Apply gives the state after an operation, and that *)
(* is all that may have changed.                                           *)
(***************************************************************************)
EXTENDS KmlTracks

Thing(cls, ns, s, p, l) == [cls |-> cls, ns |-> ns, s |-> s, p |-> p, l |-> l]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
ListOf(th, k) == IF k \in DOMAIN th.l THEN th.l[k] ELSE <<>>
PutList(th, k, q) == [th EXCEPT !.l = IF q = <<>> THEN Drop(th.l, k) ELSE Put(th.l, k, q)]

\* The value of an object, with all its parts.
RECURSIVE Expand(_, _)
Expand(heap, o) ==
  LET th == heap[o]
      A == (DOMAIN th.s) \cup (DOMAIN th.p) \cup (DOMAIN th.l) IN
  Obj(th.cls, th.ns, TLCEval([a \in A |->
     IF a \in DOMAIN th.s THEN th.s[a]
     ELSE IF a \in DOMAIN th.p THEN Expand(heap, th.p[a])
     ELSE [i \in DOMAIN th.l[a] |-> Expand(heap, th.l[a][i])]]))

\* Objects for all parts of a value v; they are named after the place where they are.
IsThing(x) == DOMAIN x = {"cls", "ns", "f"}
Num2Str(i) == ToString(i)
ThingOf(v, o) ==
  LET P == {a \in DOMAIN v.f : FieldOf(v.cls, a).kind = "xml"}
      L == {a \in DOMAIN v.f : FieldOf(v.cls, a).kind = "xmls"} IN
  Thing(v.cls, v.ns, TLCEval([a \in (DOMAIN v.f) \ (P \cup L) |-> v.f[a]]),
        TLCEval([a \in P |-> o \o "." \o a]),
        TLCEval([a \in L |-> [i \in DOMAIN v.f[a] |-> o \o "." \o a \o "." \o Num2Str(i)]]))
RECURSIVE Names(_, _), At(_, _, _)
Names(v, o) ==
  {o} \cup UNION {IF FieldOf(v.cls, a).kind = "xml" THEN Names(v.f[a], o \o "." \o a)
                  ELSE IF FieldOf(v.cls, a).kind = "xmls"
                       THEN UNION {Names(v.f[a][i], o \o "." \o a \o "." \o Num2Str(i)) : i \in DOMAIN v.f[a]}
                       ELSE {} : a \in DOMAIN v.f}
\* The part of v (called o) that is called n.
At(v, o, n) ==
  IF n = o THEN v
  ELSE LET Step == {<<v.f[a], o \o "." \o a>> : a \in {b \in DOMAIN v.f : FieldOf(v.cls, b).kind = "xml"}}
                   \cup UNION {{<<v.f[a][i], o \o "." \o a \o "." \o Num2Str(i)>> : i \in DOMAIN v.f[a]} :
                                a \in {b \in DOMAIN v.f : FieldOf(v.cls, b).kind = "xmls"}}
           Below == {x \in Step : n \in Names(x[1], x[2])}
           x == CHOOSE y \in Below : TRUE IN
       At(x[1], x[2], n)
Spread(heap, v, o) ==
  LET N == Names(v, o) IN
  TLCEval([n \in (DOMAIN heap) \cup N |-> IF n \in N THEN ThingOf(At(v, o, n), n) ELSE heap[n]])

---------------------------------------------------------------------------
(* The operations.                                                         *)
\* The parts an operation "new" hands over: of lists as they are at that moment.
Given(st, src) == IF src.from = "list" THEN st.lists[src.n]
                  ELSE IF src.from = "of" THEN ListOf(st.heap[src.n], src.k)
                  ELSE src.q
Apply(st, act) ==
  LET h == st.heap IN
  CASE act.a = "new" ->
         LET l == [k \in DOMAIN act.l |-> Given(st, act.l[k])] IN
         [st EXCEPT !.heap = Put(h, act.o, Thing(act.cls, act.ns, act.s, act.p,
             TLCEval([k \in {x \in DOMAIN l : l[x] # <<>>} |-> l[k]])))]
    [] act.a = "copy" -> [st EXCEPT !.heap = Spread(h, Expand(h, act.of), act.o)]
    [] act.a = "set" ->
         [st EXCEPT !.heap = Put(h, act.o, [h[act.o] EXCEPT !.s = Put(@, act.k, act.v)])]
    [] act.a = "unset" ->
         [st EXCEPT !.heap = Put(h, act.o, [h[act.o] EXCEPT !.s = Drop(@, act.k)])]
    [] act.a = "make" -> [st EXCEPT !.heap = Spread(h, act.v, act.o)]
    [] act.a = "setp" ->
         [st EXCEPT !.heap = Put(h, act.o, [h[act.o] EXCEPT !.p = IF act.r = "" THEN Drop(@, act.k) ELSE Put(@, act.k, act.r)])]
    [] act.a = "setl" -> [st EXCEPT !.heap = Put(h, act.o, PutList(h[act.o], act.k, Given(st, act.q)))]
    [] act.a = "append" ->
         IF act.r = act.o THEN st     \* refused
         ELSE [st EXCEPT !.heap = Put(h, act.o, PutList(h[act.o], act.k, Append(ListOf(h[act.o], act.k), act.r)))]
    [] act.a = "pop" ->
         LET q == ListOf(h[act.o], act.k) IN
         [st EXCEPT !.heap = Put(h, act.o, PutList(h[act.o], act.k, SubSeq(q, 1, Len(q) - 1)))]
    [] act.a = "lnew" -> [st EXCEPT !.lists = Put(@, act.n, <<>>)]
    [] act.a = "lappend" -> [st EXCEPT !.lists = Put(@, act.n, Append(@[act.n], act.r))]
    [] act.a = "lclear" -> [st EXCEPT !.lists = Put(@, act.n, <<>>)]
    [] OTHER -> st                    \* everything else only looks
Refuses(act) == act.a = "append" /\ act.r = act.o
Start == [heap |-> <<>>, lists |-> <<>>]

---------------------------------------------------------------------------
(* A recorded history: acts[i] with ans[i] = [ok, v] (an exception's name  *)
(* or the answer, "" if it has none) and the changes seen after it,        *)
(* [heap: objects that are new or different, lists: likewise].             *)
Overlay(f, g) == TLCEval([x \in (DOMAIN f) \cup (DOMAIN g) |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]])
Seen(st, ch) == [heap |-> Overlay(st.heap, ch.heap), lists |-> Overlay(st.lists, ch.lists)]

\* A copy of something that a document cannot express is not specified: stop there.
Specified(st, act) == act.a = "copy" => Complete(Expand(st.heap, act.of))

\* What is wrong with the steps from i on; memo: the looks taken so far with their answers.
RECURSIVE Follow(_, _, _, _)
Follow(st, h, i, memo) ==
  IF i > Len(h) THEN {}
  ELSE LET act == h[i].act
           want == TLCEval(Apply(st, act))
           got == TLCEval(Seen(st, h[i].ch)) IN
       IF ~Specified(st, act) THEN {}
       ELSE IF Refuses(act) /\ h[i].ok THEN {"step " \o ToString(i) \o ": an object was added to itself"}
       ELSE IF Refuses(act) /\ h[i].ans # "ValueError" THEN {"step " \o ToString(i) \o ": adding to itself raised " \o h[i].ans}
       ELSE IF ~Refuses(act) /\ ~h[i].ok THEN {"step " \o ToString(i) \o ": " \o act.a \o " failed: " \o h[i].ans}
       ELSE IF want # got THEN
            {"step " \o ToString(i) \o ": after " \o act.a \o " the state is wrong in "
             \o ToString({n \in (DOMAIN want.heap) \cup (DOMAIN got.heap) :
                           n \notin DOMAIN want.heap \/ n \notin DOMAIN got.heap \/ want.heap[n] # got.heap[n]})
             \o ToString({n \in DOMAIN got.lists : n \notin DOMAIN want.lists \/ want.lists[n] # got.lists[n]})}
       ELSE IF act.a = "look" /\ \E m \in memo : m.act = act /\ m.st = st /\ m.ans # h[i].ans
            THEN {"step " \o ToString(i) \o ": " \o act.what \o " gave another answer than before"}
       ELSE Follow(want, h, i + 1, IF act.a = "look" THEN memo \cup {[act |-> act, st |-> st, ans |-> h[i].ans]} ELSE memo)
=============================================================================
