---------------------------- MODULE KmlSchedule ----------------------------
(***************************************************************************)
(* Several operations in progress at the same time.  Each worker does one  *)
(* operation in NSteps steps, in any interleaving with the others.  What a *)
(* worker reads is the object it works on and nothing else; what it makes  *)
(* is its own until it is finished.  Only the owner of an object changes   *)
(* it.  Every complete interleaving is emitted for replay in real threads. *)
(***************************************************************************)
EXTENDS KmlEqual, Json, IOUtils
CONSTANTS NWorkers, NSteps, JobSets

Workers == 1..NWorkers
Readers == {"write", "read", "compare", "find", "repr", "view", "validate"}
VARIABLES job, store, done, made, order
vars == <<job, store, done, made, order>>

K(cls, f) == Obj(cls, "kml", f)
Tab == [fl |-> [x \in {"1.5"} |-> "1.5"], il |-> <<>>, dx |-> <<>>]
Place(n) == K("Placemark", [id |-> n, name |-> n, visibility |-> "F", description |-> "d",
                            kml_geometry |-> K("Point", [kml_coordinates |-> K("Coordinates", [coords |-> <<<<"1.5", "1.5">>>>])])])
\* One object for each worker, and one for all.
Store0 == [i \in 0..NWorkers |-> Place(<<"a", "b", "c", "d">>[i + 1])]

Values(o) == LET fs == FieldsOf(o.cls) IN [i \in DOMAIN fs |-> IF Has(o, fs[i].attr) THEN <<o.f[fs[i].attr]>> ELSE <<>>]
\* All that an operation is about to produce, in the order in which it produces it.
Whole(j, o) ==
  CASE j.k = "write" -> Write(o, "normal").c
    [] j.k = "read" -> Values(Read(o.cls, Concrete(Write(o, "normal")), "kml", TRUE, Tab).o)
    [] j.k = "compare" -> [i \in DOMAIN Values(o) |-> Values(o)[i] = Values(Store0[0])[i]]
    [] j.k = "find" -> <<o, o.f["kml_geometry"]>>
    [] OTHER -> Values(o)
Slice(q, s) == SubSeq(q, ((s - 1) * Len(q)) \div NSteps + 1, (s * Len(q)) \div NSteps)

Jobs == [k : Readers, shared : BOOLEAN] \cup [k : {"change"}, shared : {FALSE}]
Rank == [k \in Readers \cup {"change"} |->
           CASE k = "write" -> 1 [] k = "read" -> 2 [] k = "compare" -> 3 [] k = "find" -> 4
             [] k = "repr" -> 5 [] k = "view" -> 6 [] k = "validate" -> 7 [] OTHER -> 8]
\* Which jobs go together: all pairs, or only the same kind of job in every worker.
Together(js) == IF JobSets = "all" THEN \A v, w \in Workers : v < w => Rank[js[v].k] <= Rank[js[w].k]
                ELSE \A v, w \in Workers : js[v] = js[w]
Init == /\ job \in {js \in [Workers -> Jobs] : Together(js)}
        /\ store = Store0 /\ done = [w \in Workers |-> 0] /\ made = [w \in Workers |-> <<>>] /\ order = <<>>
Where(w) == IF job[w].shared THEN 0 ELSE w
Step(w) ==
  /\ done[w] < NSteps
  /\ done' = [done EXCEPT ![w] = @ + 1]
  /\ IF job[w].k = "change"
     THEN store' = [store EXCEPT ![w].f = With(@, "name", ToString(done[w] + 1))] /\ made' = made
     ELSE store' = store /\ made' = [made EXCEPT ![w] = @ \o Slice(Whole(job[w], store[Where(w)]), done[w] + 1)]
  /\ order' = Append(order, w) /\ job' = job
  /\ (("EMIT" \in DOMAIN IOEnv /\ Len(order') = NWorkers * NSteps)
        => PrintT("BEH " \o ToJson([jobs |-> job, order |-> order'])))
Next == \E w \in Workers : Step(w)

\* Whoever is finished has what it would have alone.
AsAlone == \A w \in Workers : done[w] = NSteps =>
             IF job[w].k = "change" THEN store[w].f = With(Store0[w].f, "name", ToString(NSteps))
             ELSE made[w] = Whole(job[w], Store0[Where(w)])
\* And nobody changes what is not its own.
Owned == /\ store[0] = Store0[0]
         /\ \A w \in Workers : job[w].k # "change" => store[w] = Store0[w]
=============================================================================
