--------------------------- MODULE KmlNamesModel ---------------------------
(***************************************************************************)
(* A program with two mappings of its own and two objects: objects are     *)
(* made, read from texts and files in several namespaces and given other   *)
(* mappings; mappings are changed after use.                               *)
(***************************************************************************)
EXTENDS KmlNames, Json, IOUtils
CONSTANTS MaxSteps, Uris

VARIABLES dicts, things, path
vars == <<dicts, things, path>>
Now == [dicts |-> dicts, things |-> things]
Do(act) == /\ dicts' = NsTurn(Now, act).dicts /\ things' = NsTurn(Now, act).things
           /\ path' = Append(path, act)
           /\ ("EMIT" \in DOMAIN IOEnv => PrintT("BEH " \o ToJson(path')))
Act(a, o, d, u) == [a |-> a, o |-> o, d |-> d, u |-> u]
Init == dicts = [d \in Dicts |-> Std] /\ things = [o \in Things |-> NoHolder] /\ path = <<>>
Next == /\ Len(path) < MaxSteps
        /\ \/ \E o \in Things, d \in Dicts : Do(Act("make", o, d, "")) \/ \E u \in Uris : Do(Act("text", o, d, u))
           \/ \E o \in Things : Do(Act("plain", o, "", "")) \/ \E u \in Uris : Do(Act("file", o, "", u))
           \/ \E d \in Dicts, u \in Uris : dicts[d] # u /\ Do(Act("change", "", d, u))
           \/ \E o \in Things, u \in Uris : things[o] # NoHolder /\ things[o].own # u /\ Do(Act("own", o, "", u))
View == <<dicts, things>>

\* An object stays in the namespace it was made in, whatever happens to others.
Stays == [][\A o \in Things : things'[o] # things[o] => path'[Len(path')].o = o]_vars
Kept  == [][\A o \in Things : path'[Len(path')].a \in {"change", "own"} =>
              things'[o].ns = things[o].ns /\ things'[o].parts = things[o].parts]_vars
Mine  == [][\A d \in Dicts : dicts'[d] # dicts[d] => path'[Len(path')].a = "change" /\ path'[Len(path')].d = d]_vars

\* The codec agrees with all this: a small document in each namespace, read with each mapping.
TinyNode(u, l, t, c) == [u |-> u, l |-> l, x |-> <<>>, t |-> t, c |-> c]
TinyDoc(u) == TinyNode(u, "Folder", "", <<
   TinyNode(u, "name", "a", <<>>), TinyNode(StdMap["atom"], "author", "", <<TinyNode(StdMap["atom"], "name", "b", <<>>)>>),
   TinyNode(u, "Placemark", "", <<TinyNode(u, "Point", "",
      <<TinyNode(StdMap["gx"], "altitudeMode", "clampToSeaFloor", <<>>), TinyNode(u, "coordinates", "1,2", <<>>)>>),
      TinyNode(u, "TimeStamp", "", <<TinyNode(u, "when", "2000", <<>>)>>)>>)>>)
TinyTab == [fl |-> [x \in {"1", "2"} |-> x \o ".0"], il |-> <<>>]
RECURSIVE UrisOf(_)
UrisOf(w) == {w.n} \cup UNION {UrisOf(w.c[i]) : i \in DOMAIN w.c}
NamesIn(u) == {u \o ":" \o l : l \in {"Folder", "name", "Placemark", "Point", "coordinates", "TimeStamp", "when"}}
              \cup {StdMap["atom"] \o ":author", StdMap["atom"] \o ":name", StdMap["gx"] \o ":altitudeMode"}
ReadTiny(u, k) == ReadNs("text", "Folder", TinyDoc(u), [kml |-> k], "*", TRUE, TinyTab)
Agrees == path = <<>> => \A u, k \in Uris :
   LET r == TLCEval(ReadTiny(u, k)) IN
   /\ r.ok /\ Uniform(r.o, Full([kml |-> k]), "*")
   /\ (u = k => UrisOf(Write(r.o, "normal")) = NamesIn(u))
   /\ (u # k => {a : a \in DOMAIN r.o.f} \subseteq {"atom_author"})
=============================================================================
