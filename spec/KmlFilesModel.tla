--------------------------- MODULE KmlFilesModel ---------------------------
(***************************************************************************)
(* A program that writes, reads and validates files and objects and        *)
(* switches between XML libraries.  `memo' is not state of the system but  *)
(* of the past: which documents were looked at before in which place and   *)
(* how, so that behaviours come back to the same place with another        *)
(* document.                                                               *)
(***************************************************************************)
EXTENDS KmlFiles, Json, IOUtils
CONSTANTS MaxSteps, Depth, FNames, FZips, Checks, Strictness, Vals

VARIABLES disk, lib, memo, path
vars == <<disk, lib, memo, path>>
Objects == {"va", "vb", "ia"}
Now == [files |-> disk, impl |-> lib]
Act(a, f, d, st, va) == [a |-> a, f |-> f, d |-> d, strict |-> st, val |-> va]
Do(act, place) ==
  /\ disk' = FileTurn(Now, act).files /\ lib' = FileTurn(Now, act).impl
  /\ memo' = IF place = "" THEN memo
             ELSE LET m == Append(memo[place], IF place = "objects" THEN <<act.d, act.val>> ELSE <<disk[place], IF act.a = "parse" THEN "" ELSE act.val>>) IN
                  [memo EXCEPT ![place] = IF Len(m) > Depth THEN Tail(m) ELSE m]
  /\ path' = Append(path, act @@ [got |-> FileGets(Now, act)])
  /\ ("EMIT" \in DOMAIN IOEnv => PrintT("BEH " \o ToJson(path')))
Init == disk = FilesAt0 /\ lib = "lxml" /\ path = <<>>
        /\ memo = [p \in FNames \cup FZips \cup {"objects"} |-> <<>>]
Next ==
  /\ Len(path) < MaxSteps
  /\ \/ \E f \in FNames \cup FZips, d \in Objects : Do(Act("write", f, d, FALSE, ""), "")
     \/ \E f \in FNames, d \in {"va", "ib"} : Do(Act("foreign", f, d, FALSE, ""), "")
     \/ \E f \in FNames \cup FZips : disk[f] # "none" /\ Do(Act("remove", f, "", FALSE, ""), "")
     \/ \E f \in FNames, st \in Strictness, va \in Vals : Do(Act("parse", f, "", st, va), f)
     \/ \E z \in FZips : disk[z] # "none" /\ Do(Act("unpack", z, "", FALSE, ""), z)
     \/ \E i \in {"lxml", "stdlib"} : i # lib /\ Do(Act("use", "", i, FALSE, ""), "")
     \/ Checks /\ \/ \E d \in Objects, sc \in {"", "narrow"} : Do(Act("check", "", d, FALSE, sc), "objects")
                  \/ \E f \in FNames, sc \in {"", "narrow"} : disk[f] # "none" /\ Do(Act("checkfile", f, "", FALSE, sc), f)
                  \/ \E a \in {"neither", "both"} : Do(Act(a, "", "va", FALSE, ""), "")
View == <<disk, lib, memo>>

Last == path[Len(path)]
\* A file holds what was written last, under whichever library.
LastWrite(f) == LET I == {i \in DOMAIN path : path[i].a \in {"write", "foreign", "remove"} /\ path[i].f = f} IN
  IF I = {} THEN "none" ELSE LET i == CHOOSE j \in I : \A k \in I : k <= j IN IF path[i].a = "remove" THEN "none" ELSE path[i].d
Latest == \A f \in FNames \cup FZips : disk[f] = LastWrite(f)
\* What is not valid gets in only if nobody asked.
NotIn == path # <<>> /\ Last.a = "parse" /\ lib = "lxml" /\ Last.got \in {"ia", "ib", "ic"} => ~Gate(Last.strict, Last.val)
\* Valid documents are read by everybody.
ReadAll == path # <<>> /\ Last.a = "parse" /\ disk[Last.f] \in Conforming => Last.got = disk[Last.f]
\* Looking changes nothing.
Looks == [][path'[Len(path')].a \in {"parse", "unpack", "check", "checkfile", "neither", "both", "use"} => disk' = disk]_vars
\* One document, one verdict.
OneVerdict == \A i, j \in DOMAIN path :
  path[i].a = "check" /\ path[j].a = "check" /\ path[i].d = path[j].d /\ path[i].val = path[j].val =>
     path[i].got = path[j].got \/ "None" \in {path[i].got, path[j].got}
=============================================================================
