------------------------------ MODULE KmlFiles ------------------------------
(***************************************************************************)
(* Files and validation.  Documents are known by name: `va' and `vb'       *)
(* conform to the schema, `ia' does not but can be read, `ib' does not and *)
(* contains an invalid value, without which it is `ic'.  There is another  *)
(* schema, `narrow', that accepts other documents than the standard one.   *)
(***************************************************************************)
EXTENDS KmlNames

Conforming == {"va", "vb"}
ConformsTo(schema) == IF schema = "narrow" THEN {"va", "ia", "ib", "ic"} ELSE Conforming
Sound == {"va", "vb", "ia", "ic"}
Lenient(d) == IF d = "ib" THEN "ic" ELSE d

\* Only lxml can validate.
VerdictOf(valid, impl) == IF impl # "lxml" THEN "None" ELSE IF valid THEN "True" ELSE "AssertionError"
VerdictBy(schema, d, impl) == VerdictOf(d \in ConformsTo(schema), impl)
Verdict(d, impl) == VerdictBy("", d, impl)
\* val: what the caller says about validating ("yes", "no" or nothing, "").
Gate(strict, val) == val = "yes" \/ (val = "" /\ strict)
Parsed(d, strict, val, impl) ==
  CASE d = "none" -> "OSError"
    [] Gate(strict, val) /\ Verdict(d, impl) = "AssertionError" -> "AssertionError"
    [] d # "none" /\ strict /\ d \notin Sound -> "KMLParseError"
    [] strict -> d
    [] OTHER -> Lenient(d)

\* s = [files, impl]; the state after an action and what the caller gets.
FileTurn(s, act) ==
  CASE act.a \in {"write", "foreign"} -> [s EXCEPT !.files[act.f] = act.d]
    [] act.a = "remove" -> [s EXCEPT !.files[act.f] = "none"]
    [] act.a = "use" -> [s EXCEPT !.impl = act.d]
    [] OTHER -> s
FileGets(s, act) ==
  CASE act.a = "parse" -> Parsed(s.files[act.f], act.strict, act.val, s.impl)
    [] act.a = "unpack" -> s.files[act.f]
    [] act.a = "check" -> VerdictBy(act.val, act.d, s.impl)
    [] act.a = "checkfile" -> VerdictBy(act.val, s.files[act.f], s.impl)
    [] act.a \in {"neither", "both"} -> "ValueError"
    [] OTHER -> "ok"

FilesAt0 == [f1 |-> "none", f2 |-> "none", z1 |-> "none"]
\* A recorded history; each step [act fields, got, there: the files that exist].
RECURSIVE FollowFiles(_, _, _)
FollowFiles(s, h, i) ==
  IF i > Len(h) THEN {}
  ELSE LET want == FileGets(s, h[i]) after == TLCEval(FileTurn(s, h[i])) IN
       IF h[i].got # want THEN {"step " \o ToString(i) \o ", " \o h[i].a \o ": " \o h[i].got \o " for " \o want}
       ELSE IF {h[i].there[j] : j \in DOMAIN h[i].there} # {f \in DOMAIN after.files : after.files[f] # "none"}
            THEN {"step " \o ToString(i) \o ", " \o h[i].a \o ": other files in the directory"}
       ELSE FollowFiles(after, h, i + 1)

\* Documents of which only an oracle knows whether they conform.
JudgeVerdict(ev) ==
  IF ev.got = VerdictOf(ev.valid, ev.impl) THEN {} ELSE {ev.got \o " for " \o VerdictOf(ev.valid, ev.impl)}
\* Reading them: refused by the schema first, and else as without validation.
JudgeGate(ev) ==
  LET refused == Gate(ev.strict, ev.val) /\ VerdictOf(ev.valid, ev.impl) = "AssertionError"
      want == IF refused THEN "AssertionError" ELSE ev.plain IN
  IF ev.got = want THEN {} ELSE {ev.got \o " for " \o want}
=============================================================================
