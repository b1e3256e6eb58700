------------------------------ MODULE KmlJudge ------------------------------
(***************************************************************************)
(* For every kind of recorded event the set of complaints about it; the    *)
(* empty set means the specification allows what the library did.          *)
(***************************************************************************)
EXTENDS KmlRefuse

If(b, s) == IF b THEN {} ELSE {s}

\* o was asked for a document (verbosity v, precision p) and produced e.
JudgeWrite(ev) ==
  LET d == Diff(ev.e, Write(ev.o, ev.v), ev.p, ev.tab) IN
  If(d = "", "written document: " \o d)

\* e was read as cls.  ev.r = [ok, o] or [ok, exc].
SameRead(ev, want) ==
  IF want.ok
  THEN IF ev.r.ok THEN If(ev.r.o = want.o, "object read differs")
       ELSE {"refused a readable document: " \o ev.r.exc}
  ELSE IF ev.r.ok THEN {"accepted an invalid document"}
       ELSE If(ev.r.exc = "KMLParseError" \/ ev.r.exc = "KMLSchemaError",
               "undocumented error " \o ev.r.exc)
JudgeRead(ev) == SameRead(ev, Read(ev.cls, ev.e, ev.ns, ev.strict, ev.tab))

\* o was written and read again, giving r.
JudgeTrip(ev) ==
  IF ~Complete(ev.o) THEN {}
  ELSE IF ~ev.r.ok THEN {"own output refused: " \o ev.r.exc}
  ELSE IF ev.v = "normal" THEN If(ev.r.o = ev.o, "round trip changed the object")
  ELSE If(Spelled(ev.r.o) = Spelled(ev.o), "round trip changed the meaning")

\* Two observations that have to be the same value.
JudgeSame(ev) == If(ev.a = ev.b, ev.what \o " differs")

\* Two documents with the same content.
RECURSIVE SameDoc(_, _)
SameDoc(a, b) == /\ a.n = b.n /\ DOMAIN a.x = DOMAIN b.x /\ \A k \in DOMAIN a.x : a.x[k] = b.x[k]
                 /\ (a.t = b.t \/ (Strip(a.t) = "" /\ Strip(b.t) = ""))
                 /\ Len(a.c) = Len(b.c) /\ \A i \in DOMAIN a.c : SameDoc(a.c[i], b.c[i])
JudgeSameDoc(ev) == If(SameDoc(ev.a, ev.b), ev.what \o " say different things")

\* A date text was parsed, and what came out was written: r = [ok, tok, text] or [ok, exc].
JudgeDate(ev) ==
  LET want == ParseDate(ev.t) IN
  IF DateShape(ev.t) = "open" THEN {}
  ELSE IF IsBad(want) THEN If(~ev.r.ok, "invalid date accepted: " \o ev.t)
  ELSE IF ~ev.r.ok THEN {"valid date refused: " \o ev.t}
  ELSE If(ev.r.tok = want[1], "date " \o ev.t \o " read as " \o ev.r.tok)
       \cup If(ParseDate(ev.r.text) = want, "date " \o ev.t \o " written as " \o ev.r.text)

\* A date made from a moment (token of full resolution) with a resolution asked for.
AtResolution(tok, res) ==
  LET t == DateText(tok) IN
  CASE res = "Y" -> "Y:" \o SubSeq(t, 1, 4)
    [] res = "M" -> "M:" \o SubSeq(t, 1, 7)
    [] res = "D" -> "D:" \o SubSeq(t, 1, 10)
    [] OTHER -> tok
JudgeDateMake(ev) ==
  LET want == AtResolution(ev.of, ev.res) IN
  If(ev.tok = want, "date made from " \o ev.of \o " at " \o ev.res \o " is " \o ev.tok)
  \cup If(ParseDate(ev.text) = ParseDate(DateText(want)), "date made from " \o ev.of \o " written as " \o ev.text)

\* A geometry was converted: g with the options opt in namespace ns became o.
JudgeGeoMake(ev) == If(ToKml(ev.g, ev.opt, ev.ns) = ev.o, "KML form of a " \o ev.g.t)
\* An object was asked for its geometry, r = <<geometry>> or <<>>.
JudgeGeoView(ev) == If(GeometryOf(ev.o) = ev.r, "geometry of a " \o ev.o.cls)
\* A geometry went to KML and came back; through a document where that can say it.
JudgeGeoTrip(ev) == If(<<Norm(ev.g)>> = ev.r, "geometry came back different: " \o ev.g.t)
JudgeGeoDoc(ev) == IF Complete(ev.o) THEN JudgeGeoTrip(ev) ELSE {}
\* A call that has to fail, with one of the exceptions in want.
JudgeRefused(ev) ==
  IF ev.ok THEN {"accepted: " \o ev.what}
  ELSE If(\E i \in DOMAIN ev.want : ev.want[i] = ev.exc, ev.what \o " raised " \o ev.exc)

\* A track o has the items ev.items; if made from lists, these are in ev.lists.
JudgeTrack(ev) ==
  If(TrackOf(ev.o, ev.items), "lists of a track do not match its items")
  \cup (IF "lists" \in DOMAIN ev
       THEN If(ItemsOf(ev.lists.w, ev.lists.c, ev.lists.a) = ev.items, "items do not match the lists given")
       ELSE {})
  \cup If(GeometryOf(ev.o) = ev.g, "geometry of a track")
\* An object read from a document: its items are the n-th time with the n-th position and angle.
JudgeTrackRead(ev) ==
  LET want == Read("Track", ev.e, ev.ns, ev.strict, ev.tab) IN
  SameRead(ev, want)
  \cup (IF want.ok /\ ev.r.ok THEN If(ItemsIn(want.o) = ev.items, "items of the track read") ELSE {})

\* A history of operations on objects that refer to each other.
JudgeHeap(ev) == Follow(Start, ev.h, 1, {})

\* A search in o found, in this order, things at the places ev.r; a thing that occurs at
\* several places goes by the first (ev.alias: places and what they go by).
ByName(ev, p) == LET A == {i \in DOMAIN ev.alias : ev.alias[i].at = p} IN
                 IF A = {} THEN p ELSE ev.alias[CHOOSE i \in A : TRUE].as
JudgeFind(ev) ==
  LET hits == TLCEval(Hits(ev.o, ev.types, ev.crit))
      want == TLCEval([i \in DOMAIN hits |-> ByName(ev, hits[i].at)])
      times(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
      all == {want[i] : i \in DOMAIN want} \cup {ev.r[i] : i \in DOMAIN ev.r}
      pos(p) == CHOOSE i \in DOMAIN want : want[i] = p IN
  IF \E x \in all : times(want, x) # times(ev.r, x) THEN {"search found the wrong objects"}
  ELSE IF ev.alias # <<>> THEN {}
  ELSE If(\A i \in DOMAIN ev.r : \A j \in (i + 1)..Len(ev.r) :
             ~IsPre(ev.r[j], ev.r[i]) /\ (SameList(ev.r[i], ev.r[j]) => pos(ev.r[i]) < pos(ev.r[j])),
          "search found the objects in the wrong order")
       \cup If(ev.first = (IF ev.r = <<>> THEN <<>> ELSE <<ev.r[1]>>), "search for one did not give the first")
\* Does an object have these values?
JudgeMatches(ev) == If(ev.r = Matches(ev.o, <<>>, ev.crit), "has_attribute_values of a " \o ev.o.cls)
\* A style was looked up by URL: r = <<place>> or <<>>.
Fragment(u) == SubSeq(u, IndexIn(u, 1, {"#"}) + 1, Len(u))
JudgeStyle(ev) ==
  LET id == Fragment(ev.url)
      hits == IF id = "" THEN <<>> ELSE TLCEval(Hits(ev.o, <<"Style", "StyleMap">>, <<[k |-> "id", kind |-> "tattr", v |-> <<id>>]>>)) IN
  IF hits = <<>> THEN If(ev.r = <<>>, "a style was found for " \o ev.url)
  ELSE IF ev.r = <<>> THEN {"no style was found for " \o ev.url}
  ELSE If(\E i \in DOMAIN hits : hits[i].at = ev.r[1], "the wrong style was found for " \o ev.url)
\* An accessor of an object gave r.
JudgeAccess(ev) ==
  If(ev.r = (IF ev.k \in {"normal", "highlight"} THEN StyleFor(ev.o, ev.k) ELSE Accessed(ev.o, ev.k)),
     ev.k \o " of a " \o ev.o.cls)

\* Two objects were compared: a = b, b = a, a # b; xa, xb are further values they were given.
JudgeEqual(ev) ==
  LET want == TLCEval(Equal(ev.a, ev.b) /\ ev.xa = ev.xb) IN
  If(ev.eq = want, (IF want THEN "equal objects compare unequal: " ELSE "different objects compare equal: ") \o ev.a.cls)
  \cup If(ev.qe = want, "comparison the other way round: " \o ev.a.cls)
  \cup If(ev.ne = ~want, "inequality: " \o ev.a.cls)
\* The representation was evaluated.
\* Some collections take no empty parts when they are made (only afterwards).
RECURSIVE Makeable(_)
Makeable(o) == /\ (o.cls \in {"ExtendedData", "MultiTrack"} => \A k \in PartsIn(o) : Truthy(k))
               /\ \A k \in PartsIn(o) : Makeable(k)
JudgeRepr(ev) ==
  IF ~Makeable(ev.o) THEN {}
  ELSE IF ~ev.r.ok THEN {"representation cannot be evaluated: " \o ev.r.exc}
  ELSE If(Equal(ev.o, ev.r.o), "representation stands for another object")
       \cup If(ev.eq, "representation stands for an unequal object")

\* A history of registrations.
JudgeRegistry(ev) == FollowRegs(Empty5, ev.h, 1)
\* Objects of classes with additional properties.
JudgeExtWrite(ev) ==
  LET d == Diff(ev.e, WriteWith(ev.o, ev.tag, FieldsWith(ev.o.cls, ev.chain, ev.regs), ev.v), -1, ev.tab) IN
  If(d = "", "document with registered properties: " \o d)
JudgeExtRead(ev) ==
  SameRead(ev, Finish(ev.cls, ev.ns, ev.strict, ReadWith(FieldsWith(ev.cls, ev.chain, ev.regs), ev.e, ev.strict, ev.tab)))

\* Namespaces.
JudgeNsRead(ev) == SameRead(ev, ReadNs(ev.how, ev.cls, ev.e, ev.given, ev.ns, ev.strict, ev.tab))
JudgeNsWrite(ev) ==
  LET d == Diff(ev.e, WriteNs(ev.o, ev.v), -1, ev.tab) IN
  If(d = "", "written document: " \o d)
JudgeNsMade(ev) == If(Uniform(ev.o, Full(ev.given), ev.ns), "mapping of an object or of a part it created")

Judge(ev) ==
  CASE ev.op = "write" -> JudgeWrite(ev)
    [] ev.op = "read"  -> JudgeRead(ev)
    [] ev.op = "trip"  -> JudgeTrip(ev)
    [] ev.op = "same"  -> JudgeSame(ev)
    [] ev.op = "samedoc" -> JudgeSameDoc(ev)
    [] ev.op = "date" -> JudgeDate(ev)
    [] ev.op = "datemake" -> JudgeDateMake(ev)
    [] ev.op = "geomake" -> JudgeGeoMake(ev)
    [] ev.op = "geoview" -> JudgeGeoView(ev)
    [] ev.op = "geotrip" -> JudgeGeoTrip(ev)
    [] ev.op = "geodoc" -> JudgeGeoDoc(ev)
    [] ev.op = "refused" -> JudgeRefused(ev)
    [] ev.op = "track" -> JudgeTrack(ev)
    [] ev.op = "trackread" -> JudgeTrackRead(ev)
    [] ev.op = "heap" -> JudgeHeap(ev)
    [] ev.op = "find" -> JudgeFind(ev)
    [] ev.op = "matches" -> JudgeMatches(ev)
    [] ev.op = "style" -> JudgeStyle(ev)
    [] ev.op = "access" -> JudgeAccess(ev)
    [] ev.op = "equal" -> JudgeEqual(ev)
    [] ev.op = "repr" -> JudgeRepr(ev)
    [] ev.op = "registry" -> JudgeRegistry(ev)
    [] ev.op = "extwrite" -> JudgeExtWrite(ev)
    [] ev.op = "extread" -> JudgeExtRead(ev)
    [] ev.op = "nsread" -> JudgeNsRead(ev)
    [] ev.op = "nswrite" -> JudgeNsWrite(ev)
    [] ev.op = "nsmade" -> JudgeNsMade(ev)
    [] ev.op = "nshist" -> FollowNs(StartNs, ev.h, 1)
    [] ev.op = "files" -> FollowFiles([files |-> FilesAt0, impl |-> "lxml"], ev.h, 1)
    [] ev.op = "verdict" -> JudgeVerdict(ev)
    [] ev.op = "gate" -> JudgeGate(ev)
    [] ev.op = "session" -> FollowSession(StartOf(ev.vals), ev.h, 1)
    [] ev.op = "conform" -> JudgeConform(ev)
    [] ev.op = "conform2" -> JudgeConformAgain(ev)
    [] OTHER -> {"unknown event"}
=============================================================================
