------------------------------ MODULE KmlFind ------------------------------
(***************************************************************************)
(* Searching.  A place in an object is the path to it: the properties and, *)
(* in lists, the numbers (as strings) that lead there.                     *)
(***************************************************************************)
EXTENDS KmlHeap

\* Everything in an object, each before its parts, lists in order.
RECURSIVE Nodes(_, _)
Nodes(o, path) ==
  LET fs == FieldsOf(o.cls)
      part(i) == LET a == fs[i].attr IN
         IF ~Has(o, a) THEN <<>>
         ELSE IF fs[i].kind = "xml" THEN Nodes(o.f[a], path \o <<a>>)
         ELSE IF fs[i].kind = "xmls"
              THEN Flat(TLCEval([j \in DOMAIN o.f[a] |-> Nodes(o.f[a][j], path \o <<a, ToString(j)>>)]))
         ELSE <<>> IN
  <<[at |-> path, o |-> o]>> \o Flat(TLCEval([i \in DOMAIN fs |-> part(i)]))

\* Kinds of objects that count as another kind, too.
Also == [LinearRing |-> "LineString", Icon |-> "Link"]
IsKind(cls, t) == cls = t \/ (cls \in DOMAIN Also /\ Also[cls] = t)

FeatureKinds == {"Placemark", "NetworkLink", "PhotoOverlay", "GroundOverlay", "ScreenOverlay", "Folder", "Document"}
Times(o, cls, a) == IF Has(o, "times") /\ o.f["times"].cls = cls /\ Has(o.f["times"], a) THEN <<o.f["times"].f[a]>> ELSE Nothing
\* Accessors that name a value of a part: <<>> none, <<value>>.
Timed == FeatureKinds \cup {"Camera", "LookAt"}
Accessors == [time_stamp |-> Timed, begin |-> Timed, end |-> Timed, icon_href |-> {"IconStyle"}]
Accessed(o, k) ==
  CASE k = "time_stamp" -> Times(o, "TimeStamp", "timestamp")
    [] k = "begin" -> Times(o, "TimeSpan", "begin")
    [] k = "end" -> Times(o, "TimeSpan", "end")
    [] k = "icon_href" -> IF Has(o, "icon") /\ Has(o.f["icon"], "href") THEN <<o.f["icon"].f["href"]>> ELSE Nothing
\* The style of a style map for a state: the path to it.
StyleFor(o, key) ==
  LET q == IF Has(o, "pairs") THEN o.f["pairs"] ELSE <<>>
      I == {i \in DOMAIN q : Has(q[i], "key") /\ q[i].f["key"] = key} IN
  IF I = {} \/ ~Has(q[SeqMin(I)], "style") THEN Nothing ELSE <<"pairs", ToString(SeqMin(I)), "style">>

\* A criterion is [k: property, kind, v: <<value>> or <<>> for none].
Comparable(fk, ck) ==
  \/ fk = ck
  \/ {fk, ck} \subseteq TextKinds
  \/ {fk, ck} \subseteq {"float", "fattr"}
  \/ {fk, ck} \subseteq {"int", "iattr"}
  \/ {fk, ck} \subseteq {"enum", "eattr"}
Meets(o, c) ==
  LET fs == FieldsOf(o.cls)
      I == {i \in DOMAIN fs : fs[i].attr = c.k} IN
  IF I # {}
  THEN IF c.v = <<>> THEN ~Has(o, c.k)
       ELSE LET i == CHOOSE j \in I : TRUE IN
            Has(o, c.k) /\ Comparable(fs[i].kind, c.kind) /\ o.f[c.k] = c.v[1]
  ELSE IF c.k \in DOMAIN Accessors /\ o.cls \in Accessors[c.k]
  THEN Accessed(o, c.k) = c.v
  ELSE FALSE
Matches(o, types, crit) ==
  /\ types = <<>> \/ \E i \in DOMAIN types : IsKind(o.cls, types[i])
  /\ \A i \in DOMAIN crit : Meets(o, crit[i])

\* The places where something matches.
HitsIn(nodes, types, crit) == SelectSeq(nodes, LAMBDA n : Matches(n.o, types, crit))
Hits(o, types, crit) == HitsIn(Nodes(o, <<>>), types, crit)

IsPre(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* Two places in different members of one list.
SameList(p, q) ==
  \E k \in 1..(IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)) :
     /\ SubSeq(p, 1, k - 1) = SubSeq(q, 1, k - 1) /\ p[k] # q[k]
     /\ k > 1 /\ IsDigits(p[k]) /\ IsDigits(q[k])
=============================================================================
