----------------------------- MODULE KmlTracks -----------------------------
(***************************************************************************)
(* Tracks: sequences of items, each a time, a position and perhaps an      *)
(* angle.  An item is [w, c, a] with a = <<>> (none) or <<angle>>.         *)
(***************************************************************************)
EXTENDS KmlGeometry

Item(w, c, a) == [w |-> w, c |-> c, a |-> a]
Zero3 == <<"0.0", "0.0", "0.0">>

\* The lists of a track are views of its items.
ListsOf(items) ==
  IF items = <<>> THEN <<>>
  ELSE LET f == [whens |-> [i \in DOMAIN items |-> items[i].w],
                 coords |-> [i \in DOMAIN items |-> items[i].c]] IN
       IF \A i \in DOMAIN items : items[i].a = <<>> THEN f
       ELSE With(f, "angles", [i \in DOMAIN items |-> IF items[i].a = <<>> THEN Zero3 ELSE items[i].a[1]])

\* Items made from lists: the n-th time with the n-th position and angle.
ItemsOf(ws, cs, gs) ==
  [i \in DOMAIN ws |-> Item(ws[i], cs[i], <<Pad3(IF i <= Len(gs) THEN gs[i] ELSE <<>>)>>)]
ItemsIn(o) ==
  IF Has(o, "whens") THEN ItemsOf(o.f["whens"], o.f["coords"], ListIn(o.f, "angles")) ELSE <<>>

\* A track with these items has these properties (and this geometry).
TrackOf(o, items) == Restrict(o.f, TrackLists) = ListsOf(items)
=============================================================================
