---------------------------- MODULE KmlFindModel ----------------------------
(***************************************************************************)
(* Documents growing: features get siblings, styles, times and parents.    *)
(* On each of them searches are asked for by type and by values.           *)
(***************************************************************************)
EXTENDS KmlFind, Json, IOUtils
CONSTANTS MaxSteps

VARIABLES tree, steps
vars == <<tree, steps>>

K(cls, f) == Obj(cls, "kml", f)
Leaves1 == {K("Placemark", [id |-> "a"]), K("Placemark", [name |-> "n"]),
            K("NetworkLink", [id |-> "b", link |-> K("Link", [href |-> "h"])])}
Url(u) == K("StyleUrl", [url |-> u])
Styles1 == {K("Style", [id |-> "a", styles |-> <<K("LineStyle", [id |-> "b", color |-> "n"]), K("PolyStyle", [color |-> "n"])>>]),
            K("StyleMap", [id |-> "b", pairs |-> <<K("Pair", [key |-> "normal", style |-> K("Style", [id |-> "a"])]),
                                                   K("Pair", [key |-> "highlight", style |-> Url("#a")]),
                                                   K("Pair", [key |-> "normal", style |-> Url("#b")])>>])}
Parts1 == {<<"times", K("TimeStamp", [timestamp |-> "Y:2001"])>>, <<"times", K("TimeSpan", [begin |-> "Y:2001"])>>,
           <<"style_url", Url("#a")>>, <<"name", "n">>, <<"id", "a">>}
Inner(o, a, x) == [o EXCEPT !.f = With(@, a, (IF a \in DOMAIN o.f THEN o.f[a] ELSE <<>>) \o <<x>>)]

Init == steps = 0 /\ tree \in Leaves1
Wrap == \E cls \in {"Document", "Folder"} : tree.cls \in FeatureKinds /\ tree' = K(cls, [features |-> <<tree>>])
AddSibling == tree.cls \in {"Document", "Folder"} /\ \E x \in Leaves1 : tree' = Inner(tree, "features", x)
AddStyle == \E x \in Styles1 : tree' = Inner(tree, "styles", x)
AddPart == \E x \in Parts1 : tree' = [tree EXCEPT !.f = With(@, x[1], x[2])]
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ (Wrap \/ AddSibling \/ AddStyle \/ AddPart)
View == tree

C(k, kind, v) == [k |-> k, kind |-> kind, v |-> v]
TypeSets == {<<>>, <<"Placemark">>, <<"Style", "StyleMap">>, <<"Folder">>, <<"Link">>, <<"LineStyle", "Pair">>}
Crits == {C("id", "tattr", <<"a">>), C("name", "text", <<"n">>), C("color", "text", <<"n">>), C("id", "tattr", <<>>),
          C("time_stamp", "date", <<"Y:2001">>), C("begin", "date", <<"Y:2001">>), C("key", "enum", <<"normal">>)}
Paths(q) == {q[i].at : i \in DOMAIN q}
RECURSIVE Sub(_, _)
Sub(o, p) == IF p = <<>> THEN o
             ELSE IF FieldOf(o.cls, p[1]).kind = "xml" THEN Sub(o.f[p[1]], Tail(p))
             ELSE Sub(o.f[p[1]][NatOf(p[2])], Tail(Tail(p)))
All == Nodes(tree, <<>>)
\* No place twice, every place the part it leads to, parents first.
Walk == LET A == TLCEval(All) IN
        /\ Cardinality(Paths(A)) = Len(A)
        /\ \A i \in DOMAIN A : Sub(tree, A[i].at) = A[i].o
        /\ \A i, j \in DOMAIN A : IsPre(A[i].at, A[j].at) => i < j
\* Criteria and types only ever narrow a search, and combine.
Narrow == LET A == TLCEval(All)
              byC == TLCEval([c \in Crits |-> Paths(HitsIn(A, <<>>, <<c>>))])
              byT == TLCEval([t \in TypeSets |-> Paths(HitsIn(A, t, <<>>))]) IN
          \A t \in TypeSets : \A c \in Crits : \A d \in {C("id", "tattr", <<"a">>), C("name", "text", <<"n">>)} :
             Paths(HitsIn(A, t, <<c, d>>)) = byC[c] \cap byC[d] \cap byT[t]
\* A search in a container is a search in it and in each of its parts.
Split == tree.cls \in {"Document", "Folder"} => \A c \in Crits :
   Len(Hits(tree, <<>>, <<c>>)) =
     Cardinality({1} \cap (IF Matches(tree, <<>>, <<c>>) THEN {1} ELSE {}))
     + Len(Flat([i \in DOMAIN tree.f["features"] |-> Hits(tree.f["features"][i], <<>>, <<c>>)]))
     + (IF Has(tree, "styles") THEN Len(Flat([i \in DOMAIN tree.f["styles"] |-> Hits(tree.f["styles"][i], <<>>, <<c>>)])) ELSE 0)
     + (IF Has(tree, "times") THEN Len(Hits(tree.f["times"], <<>>, <<c>>)) ELSE 0)
     + (IF Has(tree, "style_url") THEN Len(Hits(tree.f["style_url"], <<>>, <<c>>)) ELSE 0)
\* The style for a state is the one of the first pair with that key.
States == LET A == TLCEval(All) IN \A i \in DOMAIN A : A[i].o.cls = "StyleMap" =>
   /\ Sub(A[i].o, StyleFor(A[i].o, "normal")).cls = "Style"
   /\ Sub(A[i].o, StyleFor(A[i].o, "highlight")) = Url("#a")
Emit == "EMIT" \in DOMAIN IOEnv => PrintT("TREE " \o ToJson(tree))
=============================================================================
