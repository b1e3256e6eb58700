---------------------------- MODULE KmlRegistry ----------------------------
(***************************************************************************)
(* The registry: for every class the properties registered on it.  What a  *)
(* class has is what its ancestors have, most general first, then its own, *)
(* in order of registration.                                               *)
(***************************************************************************)
EXTENDS KmlEqual

\* A diamond: the classes a class inherits from and itself, most general first.
ChainOf == [K1 |-> <<"K1">>, K2 |-> <<"K1", "K2">>, K3 |-> <<"K1", "K3">>, K4 |-> <<"K1", "K3", "K2", "K4">>, K5 |-> <<"K5">>]
Kinds5 == DOMAIN ChainOf
Below(c, d) == \E i \in DOMAIN ChainOf[d] : ChainOf[d][i] = c     \* d is c or inherits from it
Empty5 == [c \in Kinds5 |-> <<>>]
Register(regs, c, it) == [regs EXCEPT ![c] = Append(@, it)]
LookUp(regs, c) == Flat(TLCEval([i \in DOMAIN ChainOf[c] |-> regs[ChainOf[c][i]]]))

\* A recorded history: each step [a, c, it, seen] with everything that can be looked up after it.
RECURSIVE FollowRegs(_, _, _)
FollowRegs(regs, h, i) ==
  IF i > Len(h) THEN {}
  ELSE LET s == h[i]
           after == IF s.a = "register" THEN TLCEval(Register(regs, s.c, s.it)) ELSE regs
           wrong == {c \in Kinds5 : LookUp(after, c) # s.seen[c]} IN
       IF wrong # {} THEN {"registry of a class after " \o s.a} ELSE FollowRegs(after, h, i + 1)

---------------------------------------------------------------------------
(* The library's own classes: what each ancestor contributes.              *)
Overlays == {"PhotoOverlay", "GroundOverlay", "ScreenOverlay"}
ColorStyles == {"IconStyle", "LabelStyle", "LineStyle", "PolyStyle"}
Based(cls) == Len(FieldsOf(cls)) >= 2 /\ SubSeq(FieldsOf(cls), 1, 2) = BaseFields
AncestorsOf(cls) ==
  (IF Based(cls) THEN <<"_BaseObject">> ELSE <<>>) \o
  (CASE cls \in Overlays -> <<"_Feature", "_Overlay">>
     [] cls \in {"Folder", "Document"} -> <<"_Feature", "_Container">>
     [] cls \in {"Placemark", "NetworkLink"} -> <<"_Feature">>
     [] cls \in ColorStyles -> <<"_ColorStyle">>
     [] cls \in {"Camera", "LookAt"} -> <<"_AbstractView">>
     [] cls = "Icon" -> <<"Link">>
     [] cls = "LinearRing" -> <<"LineString">>
     [] OTHER -> <<>>)
Contributes(a) ==
  CASE a = "_BaseObject" -> Len(BaseFields) [] a = "_Feature" -> Len(FeatureFields) [] a = "_Overlay" -> Len(OverlayFields)
    [] a = "_Container" -> 0 [] a = "_ColorStyle" -> Len(ColorFields) [] a = "_AbstractView" -> Len(ViewFields)
    [] a = "Link" -> Len(LinkFields) [] a = "LineString" -> Len(LineFields)

RegsOn(regs, c) == IF c \in DOMAIN regs THEN regs[c] ELSE <<>>
\* The properties of class cls with derived classes `chain' when `regs' is registered in addition.
RECURSIVE Layered(_, _, _)
Layered(anc, fs, regs) ==
  IF anc = <<>> THEN fs
  ELSE SubSeq(fs, 1, Contributes(anc[1])) \o RegsOn(regs, anc[1])
       \o Layered(Tail(anc), SubSeq(fs, Contributes(anc[1]) + 1, Len(fs)), regs)
FieldsWith(cls, chain, regs) ==
  TLCEval(RegsOn(regs, "_XMLObject") \o Layered(AncestorsOf(cls), FieldsOf(cls), regs) \o RegsOn(regs, cls)
          \o Flat([i \in DOMAIN chain |-> RegsOn(regs, chain[i])]))
=============================================================================
