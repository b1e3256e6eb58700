-------------------------- MODULE KmlRegistryModel --------------------------
(***************************************************************************)
(* Registrations on the diamond of classes interleaved with looking lists  *)
(* up and with callers who change the lists they got.                      *)
(***************************************************************************)
EXTENDS KmlRegistry, Json, IOUtils
CONSTANTS MaxSteps, MaxRegs

VARIABLES regs, given, path
vars == <<regs, given, path>>

Total == Len(Flat([i \in 1..5 |-> regs[(<<"K1", "K2", "K3", "K4", "K5">>)[i]]]))
Init == regs = Empty5 /\ given = {} /\ path = <<>>
Log(act) == path' = Append(path, act) /\ ("EMIT" \in DOMAIN IOEnv => PrintT("BEH " \o ToJson(path')))
Reg == \E c \in Kinds5 : /\ Total < MaxRegs
                         /\ regs' = Register(regs, c, "i" \o ToString(Total + 1)) /\ UNCHANGED given
                         /\ Log([a |-> "register", c |-> c, it |-> "i" \o ToString(Total + 1)])
\* The list a caller gets is a new one.
Look == \E c \in Kinds5 : /\ Cardinality(given) < 2 /\ given' = given \cup {c} /\ given' # given /\ UNCHANGED regs
                          /\ Log([a |-> "look", c |-> c, it |-> ""])
Spoil == \E c \in given : /\ given' = given \ {c} /\ UNCHANGED regs
                          /\ Log([a |-> "spoil", c |-> c, it |-> ""])
Next == Len(path) < MaxSteps /\ (Reg \/ Look \/ Spoil)
View == <<regs, given>>

\* Every registration on a class or an ancestor is there once, and nothing else is.
Exactly == \A c \in Kinds5 : LET q == LookUp(regs, c) IN
  /\ {q[i] : i \in DOMAIN q} = UNION {{regs[d][i] : i \in DOMAIN regs[d]} : d \in {x \in Kinds5 : Below(x, c)}}
  /\ \A i, j \in DOMAIN q : q[i] = q[j] => i = j
\* The general before the special, and in order of registration.
Ordered == \A c, d \in Kinds5 : Below(d, c) /\ c # d =>
  \A i \in DOMAIN regs[d] : \A j \in DOMAIN regs[c] :
    Index(LookUp(regs, c), regs[d][i]) < Index(LookUp(regs, c), regs[c][j])
InOrder == \A c, d \in Kinds5 : \A i, j \in DOMAIN regs[c] :
  i < j /\ Below(c, d) => Index(LookUp(regs, d), regs[c][i]) < Index(LookUp(regs, d), regs[c][j])
\* A registration concerns a class and those that inherit from it, at once; nothing else does.
Local == [][\A c \in Kinds5 : LookUp(regs', c) # LookUp(regs, c) =>
              path'[Len(path')].a = "register" /\ Below(path'[Len(path')].c, c)]_vars
AtOnce == [][path'[Len(path')].a = "register" =>
               \A c \in Kinds5 : Below(path'[Len(path')].c, c) => Len(LookUp(regs', c)) = Len(LookUp(regs, c)) + 1]_vars
\* Layers of the library's classes are where their properties begin.
Layers == path = <<>> => \A cls \in DOMAIN Schema : FieldsWith(cls, <<>>, <<>>) = FieldsOf(cls)
=============================================================================
