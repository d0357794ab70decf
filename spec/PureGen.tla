------------------------------ MODULE PureGen ------------------------------
(* Histories over an alphabet of operations of Pure: every one (cover: a  *)
(* shortest way to every state, then every operation) or random ones.     *)
EXTENDS Pure
Cfg == JsonDeserialize(IOEnv.GENCFG)
Ops == Cfg.ops
VARIABLES p, hist
Init == p = P0 /\ hist = <<>>
Do(i) == p' = PPost(p, Ops[i]) /\ hist' = Append(hist, i)
NextCover == \E i \in 1..Len(Ops) : Do(i) /\ PrintT("GEN " \o ToString(hist'))
CoverConstraint == Len(hist) < Cfg.depth
View == p
SpecCover == Init /\ [][NextCover]_<<p, hist>>
NextSim == /\ Len(hist) < Cfg.depth
           /\ Do(RandomElement(1..Len(Ops)))
           /\ IF Len(hist) + 1 = Cfg.depth THEN PrintT("GEN " \o ToString(hist')) ELSE TRUE
SpecSim == Init /\ [][NextSim]_<<p, hist>>
=============================================================================
