----------------------------- MODULE MC_Handles -----------------------------
(* No identifier is owned twice, none is closed twice or while owned, none is lost. *)
EXTENDS Handles, FiniteSets
Next == \E s, d \in Slots, i \in Ids : New(s, i) \/ NewEmpty(s) \/ (s # d /\ MoveNew(s, d)) \/ AssignSwap(s, d) \/ AssignShut(s, d) \/ Destroy(s)
Spec == HInit /\ [][Next]_hvars
ExactlyOnce == \A i \in Ids : closed[i] + Cardinality({s \in Slots : own[s] = Owns(i)}) = (IF i \in made THEN 1 ELSE 0)
=============================================================================
