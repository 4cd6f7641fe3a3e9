------------------------------ MODULE Handles ------------------------------
(* Owning wrappers.  A slot holds no object (<<"none">>), an empty wrapper (<<"empty">>) or a wrapper    *)
(* that owns an identifier.  closed is the bag of identifiers closed so far, as counts.                *)
EXTENDS Integers, Sequences
CONSTANTS Slots, Ids
VARIABLES own, closed, made
hvars == <<own, closed, made>>
None == <<"none">>
Empty == <<"empty">>
Owns(i) == <<"own", i>>
Live(s) == own[s] # None
HInit == own = [s \in Slots |-> None] /\ closed = [i \in Ids |-> 0] /\ made = {}
Shut(w) == IF w[1] = "own" THEN [closed EXCEPT ![w[2]] = @ + 1] ELSE closed
\* the identifiers an operation closes, as a sequence
Closes(w) == IF w[1] = "own" THEN <<w[2]>> ELSE <<>>
New(s, i) == ~Live(s) /\ i \notin made /\ own' = [own EXCEPT ![s] = Owns(i)] /\ made' = made \cup {i} /\ UNCHANGED closed
NewEmpty(s) == ~Live(s) /\ own' = [own EXCEPT ![s] = Empty] /\ UNCHANGED <<closed, made>>
Refused == UNCHANGED hvars
MoveNew(s, d) == Live(s) /\ ~Live(d) /\ own' = [own EXCEPT ![d] = own[s], ![s] = Empty] /\ UNCHANGED <<closed, made>>
\* assignment may hand the old contents to the source, or close them at once
AssignSwap(s, d) == Live(s) /\ Live(d) /\ own' = [own EXCEPT ![d] = own[s], ![s] = own[d]] /\ UNCHANGED <<closed, made>>
AssignShut(s, d) == Live(s) /\ Live(d) /\ s # d /\ own' = [own EXCEPT ![d] = own[s], ![s] = Empty] /\ closed' = Shut(own[d]) /\ UNCHANGED made
Destroy(s) == Live(s) /\ own' = [own EXCEPT ![s] = None] /\ closed' = Shut(own[s]) /\ UNCHANGED made
=============================================================================
