------------------------------ MODULE H5Store ------------------------------
(* Named arrays and attributes in hierarchical files.  A key is <<file, path>>; an attribute key is    *)
(* <<file, object path, name>>.  Nothing that exists is ever overwritten.                              *)
EXTENDS Num, Sequences, FiniteSets, TLC
VARIABLES objs, attrs
vars0 == <<objs, attrs>>
Types == {"int", "uint", "float", "double"}
Conv(t, x) == IF t = "float" THEN NRoundFloat(x) ELSE x
ConvAll(t, s) == IF t = "float" THEN [i \in DOMAIN s |-> NRoundFloat(s[i])] ELSE s
Group == [kind |-> "group"]
Link == [kind |-> "link"]                        \* a link to nothing
Data(dims, type, data) == [kind |-> "data", dims |-> dims, type |-> type, data |-> data]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Has(k) == k \in DOMAIN objs
IsData(k) == Has(k) /\ objs[k].kind = "data"
IsObj(k) == Has(k) /\ objs[k].kind \in {"data", "group"}
SInit == objs = <<>> /\ attrs = <<>>
Root(f) == <<f, "/">>
\* a new, empty file under this name
Create(f) == /\ objs' = [k \in {x \in DOMAIN objs : x[1] # f} \cup {Root(f)} |-> IF k = Root(f) THEN Group ELSE objs[k]]
             /\ attrs' = [k \in {x \in DOMAIN attrs : x[1] # f} |-> attrs[k]]
CanAdd(k, parent) == ~Has(k) /\ Has(<<k[1], parent>>) /\ objs[<<k[1], parent>>].kind = "group"
Add(k, o) == objs' = objs @@ (k :> o) /\ UNCHANGED attrs
CanRead(k, rank) == IsData(k) /\ Len(objs[k].dims) = rank
CanAttr(f, p, a) == IsObj(<<f, p>>) /\ <<f, p, a>> \notin DOMAIN attrs
AddAttr(f, p, a, t, v) == attrs' = attrs @@ (<<f, p, a>> :> <<t, v>>) /\ UNCHANGED objs
CanReadAttr(f, p, a, t) == <<f, p, a>> \in DOMAIN attrs /\ attrs[<<f, p, a>>][1] = t
=============================================================================
