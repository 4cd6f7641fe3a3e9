------------------------------- MODULE MC_H5 -------------------------------
(* Nothing is overwritten: an object or attribute, once there, keeps its value until its file is        *)
(* created anew; parents exist before children; and writing then reading through any types gives the   *)
(* value converted once (conversion is idempotent).                                                    *)
EXTENDS H5Store
VARIABLE n
Paths == {"a", "g", "g/a"}
Parent(p) == IF p = "g/a" THEN "g" ELSE "/"
Init == SInit /\ n = 0
Next == n < 4 /\ n' = n + 1 /\ \E f \in {"f1", "f2"} :
          \/ Create(f)
          \/ \E p \in Paths : \/ CanAdd(<<f, p>>, Parent(p)) /\ Add(<<f, p>>, Group)
                              \/ \E t \in {"int", "float"} : CanAdd(<<f, p>>, Parent(p)) /\ Add(<<f, p>>, Data(<<2>>, t, ConvAll(t, <<"1", "0.1">>)))
          \/ \E p \in Paths \cup {"/"}, t \in {"int", "text"} : CanAttr(f, p, "x") /\ AddAttr(f, p, "x", t, "1")
Parents == \A k \in DOMAIN objs : k[2] = "g/a" => Has(<<k[1], "g">>) /\ objs[<<k[1], "g">>].kind = "group"
AttrsHang == \A k \in DOMAIN attrs : IsObj(<<k[1], k[2]>>)
Sized == \A k \in DOMAIN objs : IsData(k) => Len(objs[k].data) = Prod(objs[k].dims)
Idem == \A k \in DOMAIN objs : IsData(k) => \A i \in DOMAIN objs[k].data : NEq(Conv(objs[k].type, objs[k].data[i]), objs[k].data[i])
Keep == [][\A f \in {"f1", "f2"} : (\A k \in DOMAIN objs : k[1] = f => k \in DOMAIN objs' /\ objs'[k] = objs[k])
                                   \/ {k \in DOMAIN objs' : k[1] = f} = {Root(f)}]_objs
KeepA == [][\A k \in DOMAIN attrs : (k \in DOMAIN attrs' /\ attrs'[k] = attrs[k]) \/ {x \in DOMAIN attrs' : x[1] = k[1]} = {}]_attrs
=============================================================================
