----------------------------- MODULE MC_Marray ------------------------------
(* Every history of edits of one small array: the algebra that any           *)
(* implementation inherits from the definitions in Marray.                    *)
EXTENDS Marray, TLC
CONSTANTS Rank, MaxExt, MaxLen
VARIABLE a
vars == a
Shapes == [1..Rank -> 0..MaxExt]
Dims == 0..(Rank - 1)
Fresh(sh) == [sh |-> sh, d |-> [k \in 1..Prod(sh) |-> k]]
Init == \E sh \in Shapes : a = Fresh(sh)
Step(b) == /\ Prod(b.sh) <= MaxLen /\ \A i \in 1..Rank : b.sh[i] <= MaxExt
              /\ a' = b
Next ==
  \/ \E dim \in Dims : \E pos \in 0..a.sh[dim + 1] : \E num \in 0..2 :
       a.sh[dim + 1] + num <= MaxExt /\ Step(Insert(a, dim, pos, num, 0))
  \/ \E dim \in Dims : \E pos \in 0..a.sh[dim + 1] : \E num \in 0..(a.sh[dim + 1] - pos) :
       Step(Erase(a, dim, pos, num))
  \/ \E sh \in Shapes : Prod(sh) = Prod(a.sh) /\ Step(Reshape(a, sh))
  \/ \E dim \in Dims : \E n \in 0..MaxExt : Step(Resize(a, dim, n, 0))
Spec == Init /\ [][Next]_vars

WellFormed == IsArray(a)
RowMajor == \A k \in 0..(Prod(a.sh) - 1) :
   /\ Inside(a.sh, Coord(a.sh, k)) /\ Off(a.sh, Coord(a.sh, k)) = k
\* undoing: inserting then erasing the same block restores the array
Undo == \A dim \in Dims : \A pos \in 0..a.sh[dim + 1] : \A num \in 1..2 :
   Erase(Insert(a, dim, pos, num, 99), dim, pos, num) = a
\* growing or shrinking at the end of an axis is resizing it
GrowIsResize == \A dim \in Dims : \A num \in 0..2 :
   Insert(a, dim, a.sh[dim + 1], num, 7) = Resize(a, dim, a.sh[dim + 1] + num, 7)
ShrinkIsResize == \A dim \in Dims : \A num \in 0..a.sh[dim + 1] :
   Erase(a, dim, a.sh[dim + 1] - num, num) = Resize(a, dim, a.sh[dim + 1] - num, 7)
\* edits along different axes commute
Commute == \A x, y \in Dims : x # y =>
   \A p \in 0..a.sh[x + 1] : \A q \in 0..a.sh[y + 1] :
      Insert(Insert(a, x, p, 1, 5), y, q, 1, 5) = Insert(Insert(a, y, q, 1, 5), x, p, 1, 5)
\* an edit neither duplicates nor invents: apart from fill, contents are a sub-multiset of the previous contents
Count(d, v) == Cardinality({k \in DOMAIN d : d[k] = v})
NothingInvented == [][\A v \in 1..MaxLen : Count(a'.d, v) <= Count(a.d, v)]_vars
SumsAgree == \A dim \in Dims : /\ Total(SumAxis(a, dim)) = Total(a)
                               /\ IsArray(SumAxis(a, dim)) /\ IsArray(SumAxisKeep(a, dim))
                               /\ Total(SumAxisKeep(a, dim)) = Total(a)
BroadcastOK == \A sh \in Shapes : Compatible(a.sh, sh) => LET op(x, y) == x - y IN
   /\ IsArray(Zip(a, Fresh(sh), op)) /\ IsArray(Zip(Fresh(sh), a, op))
   /\ LET neg(x) == -x IN Map(Zip(Fresh(sh), a, op), neg) = Zip(a, Fresh(sh), op)
   /\ (sh = a.sh => Zip(a, a, op) = Full(sh, 0))
=============================================================================
