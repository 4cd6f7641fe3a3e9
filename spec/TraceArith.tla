----------------------------- MODULE TraceArith -----------------------------
(* Every array arithmetic call recorded from the code against Marray!Zip,     *)
(* Map and sums.  Integer elements are computed here; other element types are *)
(* opaque tokens (one per bit pattern) and the event carries the scalar       *)
(* operation's own table, so that what is checked is which elements meet      *)
(* where, in which order, and that operands are left alone.  A scalar operand *)
(* is an array of rank 0.                                                     *)
EXTENDS Marray, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e

Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(x, y) == IF (x < 0) = (y < 0) THEN Abs(x) \div Abs(y) ELSE -(Abs(x) \div Abs(y))
IntOp(op, x, y) == CASE op = "add" -> x + y [] op = "sub" -> x - y [] op = "mul" -> x * y [] op = "div" -> TDiv(x, y)
                     [] op = "enc" -> x * 1000 + y
Tab == LET n == Len(ev.tab) IN [p \in {<<ev.tab[i][1], ev.tab[i][2]>> : i \in 1..n} |->
         ev.tab[CHOOSE i \in 1..n : <<ev.tab[i][1], ev.tab[i][2]>> = p][3]]
Op(x, y) == IF ev.k = "int" THEN IntOp(ev.op, x, y) ELSE Tab[<<x, y>>]
Un(x) == IF ev.k = "int" THEN (IF ev.op = "neg" THEN -x ELSE Abs(x)) ELSE Tab[<<x, 0>>]

Same(a, b) == a.sh = b.sh /\ a.d = b.d
\* the left operand is unchanged, or holds the result (compound assignment), or may be reused (temporary)
LeftOK(z) == IF ev.inpl = 1 THEN Same(ev.x2, z) ELSE IF ev.xr = 1 THEN TRUE ELSE Same(ev.x2, ev.x)
RightOK == ev.alias = 1 \/ ev.yr = 1 \/ Same(ev.y2, ev.y)

Bin == /\ Is("bin")
       /\ IF Compatible(ev.x.sh, ev.y.sh)
          THEN ev.r = "ok" /\ LET z == Zip(ev.x, ev.y, Op) IN Same(ev.z, z) /\ LeftOK(z) /\ RightOK
          ELSE ev.r = "refused" /\ Same(ev.x2, ev.x) /\ RightOK
Una == Is("un") /\ ev.r = "ok" /\ LET z == Map(ev.x, Un) IN Same(ev.z, z) /\ (ev.xr = 1 \/ Same(ev.x2, ev.x))
Sum == /\ Is("sum") /\ ev.r = "ok" /\ Same(ev.x2, ev.x)
       /\ CASE ev.op = "total" -> Same(ev.z, [sh |-> <<>>, d |-> <<Total(ev.x)>>])
            [] ev.op = "axis" -> Same(ev.z, SumAxis(ev.x, ev.dim))
            [] ev.op = "keep" -> Same(ev.z, SumAxisKeep(ev.x, ev.dim))
TInit == l = 1
TNext == (Bin \/ Una \/ Sum) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(Trace) + 1 THEN PrintT(<<"ACCEPT", Len(Trace)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
