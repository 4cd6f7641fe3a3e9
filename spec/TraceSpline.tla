---------------------------- MODULE TraceSpline ----------------------------
(* Splines recorded from the code against Akima.  State: the spline in force (or none). *)
EXTENDS AkimaErr, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, sp
ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ ev.e = e
None == [k |-> "none"]
Valid == Len(ev.x) = Len(ev.y) /\ Len(ev.x) >= 3 /\ Increasing(ev.x)
New == /\ Is("spline")
       /\ IF Valid THEN ev.r = "ok" /\ sp' = Mk(ev.x, ev.y)
          ELSE ev.r = "refused" /\ sp' = (IF ev.how = 2 THEN None ELSE sp)
Eval == /\ Is("seval") /\ sp.k = "spline" /\ ev.r = "ok"
        /\ LET i == Seg(sp.x, ev.x) IN Close(ev.v, SVal(sp, ev.x), ErrAt(sp, i, ev.x))
        /\ UNCHANGED sp
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NEq(a[i], b[i])
DerivsOK(d) == Len(d) = Len(sp.x) /\ \A i \in 1..Len(d) :
   Close(d[i], NodeDerivs(sp)[i], NAdd(NMul(NMul(64, Eps), Loc5(sp.m, i)),
         NMul(8, IF i = Len(d) THEN NAdd(SlopeErr(sp, i), SlopeErr(sp, i - 1)) ELSE SlopeErr(sp, i))))
Get == /\ Is("sget") /\ sp.k = "spline" /\ ev.r = "ok"
       /\ SameSeq(ev.x, sp.x) /\ Len(ev.y) = Len(sp.y)
       /\ \A i \in 1..Len(sp.y) : NEq(ev.y[i], sp.y[i])
       /\ DerivsOK(ev.d) /\ DerivsOK(ev.d2)
       /\ UNCHANGED sp
TInit == l = 1 /\ sp = None
TNext == (New \/ Eval \/ Get) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, sp>>
View == l
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
