---------------------------- MODULE TraceInterp ----------------------------
(* Bicubic and tricubic interpolators recorded from the code against Interp. *)
EXTENDS Interp, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, b
ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ ev.e = e
GridOK(xs) == Len(xs) >= 3 /\ Increasing(xs)
NewBi == /\ Is("bi")
         /\ IF Len(ev.x) = Len(ev.d[1]) /\ Len(ev.y) = Len(ev.d) /\ GridOK(ev.x) /\ GridOK(ev.y)
            THEN ev.r = "ok" /\ b' = Bi(ev.d, ev.x, ev.y) ELSE ev.r = "refused" /\ UNCHANGED b
NewTri == /\ Is("tri")
          /\ IF Len(ev.x) = Len(ev.d[1][1]) /\ Len(ev.y) = Len(ev.d[1]) /\ Len(ev.z) = Len(ev.d) /\ GridOK(ev.x) /\ GridOK(ev.y) /\ GridOK(ev.z)
             THEN ev.r = "ok" /\ b' = Tri(ev.d, ev.x, ev.y, ev.z) ELSE ev.r = "refused" /\ UNCHANGED b
\* values at nodes, and of multilinear data, are exact to rounding; elsewhere the derivative tables amplify rounding
Tol(exact) == IF exact THEN "4e-13" ELSE "1e-9"
Close(a, w, exact) == NLe(NAbs(NSub(a, w[1])), NMul(Tol(exact), w[2]))
EvalBi == /\ Is("beval") /\ ev.r = "ok"
          /\ (ev.out \/ Close(ev.v, BiVal(b, ev.x, ev.y), ev.lin \/ (IsNode(b.x, ev.x) /\ IsNode(b.y, ev.y))))
          /\ UNCHANGED b
EvalTri == /\ Is("teval") /\ ev.r = "ok"
           /\ (ev.out \/ Close(ev.v, TriVal(b, ev.x, ev.y, ev.z), ev.lin \/ (IsNode(b.x, ev.x) /\ IsNode(b.y, ev.y) /\ IsNode(b.z, ev.z))))
           /\ UNCHANGED b
\* copied, moved away and back: unchanged (an empty interpolator yields 0)
Move == Is("bmove") /\ ev.r = "ok" /\ NEq(ev.v, 0) /\ UNCHANGED b
SameSeq(a, c) == Len(a) = Len(c) /\ \A i \in 1..Len(a) : NEq(a[i], c[i])
Get == /\ Is("bget") /\ ev.r = "ok" /\ SameSeq(ev.x, b.x) /\ SameSeq(ev.y, b.y)
       /\ Len(ev.d) = Len(b.x) * Len(b.y)
       /\ \A j \in 1..Len(b.y) : \A i \in 1..Len(b.x) : NEq(ev.d[(j - 1) * Len(b.x) + i], b.f[j][i])
       /\ UNCHANGED b
TInit == l = 1 /\ b = [x |-> <<>>]
TNext == (NewBi \/ NewTri \/ EvalBi \/ EvalTri \/ Move \/ Get) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, b>>
View == l
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
