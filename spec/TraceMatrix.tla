---------------------------- MODULE TraceMatrix ----------------------------
(* Complex matrix helpers recorded from the code against CMatrix.  Entries arrive as flat row-major re, im pairs. *)
EXTENDS CMatrix, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ ev.e = e
Unflat(q, r, c) == [re |-> [i \in 1..r |-> [j \in 1..c |-> q[2 * ((i - 1) * c + j) - 1]]], im |-> [i \in 1..r |-> [j \in 1..c |-> q[2 * ((i - 1) * c + j)]]]]
Close(a, b, tol) == NLe(NAbs(NSub(a, b)), tol)
SameFlat(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NEq(a[i], b[i])
Cj == /\ Is("conj") /\ ev.r = "ok" /\ ev.pad /\ Len(ev.m) = Len(ev.m0)
      /\ \A i \in 1..Len(ev.m) : NEq(ev.m[i], IF i % 2 = 1 THEN ev.m0[i] ELSE NNeg(ev.m0[i]))
Basis == /\ (Is("umuc") \/ Is("ucmu")) /\ ev.r = "ok" /\ ev.pad /\ SameFlat(ev.u, ev.u0) /\ Len(ev.m) = Len(ev.m0)
         /\ LET n == ev.rows U == Unflat(ev.u0, n, n) M == Unflat(ev.m0, n, n) R == Unflat(ev.m, n, n)
                W == IF ev.e = "umuc" THEN UMUC(U, M) ELSE UCMU(U, M) S == IF ev.e = "umuc" THEN Size(U, M) ELSE SizeC(U, M) IN
            \A i \in 1..n : \A j \in 1..n : LET tol == IF ev.exact THEN 0 ELSE NMul("4e-15", S.re[i][j]) IN
               Close(R.re[i][j], W.re[i][j], tol) /\ Close(R.im[i][j], W.im[i][j], tol)
TInit == l = 1
TNext == (Cj \/ Basis) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
