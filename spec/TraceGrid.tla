----------------------------- MODULE TraceGrid -----------------------------
(* Linear and logarithmic grids recorded from the code. *)
EXTENDS Num, Sequences, TLC, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ ev.e = e
Big(a, b) == NMax(NAbs(a), NAbs(b))
Close(a, b, tol) == NLe(NAbs(NSub(a, b)), tol)
\* the k-th of n points (k from 0) of the ideal grid
LinPt(a, b, n, k) == NAdd(a, NDiv(NMul(NSub(b, a), k), n - 1))
LogPt(a, b, n, k) == NExp(LinPt(NLog(a), NLog(b), n, k))
Ends == NEq(ev.p[ev.n], ev.b) /\ (ev.n = 1 \/ NEq(ev.p[1], ev.a))
\* rounding allowed in each point
LinTol == NMul(NMul("5e-16", ev.n + 4), Big(ev.a, ev.b))
LogRel == NMul(NMul("5e-16", ev.n + 4), NAdd(1, Big(NLog(ev.a), NLog(ev.b))))
Before(x, y) == IF NLt(ev.a, ev.b) THEN NLt(x, y) ELSE NLt(y, x)
\* sampled: every point of small grids, else a spread of them
Idx == IF ev.n <= 40 THEN 1..ev.n ELSE {1, 2, 3, ev.n - 2, ev.n - 1, ev.n} \cup {1 + (k * (ev.n - 1)) \div 20 : k \in 0..20}
Sep == NAbs(IF ev.e = "lin" THEN NDiv(NSub(ev.b, ev.a), ev.n) ELSE NDiv(NSub(NLog(ev.b), NLog(ev.a)), ev.n))
Resolved == IF ev.e = "lin" THEN NLt(NMul(4, LinTol), Sep) ELSE NLt(NMul(4, LogRel), Sep)
Mono == (NEq(ev.a, ev.b) \/ ~Resolved) \/ \A k \in 1..(ev.n - 1) : Before(ev.p[k], ev.p[k + 1])
Shape == ev.r = "ok" /\ ev.n = ev.ask /\ Len(ev.p) = ev.n
Refuse == (Is("lin") \/ Is("log")) /\ ev.ask = 0 /\ ev.r = "refused"
Lin == /\ Is("lin") /\ ev.ask > 0 /\ Shape /\ Ends /\ Mono
       /\ \A k \in Idx : ev.n = 1 \/ Close(ev.p[k], LinPt(ev.a, ev.b, ev.n, k - 1), LinTol)
Log == /\ Is("log") /\ ev.ask > 0 /\ Shape /\ Ends /\ Mono
       /\ \A k \in Idx : ev.n = 1 \/ LET q == LogPt(ev.a, ev.b, ev.n, k - 1) IN Close(ev.p[k], q, NMul(LogRel, q))
TInit == l = 1
TNext == (Refuse \/ Lin \/ Log) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
