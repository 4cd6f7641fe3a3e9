----------------------------- MODULE TraceQuad -----------------------------
(* Integrations recorded from the code against AdaptiveQuad (quad) and against exact integrals (gsl1, gsl2). *)
EXTENDS AdaptiveQuad, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ ev.e = e
P == [brk |-> ev.brk, sh |-> ev.sh, c |-> ev.c]
Close(a, b, tol) == NLe(NAbs(NSub(a, b)), tol)
Rev == NLt(ev.b, ev.a)
Lo == NMin(ev.a, ev.b)
Hi == NMax(ev.a, ev.b)
\* value used at each limit: supplied or computed
VA == IF ev.ga THEN ev.va ELSE F(P, ev.a)
VB == IF ev.gb THEN ev.vb ELSE F(P, ev.b)
Refused == NLt(ev.tol, EpsD) \/ ~Split(Lo, Hi)
Signed(x) == IF Rev THEN NNeg(x) ELSE x
\* one polynomial over the whole interval, with true endpoint values
Poly == (\A k \in 1..Len(ev.brk) : NLe(Hi, ev.brk[k]) \/ NLt(ev.brk[k], Lo)) /\ NEq(VA, F(P, ev.a)) /\ NEq(VB, F(P, ev.b))
Degree == Len(ev.c[Piece(P, Lo, 1)]) - 1
Inside == ev.n = 0 \/ (NLe(Lo, ev.lo) /\ NLe(ev.hi, Hi))
Reuse == (ev.ga => ev.na = 0) /\ (ev.gb => ev.nb = 0)
\* endpoint values handed back for reuse
Given == LET t == NMul("1e-13", NAdd(1, NAdd(NAbs(VA), NAbs(VB)))) IN Close(ev.fa, VA, t) /\ Close(ev.fb, VB, t)
Opts(r) == /\ ev.int = ~ev.oot
           /\ Given
           \* whatever happened at rounding level: out of tolerance means that some part's two estimates differ by more than
           \* the tolerance, in tolerance that none does
           /\ r.sure => (IF ev.oot THEN NLe(NMul(NMul("0.99", r.T), r.R), NAdd(ev.unc, r.noise))
                         ELSE NLe(ev.unc, NAdd(r.noise, NMul(NMul("1.01", r.T), NMul(r.R, NSqrt(ev.n))))))
           /\ r.amb \/ (ev.oot = r.stuck /\ Close(ev.unc, r.unc, NAdd(NMul("1e-3", r.unc), NAdd(NMul(20, r.noise), r.loose))))
Quad == /\ Is("quad")
        /\ IF Refused THEN ev.r = "refused"
           ELSE /\ ev.r = "ok" /\ Inside /\ NIsNum(ev.v)
                /\ LET r == Integrate(P, Lo, Hi, IF Rev THEN VB ELSE VA, IF Rev THEN VA ELSE VB, ev.tol) IN
                   /\ NEq(r.loose, 0) => Reuse
                   /\ r.amb \/ Close(ev.v, Signed(r.val), NAdd(NMul(10, r.noise), r.loose))
                   /\ (Poly /\ Degree <= 9) => Close(ev.v, Signed(Exact(P, Lo, Hi)), NMul(10, r.noise))
                   /\ ev.opt => Opts(r)
Gsl == /\ (Is("gsl1") \/ Is("gsl2")) /\ ev.r = "ok" /\ Inside
       /\ LET x == Exact(P, Lo, Hi) IN Close(ev.v, Signed(x), NAdd(NMul(NMul(2, ev.tol), NAbs(x)), NMul("1e-13", NAdd(NAbs(x), ev.scale))))
TInit == l = 1
TNext == (Quad \/ Gsl) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
