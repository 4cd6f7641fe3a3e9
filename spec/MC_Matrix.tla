----------------------------- MODULE MC_Matrix -----------------------------
(* Checks the matrix definitions: for unitary U the two basis changes are inverse to each other, they keep trace, *)
(* Hermiticity and products, and conjugation is an involution that commutes with them up to conjugating U.        *)
EXTENDS CMatrix, FiniteSets
VARIABLES u, m
\* 2x2 unitary matrices with entries from the rationals over the Gaussian integers
Units == {<<"1", "0">>, <<"0", "-1">>}
Pyth == {<<"0.6", "0.8">>, <<"0.8", "-0.6">>, <<"1", "0">>}
Diag(p, q) == [re |-> <<<<p[1], "0">>, <<"0", q[1]>>>>, im |-> <<<<p[2], "0">>, <<"0", q[2]>>>>]
Rot(c) == [re |-> <<<<c[1], c[2]>>, <<NNeg(c[2]), c[1]>>>>, im |-> <<<<"0", "0">>, <<"0", "0">>>>]
Us == {Mul(Rot(c), Mul(Diag(p, q), Rot(d))) : c \in Pyth, d \in Pyth, p \in Units, q \in Units}
Ms == {[re |-> <<<<a, b>>, <<c, 2>>>>, im |-> <<<<0, d>>, <<1, a>>>>] : a \in {-1, 3}, b \in {0, 2}, c \in {0, 5}, d \in {-2, 1}}
Init == u \in Us /\ m \in Ms
Next == UNCHANGED <<u, m>>
EqM(A, B) == \A i, j \in 1..2 : NLt(NAbs(NSub(A.re[i][j], B.re[i][j])), "1e-60") /\ NLt(NAbs(NSub(A.im[i][j], B.im[i][j])), "1e-60")
One == [re |-> <<<<1, 0>>, <<0, 1>>>>, im |-> <<<<0, 0>>, <<0, 0>>>>]
Unitary == EqM(Mul(u, Dagger(u)), One)
Inverse == EqM(UCMU(u, UMUC(u, m)), m) /\ EqM(UMUC(u, UCMU(u, m)), m)
Tr(A) == <<NAdd(A.re[1][1], A.re[2][2]), NAdd(A.im[1][1], A.im[2][2])>>
Trace0 == LET a == Tr(UMUC(u, m)) b == Tr(m) IN NLt(NAbs(NSub(a[1], b[1])), "1e-60") /\ NLt(NAbs(NSub(a[2], b[2])), "1e-60")
Herm0 == EqM(Dagger(UMUC(u, m)), UMUC(u, Dagger(m)))
Prod == EqM(UMUC(u, Mul(m, m)), Mul(UMUC(u, m), UMUC(u, m)))
ConjConj == EqM(Conj(Conj(m)), m) /\ EqM(Conj(UMUC(u, m)), UMUC(Conj(u), Conj(m)))
=============================================================================
