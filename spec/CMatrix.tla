------------------------------ MODULE CMatrix ------------------------------
(* Complex matrices over real numbers: an r by c matrix is [re |-> rows, im |-> rows]. *)
EXTENDS Num, Naturals, Sequences, TLC
Dim(A) == Len(A.re)
Row(X, i) == X[i]
Col(X, j) == [i \in 1..Len(X) |-> X[i][j]]
Mat(n, Re(_, _), Im(_, _)) == TLCEval([re |-> [i \in 1..n |-> [j \in 1..n |-> Re(i, j)]], im |-> [i \in 1..n |-> [j \in 1..n |-> Im(i, j)]]])
Mul(A, B) == Mat(Dim(A), LAMBDA i, j : NSub(NDot(A.re[i], Col(B.re, j)), NDot(A.im[i], Col(B.im, j))),
                         LAMBDA i, j : NAdd(NDot(A.re[i], Col(B.im, j)), NDot(A.im[i], Col(B.re, j))))
Dagger(A) == Mat(Dim(A), LAMBDA i, j : A.re[j][i], LAMBDA i, j : NNeg(A.im[j][i]))
Conj(A) == [re |-> A.re, im |-> [i \in DOMAIN A.im |-> [j \in DOMAIN A.im[i] |-> NNeg(A.im[i][j])]]]
UMUC(U, M) == Mul(U, Mul(M, Dagger(U)))
UCMU(U, M) == Mul(Dagger(U), Mul(M, U))
\* the same with absolute values: the scale of rounding errors
AbsM(A) == Mat(Dim(A), LAMBDA i, j : NAdd(NAbs(A.re[i][j]), NAbs(A.im[i][j])), LAMBDA i, j : 0)
Size(U, M) == LET u == AbsM(U) IN Mul(u, Mul(AbsM(M), Dagger(u)))
SizeC(U, M) == LET u == AbsM(U) IN Mul(Dagger(u), Mul(AbsM(M), u))
=============================================================================
