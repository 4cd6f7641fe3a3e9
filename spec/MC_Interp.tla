------------------------------ MODULE MC_Interp ------------------------------
(* Checks the grid interpolation definition: nodes are reproduced, multilinear data are reproduced everywhere, the  *)
(* curve along a grid line is the spline of that line, and for products of one-variable data the axes may be        *)
(* exchanged without changing anything.                                                                             *)
EXTENDS Interp, FiniteSets
VARIABLES f, g, h, c
Xs == <<"0", "1", "3">>
Ys == <<"0", "2", "3", "4">>
Zs == <<"-1", "0", "2">>
Init == /\ f \in {<<"1", "2", "5">>, <<"0", "3", "1">>, <<"-1", "-1", "4">>} /\ g \in {<<"1", "0", "2", "2">>, <<"1", "3", "-2", "5">>}
        /\ h \in {<<"1", "4", "2">>, <<"2", "0", "1">>} /\ c \in {<<1, 2, -1, 3>>, <<0, 1, 1, -2>>}
Next == UNCHANGED <<f, g, h, c>>
Near(a, b) == NLt(NAbs(NSub(a, b)), "1e-60")
P2(a, b) == [j \in 1..Len(b) |-> [i \in 1..Len(a) |-> NMul(a[i], b[j])]]
P3(a, b, d) == [k \in 1..Len(d) |-> [j \in 1..Len(b) |-> [i \in 1..Len(a) |-> NMul(NMul(a[i], b[j]), d[k])]]]
Pts == {<<"0.5", "1.5", "0.75">>, <<"2.25", "3.5", "-0.5">>, <<"1", "0.5", "2">>}
Nodes2 == LET b == Bi(P2(f, g), Xs, Ys) IN \A i \in 1..3 : \A j \in 1..4 : Near(BiVal(b, Xs[i], Ys[j])[1], NMul(f[i], g[j]))
Nodes3 == LET b == Tri(P3(f, g, h), Xs, Ys, Zs) IN \A i \in 1..3 : \A j \in 1..4 : \A k \in 1..3 : Near(TriVal(b, Xs[i], Ys[j], Zs[k])[1], NMul(NMul(f[i], g[j]), h[k]))
ML(x, y, z) == NSum(<<c[1], NMul(c[2], x), NMul(c[3], NMul(x, y)), NMul(c[4], z), NMul(NMul(x, y), z), NMul(c[2], NMul(y, z))>>)
Multilinear == LET b == Tri([k \in 1..3 |-> [j \in 1..4 |-> [i \in 1..3 |-> ML(Xs[i], Ys[j], Zs[k])]]], Xs, Ys, Zs) IN
   \A p \in Pts : Near(TriVal(b, p[1], p[2], p[3])[1], ML(p[1], p[2], p[3]))
Line == LET b == Bi(P2(f, g), Xs, Ys) s == Spline(Xs, f) IN
   (\A i \in 1..3 : ~Corner(s.m, i)) => \A p \in Pts : \A j \in 1..4 : Near(BiVal(b, p[1], Ys[j])[1], NMul(SVal(s, p[1]), g[j]))
Symmetric2 == LET b == Bi(P2(f, g), Xs, Ys) q == Bi(P2(g, f), Ys, Xs) IN \A p \in Pts : Near(BiVal(b, p[1], p[2])[1], BiVal(q, p[2], p[1])[1])
Symmetric3 == LET b == Tri(P3(f, g, h), Xs, Ys, Zs) q == Tri(P3(h, f, g), Zs, Xs, Ys) IN
   \A p \in Pts : Near(TriVal(b, p[1], p[2], p[3])[1], TriVal(q, p[3], p[1], p[2])[1])
=============================================================================
