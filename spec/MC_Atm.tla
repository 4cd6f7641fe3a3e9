------------------------------ MODULE MC_Atm ------------------------------
(* The laws of reading off an atmospheric set, over small grids, media and histories. *)
EXTENDS Atm
McUnit == [gf |-> "1.16639e-23", cm |-> "5.06773093741e4", na |-> "6.02214086e23", km |-> "5.06773093741e9", gev |-> "1e9",
           gr |-> "5.60958616722e32", me |-> "510998.91", mp |-> "938272046", mn |-> "939565379"]
VARIABLES a, evos
vars == <<a, evos>>
Grids == {<<"-0.9", "-0.2", "0.4">>, <<"-1", "1">>, <<"-0.5">>}
Energies == {<<"2e9">>, <<"1e9", "1.7e9">>}
Earths == {[k |-> "halves", h |-> 22, r1 |-> 3, y1 |-> "0.5", r2 |-> "4.5", y2 |-> "0.466"], [k |-> "halves", h |-> 50, r1 |-> 0, y1 |-> 1, r2 |-> 0, y2 |-> 1]}
Flux(g, E, nr) == [x \in 1..(Len(g) * Len(E) * nr * 3) |-> IF x % 3 = 2 THEN 1 ELSE IF x % 6 = 1 THEN "0.5" ELSE 0]
MCInit == \E g \in Grids : \E E \in Energies : \E earth \in Earths : \E nt \in {NU, BOTH} :
            LET n == EarthA(FreshAtm(g, 3, nt, E, FALSE, NoXs), earth).a d == IF nt = BOTH THEN <<Len(g), Len(E), 2, 3>> ELSE <<Len(g), Len(E), 3>>
            IN a = TLCEval(StateA(n, d, Flux(g, E, IF nt = BOTH THEN 2 ELSE 1), FLAVOR).a) /\ evos = 0
MCNext == evos < 1 /\ evos' = evos + 1 /\ a' = TLCEval(EvolveA(a).a)
MCSpec == MCInit /\ [][MCNext]_vars
Eps == "1e-25"
Near(x, y) == NLe(NAbs(NSub(x, y)), Eps)
\* at the angles and energies of the grid the answer is that of the simulation of the angle alone
AtNodes == \A i \in 1..Len(a.c) : \A e \in 1..a.s[1].ne : \A r \in 1..a.s[1].nr : \A f \in 1..3 :
             Near(Read(a, f, a.c[i], a.s[1].E[e], r, "none"), AtNode(a.s[i], "flavor", f, e, r))
\* elsewhere the flavours add up to what the neighbours add up to
Mid(g) == IF Len(g) = 1 THEN g[1] ELSE NAdd(NMul("0.3", g[1]), NMul("0.7", g[2]))
Total(c, E, r) == NSum([f \in 1..3 |-> Read(a, f, c, E, r, "none")])
Sums == \A r \in 1..a.s[1].nr : LET c == Mid(a.c) E == Mid(a.s[1].E) k == NodeOf(c, a.c) e == NodeOf(E, a.s[1].E) x == Weight(c, a.c) y == Weight(E, a.s[1].E)
              tr(i, j) == Trace(a.s[i].rho[r][j]) e2 == Next(e, a.s[1].E) k2 == Next(k, a.c)
              lin(u, p, q) == NAdd(NMul(NSub(1, u), p), NMul(u, q))
         IN Near(Total(c, E, r), lin(x, lin(y, tr(k, e), tr(k, e2)), lin(y, tr(k2, e), tr(k2, e2))))
Laws == AtNodes /\ Sums
=============================================================================
