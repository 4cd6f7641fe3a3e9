------------------------------- MODULE MC_Tau -------------------------------
(* The spectra are normalised over their kinematic range, never negative there, vanish beyond it, and   *)
(* the branching ratios exhaust the decays; the tables are a function of the slot's latest grid alone,   *)
(* scale with the energy unit as 1/E, and the outgoing-lepton form is E2/E1 times the neutrino form.    *)
EXTENDS TauDecay, TLC, FiniteSets
VARIABLE n
Grids == {<<>>, <<"1e9">>, <<"2e9", "1e9">>, <<"1e9", "4e9", "5e9">>}
Init == TInit0 /\ n = 0
Next == /\ n < 3 /\ n' = n + 1
        /\ \E s \in Slots : \/ \E g \in Grids : Fill(s, g)
                            \/ \E t \in Slots \ {s} : CopyTo(s, t) \/ MoveTo(s, t)
                            \/ Clear(s)
Near(x, y) == NLt(NAbs(NSub(x, y)), "1e-60")
\* polynomials of degree <= 3: Simpson's rule is exact
Integral(k) == LET b == EndPoint(k) shape(z) == CASE k = "lepton" -> Lepton(z) [] k = "pion" -> PionShape(z) [] k = "rho" -> VectorShape(RRho, z)
                                                  [] k = "a1" -> VectorShape(RA1, z) [] k = "hadron" -> Hadron(0)
               IN NMul(NDiv(b, 6), NSum(<<shape(0), NMul(4, shape(NDiv(b, 2))), shape(b)>>))
ASSUME \A k \in Channels \ {"all"} : Near(Integral(k), 1)
ASSUME Near(NSum(<<NMul(2, BrLepton), BrPion, BrRho, BrA1, BrHadron>>), 1)
ASSUME \A k \in Channels \ {"all"}, q \in 0..40 : NLe(0, Channel(k, NMul(EndPoint(k), NDiv(q, 41))))
ASSUME \A k \in Channels \ {"all", "lepton"} : NEq(Channel(k, NMul(EndPoint(k), "1.000001")), 0)
ASSUME Near(Lepton(1), 0)
Consistent == \A s \in Slots : grid[s] # NoGrid =>
    \A i, j \in 0..(Len(grid[s]) - 1), nt \in 0..1 :
       /\ InRange(s, i, j, nt) /\ ~InRange(s, Len(grid[s]), j, nt) /\ ~InRange(s, i, Len(grid[s]), nt) /\ ~InRange(s, i, j, 2)
       /\ Near(Entry("eleall", grid[s], i, j), NMul(Entry("enuall", grid[s], i, j), NDiv(grid[s][j + 1], grid[s][i + 1])))
       /\ Near(Entry("elelep", grid[s], i, j), NMul(Entry("enulep", grid[s], i, j), NDiv(grid[s][j + 1], grid[s][i + 1])))
       /\ \A t \in Tables : Near(Entry(t, [q \in DOMAIN grid[s] |-> NMul(10, grid[s][q])], i, j), NDiv(Entry(t, grid[s], i, j), 10))
=============================================================================
