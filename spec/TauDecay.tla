----------------------------- MODULE TauDecay -----------------------------
(* Tau decay spectra and the tables built from them (Dutta, Reno, Sarcevic, PRD 62 123001), with      *)
(* polarisation -1.  A table holder is a slot; it has no grid until it is initialised, and its grid    *)
(* is what every entry is computed from.                                                              *)
EXTENDS Num, Sequences
CONSTANT Slots
NoGrid == <<"none">>
VARIABLE grid                          \* slot -> sequence of energies in eV, or NoGrid, or "moved" contents unknown

\* ---------------------------------------------------------------- spectra, as functions of z = Enu/Etau
SQR(x) == NMul(x, x)
RPion == SQR("0.07856")  RRho == SQR("0.43335")  RA1 == SQR("0.70913")
BrLepton == "0.18" BrPion == "0.12" BrRho == "0.26" BrA1 == "0.13" BrHadron == "0.13"
Pol == -1
Cube(z) == NMul(z, SQR(z))
Combine(g0, g1) == NAdd(g0, NMul(Pol, g1))
Lepton(z) == Combine(NSum(<<NDiv(5, 3), NMul(-3, SQR(z)), NMul(NDiv(4, 3), Cube(z))>>),
                     NSum(<<NDiv(1, 3), NMul(-3, SQR(z)), NMul(NDiv(8, 3), Cube(z))>>))
Inside(r, z) == NLt(0, NSub(NSub(1, r), z))
Slope(r, z) == NDiv(NSub(NAdd(NMul(2, z), r), 1), NSub(1, r))
\* two-body decay to a meson of squared mass ratio r: pseudoscalar, or vector/axial (diluted polarisation)
PionShape(z) == Combine(NDiv(1, NSub(1, RPion)), NNeg(NDiv(Slope(RPion, z), NSub(1, RPion))))
VectorShape(r, z) == Combine(NDiv(1, NSub(1, r)), NNeg(NMul(Slope(r, z), NDiv(NSub(1, NMul(2, r)), NAdd(1, NMul(2, r))))))
Pion(z) == IF Inside(RPion, z) THEN PionShape(z) ELSE 0
Rho(z) == IF Inside(RRho, z) THEN VectorShape(RRho, z) ELSE 0
A1(z) == IF Inside(RA1, z) THEN VectorShape(RA1, z) ELSE 0
Hadron(z) == IF NLt(z, "0.3") THEN NDiv(1, "0.3") ELSE 0
All(z) == NSum(<<NMul(2, NMul(BrLepton, Lepton(z))), NMul(BrPion, Pion(z)), NMul(BrRho, Rho(z)), NMul(BrA1, A1(z)), NMul(BrHadron, Hadron(z))>>)
Channel(k, z) == CASE k = "lepton" -> Lepton(z) [] k = "pion" -> Pion(z) [] k = "rho" -> Rho(z)
                   [] k = "a1" -> A1(z) [] k = "hadron" -> Hadron(z) [] k = "all" -> All(z)
Channels == {"lepton", "pion", "rho", "a1", "hadron", "all"}
\* upper end of each channel's spectrum
EndPoint(k) == CASE k = "lepton" -> 1 [] k = "pion" -> NSub(1, RPion) [] k = "rho" -> NSub(1, RRho)
                 [] k = "a1" -> NSub(1, RA1) [] k = "hadron" -> "0.3"

\* ---------------------------------------------------------------- tables, in 1/GeV
GeV(e) == NDiv(e, "1e9")
Tables == {"enuall", "enulep", "eleall", "elelep"}
Spec0(t, z) == IF t \in {"enuall", "eleall"} THEN All(z) ELSE NMul(BrLepton, Lepton(z))
Factor(t, e1, e2) == IF t \in {"enuall", "enulep"} THEN NDiv(1, e1) ELSE NDiv(e2, SQR(e1))
Entry(t, g, i, j) == LET e1 == GeV(g[i + 1]) e2 == GeV(g[j + 1]) IN NMul(Spec0(t, NDiv(e2, e1)), Factor(t, e1, e2))
InRange(s, i, j, nt) == grid[s] # NoGrid /\ nt \in 0..1 /\ i >= 0 /\ i < Len(grid[s]) /\ j >= 0 /\ j < Len(grid[s])

\* ---------------------------------------------------------------- transitions
TInit0 == grid = [s \in Slots |-> NoGrid]
Fill(s, g) == grid' = [grid EXCEPT ![s] = g]
CopyTo(s, t) == grid' = [grid EXCEPT ![t] = grid[s]]
MoveTo(s, t) == grid' = [grid EXCEPT ![t] = grid[s], ![s] = NoGrid]
Clear(s) == grid' = [grid EXCEPT ![s] = NoGrid]
=============================================================================
