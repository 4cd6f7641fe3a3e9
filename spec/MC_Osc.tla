------------------------------ MODULE MC_Osc ------------------------------
(* The laws of oscillation in Sim, over all short histories of legs in different media, from pure and     *)
(* mixed states, for neutrinos and antineutrinos, with and without the CP phase.                          *)
EXTENDS Sim
McUnit == [gf |-> "1.16639e-23", cm |-> "5.06773093741e4", na |-> "6.02214086e23", km |-> "5.06773093741e9", gev |-> "1e9",
           gr |-> "5.60958616722e32", me |-> "510998.91", mp |-> "938272046", mn |-> "939565379"]
CONSTANT Depth
VARIABLES s, s0, legs
vars == <<s, s0, legs>>
Km(x) == NMul(x, Unit.km)
Media == <<[k |-> "lay", at |-> <<Km(200), Km(700)>>, rho |-> <<3, "11.5", 5>>, ye |-> <<"0.5", "0.466", 1>>, inj |-> <<>>],
           [k |-> "const", rho |-> 4, ye |-> "0.5"], [k |-> "vac"]>>
Made0(nt, ph, f, b) == LET x == [Fresh(3, nt, <<Unit.gev, NMul("2.5", Unit.gev)>>, FALSE, NoXs) EXCEPT !.ph[1][3] = ph, !.body = [k |-> "vac"], !.track = [k |-> "t", a |-> 0, b |-> 1]]
  IN WithState(x, [e \in 1..2 |-> [r \in 1..x.nr |-> [a \in 1..3 |-> IF a = f THEN 1 ELSE 0]]], b)
Leg(x, m, a, b) == Act(Act(Act(x, [e |-> "body", body |-> m]).s, [e |-> "track", k |-> "t", a |-> a, b |-> b]).s, [e |-> "evo"]).s
Ways == <<<<0, Km(1000)>>, <<Km(900), Km(-100)>>, <<Km(100), Km(400)>>>>
MCInit == \E nt \in {NU, ANTI} : \E ph \in {"0", "1.2"} : \E f \in 1..3 : \E b \in {FLAVOR, MASS} :
            s0 = TLCEval(Made0(nt, ph, f, b)) /\ s = s0 /\ legs = <<>>
Go(m, w) == Len(legs) < Depth /\ s' = TLCEval(Leg(s, Media[m], Ways[w][1], Ways[w][2])) /\ legs' = Append(legs, <<m, w>>) /\ UNCHANGED s0
MCNext == \E m \in 1..3 : \E w \in 1..3 : Go(m, w)
MCSpec == MCInit /\ [][MCNext]_vars
Eps == "1e-25"
Near(a, b) == NLe(NAbs(NSub(a, b)), Eps)
NearM(A, B) == \A i \in DOMAIN A.re : \A j \in DOMAIN A.re : Near(A.re[i][j], B.re[i][j]) /\ Near(A.im[i][j], B.im[i][j])
All(P(_, _)) == \A r \in 1..s.nr : \A e \in 1..s.ne : P(r, e)
\* flavours are a basis
Mixes == NearM(NCMul(s.U, CDagger(s.U)), Ident(3))
\* nothing is lost, and what is found in each flavour or mass is between nothing and all of it
Conserved == All(LAMBDA r, e : Near(Trace(s.rho[r][e]), 1) /\ \A k \in {"flavor", "mass"} : Near(NSum([f \in 1..3 |-> AtNode(s, k, f, e, r)]), 1)
                  /\ \A f \in 1..3 : NLe(NSub(0, Eps), AtNode(s, k, f, e, r)) /\ NLe(AtNode(s, k, f, e, r), NAdd(1, Eps)))
Hermitian == All(LAMBDA r, e : NearM(s.rho[r][e], CDagger(s.rho[r][e])) /\ NearM(NCMul(s.rho[r][e], s.rho[r][e]), s.rho[r][e]))
\* a leg walked in two parts, and a leg walked forth and back
Parts == \A m \in 1..3 : LET once == Leg(s, Media[m], 0, Km(1000)) half == Leg(Leg(s, Media[m], 0, Km(350)), Media[m], Km(350), Km(1000)) back == Leg(once, Media[m], Km(1000), 0) IN
           All(LAMBDA r, e : NearM(once.rho[r][e], half.rho[r][e]) /\ NearM(back.rho[r][e], s.rho[r][e]))
\* in vacuum masses do not mix; without phase neutrinos and antineutrinos agree in vacuum
Vacuum == (\A k \in 1..Len(legs) : legs[k][1] = 3) => All(LAMBDA r, e : \A f \in 1..3 : Near(AtNode(s, "mass", f, e, r), AtNode(s0, "mass", f, e, r)))
\* antineutrinos are neutrinos with the opposite phase and the opposite potential: in vacuum the phase alone
Twin(x) == WithState([x EXCEPT !.nt = IF x.nt = NU THEN ANTI ELSE NU, !.ph[1][3] = NNeg(x.ph[1][3])], [e \in 1..2 |-> [r \in 1..1 |-> [a \in 1..3 |-> AtNode(x, "flavor", a, e, 1)]]], FLAVOR)
Conjugate == Len(legs) = 0 /\ (\E f \in 1..3 : Near(AtNode(s, "flavor", f, 1, 1), 1)) =>
               LET a == Leg(s, Media[3], 0, Km(800)) b == Leg(Twin(s), Media[3], 0, Km(800)) IN All(LAMBDA r, e : \A f \in 1..3 : Near(AtNode(a, "flavor", f, e, r), AtNode(b, "flavor", f, e, r)))
\* at the nodes the answer between nodes is the answer at the node
Nodes == All(LAMBDA r, e : \A f \in 1..3 : Near(At(s, "flavor", f, s.E[e], r, "none"), AtNode(s, "flavor", f, e, r)))
Laws == Mixes /\ Conserved /\ Hermitian /\ Parts /\ Vacuum /\ Conjugate /\ Nodes
=============================================================================
