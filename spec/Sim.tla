-------------------------------- MODULE Sim --------------------------------
(* A nuSQuIDS simulation: what it has been told, its clock, and the density matrices of its neutrinos.   *)
(*                                                                                                        *)
(* The matrices are kept in the Schroedinger picture and the mass basis, one for each type (1: the only   *)
(* type, or neutrinos; 2: antineutrinos) and energy.  Evolution is exact: the product of the exponentials *)
(* of the Hamiltonian over the uniform layers which are traversed or, when neutrinos are also absorbed,   *)
(* scattered down in energy, regenerated or emitted, the exponential of the whole linear system.          *)
(*                                                                                                        *)
(* Each operation is a function from a simulation and its arguments to [ok |-> .., s |-> ..]: whether it  *)
(* is accepted and what the simulation is afterwards; a refused operation leaves it unchanged.            *)
EXTENDS CMatrix, FiniteSets
CONSTANTS Unit,    \* the values of the units: gf, cm, na, km, gev, gr, me, mp, mn
          MaxDim   \* largest number of flavours
NU == 1  ANTI == 2  BOTH == 3
MASS == 1  FLAVOR == 2  INTERACTION == 3
NSq(a) == NMul(a, a)
Cube3(a) == NMul(a, NMul(a, a))
NSumOf(S(_), n) == NSum([k \in 1..n |-> S(k)])
Fold(f(_, _), b, s) == LET go[k \in 0..Len(s)] == IF k = 0 THEN b ELSE TLCEval(f(go[k - 1], s[k])) IN go[Len(s)]

------------------------------------------------------------------------------
(* Mixing. *)
Rot(n, i, j, t, d) ==
  LET c == NCos(t) s == NSin(t) a == NMul(s, NCos(d)) b == NMul(s, NSin(d))
  IN [re |-> [p \in 1..n |-> [q \in 1..n |-> IF p = q THEN (IF p \in {i, j} THEN c ELSE 1) ELSE IF p = i /\ q = j THEN a ELSE IF p = j /\ q = i THEN NNeg(a) ELSE 0]],
      im |-> [p \in 1..n |-> [q \in 1..n |-> IF (p = i /\ q = j) \/ (p = j /\ q = i) THEN NNeg(b) ELSE 0]]]
Ident(n) == [re |-> [p \in 1..n |-> [q \in 1..n |-> IF p = q THEN 1 ELSE 0]], im |-> [p \in 1..n |-> [q \in 1..n |-> 0]]]
Zero(n) == [re |-> [p \in 1..n |-> [q \in 1..n |-> 0]], im |-> [p \in 1..n |-> [q \in 1..n |-> 0]]]
PairSeq(n) == LET row[j \in 1..n] == IF j = 1 THEN <<>> ELSE row[j - 1] \o [i \in 1..(j - 1) |-> <<i, j>>] IN row[n]
\* the matrix from mass to flavour: later rotations to the left
Mixing(n, th, ph) == Fold(LAMBDA U, p : NCMul(Rot(n, p[1], p[2], th[p[1]][p[2]], ph[p[1]][p[2]]), U), Ident(n), PairSeq(n))
IsAnti(s, r) == s.nt = ANTI \/ (s.nt = BOTH /\ r = 2)
\* the projector of flavour a in the mass basis; antineutrinos mix with the conjugate matrix
ProjU(U, a, anti) == LET n == Len(U.re) x == U.re[a] y == U.im[a] IN
  TLCEval([re |-> [i \in 1..n |-> [j \in 1..n |-> NAdd(NMul(x[i], x[j]), NMul(y[i], y[j]))]],
           im |-> [i \in 1..n |-> [j \in 1..n |-> LET z == NSub(NMul(x[i], y[j]), NMul(y[i], x[j])) IN IF anti THEN NNeg(z) ELSE z]]])
MassProj(n, a) == [Zero(n) EXCEPT !.re[a][a] = 1]
Projs(s) == TLCEval([r \in 1..s.nr |-> [a \in 1..s.n |-> ProjU(s.U, a, IsAnti(s, r))]])
Flat(A) == [k \in 1..Len(A) |-> A[k]]
\* trace of the product of Hermitian matrices
TrP(A, B) == NSum([i \in 1..Len(A.re) |-> NAdd(NDot(A.re[i], B.re[i]), NDot(A.im[i], B.im[i]))])
Trace(A) == NSum([i \in 1..Len(A.re) |-> A.re[i][i]])
CAdd(A, B) == TLCEval([re |-> [i \in DOMAIN A.re |-> [j \in DOMAIN A.re |-> NAdd(A.re[i][j], B.re[i][j])]], im |-> [i \in DOMAIN A.re |-> [j \in DOMAIN A.re |-> NAdd(A.im[i][j], B.im[i][j])]]])
CScale(x, A) == TLCEval([re |-> [i \in DOMAIN A.re |-> [j \in DOMAIN A.re |-> NMul(x, A.re[i][j])]], im |-> [i \in DOMAIN A.re |-> [j \in DOMAIN A.re |-> NMul(x, A.im[i][j])]]])
CDagger(A) == TLCEval([re |-> [i \in DOMAIN A.re |-> [j \in DOMAIN A.re |-> A.re[j][i]]], im |-> [i \in DOMAIN A.re |-> [j \in DOMAIN A.re |-> NNeg(A.im[j][i])]]])
\* -i [H, A] = i A H - i H A; with P = H A and A Hermitian, A H is the conjugate transpose of P
MinusICommutator(H, A) == LET P == NCMul(H, A) IN
  TLCEval([re |-> [i \in DOMAIN A.re |-> [j \in DOMAIN A.re |-> NAdd(P.im[i][j], P.im[j][i])]],
           im |-> [i \in DOMAIN A.re |-> [j \in DOMAIN A.re |-> NSub(P.re[j][i], P.re[i][j])]]])
Anticommutator(G, A) == LET P == NCMul(G, A) IN CAdd(P, CDagger(P))
Combine(x, M, n) == Fold(LAMBDA acc, k : IF NEq(x[k], 0) THEN acc ELSE CAdd(acc, CScale(x[k], M[k])), Zero(n), [k \in 1..Len(x) |-> k])

------------------------------------------------------------------------------
(* The Hamiltonian: masses (w: squared mass differences to the first state) and the potential of matter. *)
Freq(s, E) == [i \in 1..s.n |-> IF s.osc THEN NDiv(s.w[i], NMul(2, E)) ELSE 0]
\* sqrt(2) G_F times the nucleons per volume at a density of 1 g/cm^3
Potential1 == NDiv(NMul(NSqrt(2), NMul(Unit.gf, Unit.na)), Cube3(Unit.cm))
\* charged currents on electrons act on electron flavour; neutral currents on neutrons on the three active flavours
Vcc(lay) == NMul(Potential1, NMul(lay.rho, lay.ye))
Vnc(lay) == NNeg(NMul("0.5", NMul(Potential1, NMul(lay.rho, NSub(1, lay.ye)))))
Ham(s, P, r, e, lay) ==
  LET f == Freq(s, s.E[e]) g == IF IsAnti(s, r) THEN -1 ELSE 1
      v == [a \in 1..s.n |-> NMul(g, IF a = 1 THEN NAdd(Vcc(lay), Vnc(lay)) ELSE IF a <= 3 THEN Vnc(lay) ELSE 0)]
  IN CAdd([Zero(s.n) EXCEPT !.re = [i \in 1..s.n |-> [j \in 1..s.n |-> IF i = j THEN f[i] ELSE 0]]], Combine(v, P[r], s.n))

(* The layers between two positions, in the order in which they are traversed; backwards their lengths are negative. *)
LayersOf(b) == IF b.k = "vac" THEN [at |-> <<>>, rho |-> <<0>>, ye |-> <<1>>] ELSE IF b.k = "const" THEN [at |-> <<>>, rho |-> <<b.rho>>, ye |-> <<b.ye>>] ELSE b
Uniform(b) == Len(LayersOf(b).at) = 0
Between(b, from, to) ==
  LET L == LayersOf(b) m == Len(L.rho) back == NLt(to, from) lo == IF back THEN to ELSE from hi == IF back THEN from ELSE to
      piece(k) == LET p == IF k = 1 THEN lo ELSE NMax(lo, L.at[k - 1]) q == IF k = m THEN hi ELSE NMin(hi, L.at[k]) IN [rho |-> L.rho[k], ye |-> L.ye[k], len |-> IF back THEN NSub(p, q) ELSE NSub(q, p), some |-> NLt(p, q)]
  IN SelectSeq([k \in 1..m |-> TLCEval(piece(IF back THEN m + 1 - k ELSE k))], LAMBDA x : x.some)
LayerAt(b, x) == LET L == LayersOf(b) k == Cardinality({i \in 1..Len(L.at) : NLe(L.at[i], x)}) + 1 IN [rho |-> L.rho[k], ye |-> L.ye[k]]

------------------------------------------------------------------------------
(* Interactions.  xs.tg: the kinds of nucleons ("pn" protons and neutrons, or "iso"); xs.tot and xs.dif:  *)
(* cross sections [target][flavour][type][current 1 charged, 2 neutral][energy](.. [lower energy]);       *)
(* xs.gr: electrons are a target; grs, taus: their resonance and the spectra of tau decays.               *)
Targets(xs) == IF xs.tg = "pn" THEN 2 ELSE 1
TypeOf(s, r) == IF IsAnti(s, r) THEN 2 ELSE 1
Dens(s, lay) ==   \* number densities of the targets
  LET d == NMul(NDiv(Unit.gr, Cube3(Unit.cm)), lay.rho)
  IN IF s.xs.tg = "iso"
     THEN LET x == NDiv(NMul(2, d), NAdd(Unit.me, NAdd(Unit.mp, Unit.mn))) IN <<IF NLt(x, "1e-10") THEN NMul(NDiv(Unit.na, Cube3(Unit.cm)), "1e-10") ELSE x>>
     ELSE IF NEq(lay.ye, 0) THEN <<0, NDiv(d, Unit.mn)>>
     ELSE LET q == NDiv(NSub(1, lay.ye), lay.ye) np == NDiv(d, NAdd(NAdd(Unit.me, Unit.mp), NMul(Unit.mn, q))) IN <<np, NMul(np, q)>>
Frac(s, lay) == IF s.xs.tg = "iso" THEN <<1>> ELSE <<lay.ye, NSub(1, lay.ye)>>
Rate(s, lay, r, a, c, e) == \* per length, of current c
  LET d == TLCEval(Dens(s, lay)) IN NSumOf(LAMBDA t : NMul(d[t], NMul(NSq(Unit.cm), s.xs.tot[t][a][TypeOf(s, r)][c][e])), Targets(s.xs))
RateGR(s, lay, e) == LET d == Dens(s, lay) ne == IF s.xs.tg = "iso" THEN NMul(d[1], lay.ye) ELSE d[1] IN NMul(ne, NMul(NSq(Unit.cm), s.grs.s[e]))
Loss(s, lay, r, a, e) == NAdd(NAdd(Rate(s, lay, r, a, 1, e), Rate(s, lay, r, a, 2, e)), IF s.gr /\ a = 1 /\ IsAnti(s, r) THEN RateGR(s, lay, e) ELSE 0)
\* the spectrum after an interaction at e, at the lower energy j, per energy
Spec(s, lay, r, a, c, e, j) ==
  LET f == Frac(s, lay) q == TypeOf(s, r) IN
  NSumOf(LAMBDA t : IF NEq(s.xs.dif[t][a][q][c][e][j], 0) THEN 0 ELSE NMul(f[t], NDiv(NDiv(s.xs.dif[t][a][q][c][e][j], Unit.gev), s.xs.tot[t][a][q][c][e])), Targets(s.xs))
SpecGR(s, e, j) == NDiv(NDiv(s.grs.d[e][j], Unit.gev), s.grs.s[e])
DE(s, e) == NSub(s.E[e], s.E[e - 1])
\* taus of energy node k from tau neutrinos at e, per incoming neutrino and length
Taus(s, lay, r, e, k) == NMul(NMul(Rate(s, lay, r, 3, 1, e), DE(s, e)), NMul(Spec(s, lay, r, 3, 1, e, k), DE(s, k)))
TauTo(s, lay, r, e, j, tab) == NSum([k \in 1..(e - 1) |-> IF k > j /\ k > 1 THEN NMul(Taus(s, lay, r, e, k), NDiv(tab[k][j], Unit.gev)) ELSE 0])
\* a neutrino (r, e, a) contributes with this factor to (r2, j, b), for j < e
Couple(s, lay, r, e, a, r2, j, b) ==
  IF a > 3 \/ b > 3 \/ j >= e THEN 0
  ELSE NAdd(NAdd(
    IF r = r2 /\ a = b THEN NMul(NMul(Rate(s, lay, r, a, 2, e), DE(s, e)), Spec(s, lay, r, a, 2, e, j)) ELSE 0,
    IF s.tau /\ a = 3 THEN (IF r2 = r /\ b = 3 THEN TauTo(s, lay, r, e, j, s.taus.all[r]) ELSE IF r2 /= r /\ b < 3 THEN TauTo(s, lay, r, e, j, s.taus.lep[r]) ELSE 0) ELSE 0),
    IF s.gr /\ a = 1 /\ r = r2 /\ IsAnti(s, r) THEN NMul(NMul(RateGR(s, lay, e), DE(s, e)), SpecGR(s, e, j)) ELSE 0)
Emit(s, r, e, a) == IF s.src /\ "inj" \in DOMAIN s.body /\ s.body.inj /= <<>> THEN s.body.inj[((e - 1) * s.nr + (r - 1)) * s.n + a] ELSE 0
\* W[r][e][a]: the weights of the flavours at the nodes
Gain(s, lay, W, r, j, b) ==
  NAdd(Emit(s, r, j, b),
       IF ~s.inter THEN 0 ELSE NSum([r2 \in 1..s.nr |-> NSum([e \in 1..s.ne |-> IF e <= j THEN 0 ELSE NSum([a \in 1..s.n |->
          LET c == Couple(s, lay, r2, e, a, r, j, b) IN IF NEq(c, 0) THEN 0 ELSE NMul(c, W[r2][e][a])])])]))

(* The linear system of all matrices.  A Hermitian matrix is n*n real coordinates: diagonal, real parts   *)
(* above it and imaginary parts (of the element above it) below it.  The last coordinate is constant 1.   *)
Coord(A, p, n) == LET i == ((p - 1) \div n) + 1 j == ((p - 1) % n) + 1 IN IF i <= j THEN A.re[i][j] ELSE A.im[j][i]
BasisMat(n, p) == LET i == ((p - 1) \div n) + 1 j == ((p - 1) % n) + 1 IN
  IF i <= j THEN [Zero(n) EXCEPT !.re[i][j] = 1, !.re[j][i] = 1] ELSE [Zero(n) EXCEPT !.im[j][i] = 1, !.im[i][j] = -1]
FromCoord(v, off, n) == TLCEval([re |-> [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN v[off + (i - 1) * n + j] ELSE v[off + (j - 1) * n + i]]],
                         im |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE IF i < j THEN v[off + (j - 1) * n + i] ELSE NNeg(v[off + (i - 1) * n + j])]]])
System(s, P, lay) ==
  LET n == s.n q == n * n d == s.nr * s.ne * q
      R(x) == ((x - 1) \div (s.ne * q)) + 1
      EN(x) == (((x - 1) \div q) % s.ne) + 1
      PP(x) == ((x - 1) % q) + 1
      H == TLCEval([r \in 1..s.nr |-> [e \in 1..s.ne |-> Ham(s, P, r, e, lay)]])
      G == TLCEval([r \in 1..s.nr |-> [e \in 1..s.ne |-> IF s.inter THEN Combine([a \in 1..n |-> IF a <= 3 THEN NMul("0.5", Loss(s, lay, r, a, e)) ELSE 0], P[r], n) ELSE Zero(n)]])
      B == TLCEval([p \in 1..q |-> BasisMat(n, p)])
      loc == TLCEval([r \in 1..s.nr |-> [e \in 1..s.ne |-> [p \in 1..q |-> LET A == CAdd(MinusICommutator(H[r][e], B[p]), IF s.inter THEN CScale(-1, Anticommutator(G[r][e], B[p])) ELSE Zero(n)) IN [x \in 1..q |-> Coord(A, x, n)]]]])
      co == TLCEval([r \in 1..s.nr |-> [a \in 1..n |-> [x \in 1..q |-> Coord(P[r][a], x, n)]]])
      tr == TLCEval([r \in 1..s.nr |-> [a \in 1..n |-> [x \in 1..q |-> TrP(P[r][a], B[x])]]])
      C == TLCEval([r \in 1..s.nr |-> [e \in 1..s.ne |-> [a \in 1..n |-> [r2 \in 1..s.nr |-> [j \in 1..s.ne |-> [b \in 1..n |-> IF s.inter THEN Couple(s, lay, r, e, a, r2, j, b) ELSE 0]]]]]])
      \* the pairs of flavours which are coupled between two nodes
      AB == TLCEval([r \in 1..s.nr |-> [e \in 1..s.ne |-> [r2 \in 1..s.nr |-> [j \in 1..s.ne |-> {ab \in (1..n) \X (1..n) : ~NEq(C[r][e][ab[1]][r2][j][ab[2]], 0)}]]]])
      blk(x, y) == LET r == R(y) e == EN(y) r2 == R(x) j == EN(x) IN
        IF r = r2 /\ e = j THEN loc[r][e][PP(y)][PP(x)]
        ELSE IF AB[r][e][r2][j] = {} THEN 0
        ELSE LET f == [ab \in (1..n) \X (1..n) |-> IF ab \in AB[r][e][r2][j] THEN NMul(C[r][e][ab[1]][r2][j][ab[2]], NMul(co[r2][ab[2]][PP(x)], tr[r][ab[1]][PP(y)])) ELSE 0]
             IN NSum([k \in 1..(n * n) |-> f[<<((k - 1) \div n) + 1, ((k - 1) % n) + 1>>]])
  IN TLCEval([x \in 1..(d + 1) |-> IF x > d THEN [y \in 1..(d + 1) |-> 0]
                           ELSE [y \in 1..(d + 1) |-> IF y > d THEN NSum([a \in 1..n |-> NMul(Emit(s, R(x), EN(x), a), co[R(x)][a][PP(x)])]) ELSE blk(x, y)]])
Vector(s) == LET q == s.n * s.n d == s.nr * s.ne * q IN
  [x \in 1..(d + 1) |-> IF x > d THEN 1 ELSE Coord(s.rho[((x - 1) \div (s.ne * q)) + 1][(((x - 1) \div q) % s.ne) + 1], ((x - 1) % q) + 1, s.n)]

\* the matrices after traversing the layers
Traverse(s, lays) ==
  LET P == Projs(s) IN
  IF s.inter \/ s.src
  THEN LET v == Fold(LAMBDA x, lay : NRExp(System(s, P, lay), lay.len, x), Vector(s), lays) q == s.n * s.n
       IN TLCEval([r \in 1..s.nr |-> [e \in 1..s.ne |-> FromCoord(v, ((r - 1) * s.ne + e - 1) * q, s.n)]])
  ELSE TLCEval([r \in 1..s.nr |-> [e \in 1..s.ne |->
         LET W == Fold(LAMBDA x, lay : NCMul(NCExp(Ham(s, P, r, e, lay), lay.len), x), Ident(s.n), lays) IN NCMul(W, NCMul(s.rho[r][e], CDagger(W)))]])

------------------------------------------------------------------------------
(* Simulations. *)
None == [k |-> "none"]
NoXs == [tg |-> "none"]
Rows0(n) == [i \in 1..n |-> [j \in 1..n |-> 0]]
DefaultTh(n) == IF n < 3 THEN Rows0(n) ELSE [Rows0(n) EXCEPT ![1][2] = "0.583638", ![1][3] = "0.149575", ![2][3] = "0.855211"]
DefaultDm(n) == [i \in 1..n |-> IF i = 2 THEN "7.420e-05" ELSE IF i = 3 THEN "0.002514" ELSE 0]
Fresh(n, nt, E, inter, xs) ==
  [k |-> "live", n |-> n, nt |-> nt, nr |-> IF nt = BOTH THEN 2 ELSE 1, ne |-> IF Len(E) = 0 THEN 1 ELSE Len(E), E |-> E, one |-> Len(E) = 0,
   th |-> DefaultTh(n), ph |-> Rows0(n), dm |-> DefaultDm(n), body |-> [k |-> "none"], track |-> [k |-> "none"], t |-> 0, t0 |-> 0, off |-> 0,
   valid |-> FALSE, has |-> FALSE, rho |-> <<>>, U |-> <<>>, w |-> <<>>, osc |-> TRUE, allow |-> FALSE, basis |-> INTERACTION, pos |-> FALSE,
   inter |-> inter, tau |-> FALSE, gr |-> FALSE, src |-> FALSE, xs |-> xs, taus |-> <<>>, grs |-> <<>>]
Empty == [Fresh(0, NU, <<>>, FALSE, NoXs) EXCEPT !.k = "empty", !.ne = 0, !.nr = 0, !.one = FALSE]
Yes(s) == [ok |-> TRUE, s |-> s]
No(s) == [ok |-> FALSE, s |-> s]
If(c, s, new) == [ok |-> c, s |-> IF c THEN new ELSE s]
HasE(s) == Len(s.E) > 0
HasTrack(s) == s.track.k /= "none"
Position(s) == NSub(s.t, s.off)
Constructible(n, nt, multi) == n >= 3 /\ n <= MaxDim /\ (nt \in {NU, ANTI} \/ (multi /\ nt = BOTH))

\* can the interactions be tabulated from these cross sections?
Usable(s) == /\ HasE(s) /\ s.xs.tg /= "none" /\ s.xs.valid
             /\ (s.gr /\ s.nt /= NU => s.xs.gr)
CanEvolve(s) == /\ s.body.k \notin {"none", "null"} /\ HasTrack(s) /\ s.valid /\ HasE(s) /\ (s.inter => Usable(s))
\* the uniform-density shortcut answers in the mass basis from then on
Shortcut(s) == Uniform(s.body) /\ s.body.k /= "earth" /\ ~s.inter /\ ~s.src /\ s.allow
Evolved(s) ==
  LET x == Position(s) y == NAdd(x, NSub(s.track.b, s.track.a)) IN
  [s EXCEPT !.rho = IF s.has THEN Traverse(s, Between(s.body, x, y)) ELSE s.rho, !.t = NAdd(s.t, NSub(s.track.b, s.track.a)), !.basis = IF Shortcut(s) THEN MASS ELSE s.basis]

Restart(s) == [s EXCEPT !.t = s.track.a, !.t0 = s.track.a, !.off = 0, !.U = Mixing(s.n, s.th, s.ph), !.w = s.dm, !.valid = TRUE, !.has = TRUE]
\* weights v[e][r][a] of the flavour or mass states
WithState(s, v, b) == LET q == Restart(s) P == Projs(q) IN
  [q EXCEPT !.rho = TLCEval([r \in 1..s.nr |-> [e \in 1..s.ne |-> Combine(v[e][r], IF b = FLAVOR THEN P[r] ELSE [a \in 1..s.n |-> MassProj(s.n, a)], s.n)]])]
\* the dimensions d of the array decide what is meant
StateOk(s, d, b) ==
  /\ \A k \in 1..Len(d) : d[k] > 0
  /\ CASE Len(d) = 1 -> d = <<s.n>> /\ s.nt /= BOTH /\ s.ne = 1
       [] Len(d) = 2 -> d = <<s.ne, s.n>> /\ s.nt /= BOTH
       [] OTHER -> d = <<s.ne, s.nr, s.n>> /\ s.nt = BOTH
  /\ b \in {MASS, FLAVOR} /\ HasTrack(s) /\ s.body.k /= "none" /\ HasE(s)
Cell(d, v, e, r, a) == v[CASE Len(d) = 1 -> a [] Len(d) = 2 -> (e - 1) * d[2] + a [] OTHER -> ((e - 1) * d[2] + r - 1) * d[3] + a]

------------------------------------------------------------------------------
(* Questions. *)
OpOf(s, kind, f, r) == IF kind = "flavor" THEN ProjU(s.U, f, IsAnti(s, r)) ELSE MassProj(s.n, f)
AtNode(s, kind, f, e, r) == TrP(OpOf(s, kind, f, r), s.rho[r][e])
RhoOk(s, r) == r <= s.nr
FlavorOk(s, f) == f <= s.n
InRange(s, E) == NLe(s.E[1], E) /\ NLe(E, s.E[s.ne])
Elapsed(s) == NSub(s.t, s.t0)
\* the state between two nodes: their states without the phases of vacuum, interpolated; then the phases at E are put in.
\* Phases above a scale are averaged to nothing (scale "none": never).
Turned(s, A, c, E, scale) == \* A times exp(-i (h_i - h_j)), h from the differences c of frequencies over the elapsed time
  LET tau == Elapsed(s) f == TLCEval(Freq(s, E)) IN
  TLCEval([i \in 1..s.n |-> [j \in 1..s.n |->
    IF scale /= "none" /\ i /= j /\ NLt(scale, NAbs(NMul(tau, NSub(f[i], f[j])))) THEN <<0, 0>>
    ELSE LET p == NMul(tau, NSub(c[i], c[j])) IN <<NAdd(NMul(A.re[i][j], NCos(p)), NMul(A.im[i][j], NSin(p))), NSub(NMul(A.im[i][j], NCos(p)), NMul(A.re[i][j], NSin(p)))>>]])
Square(M, n) == TLCEval([re |-> [i \in 1..n |-> [j \in 1..n |-> M[i][j][1]]], im |-> [i \in 1..n |-> [j \in 1..n |-> M[i][j][2]]]])
From(s, e, r, E, scale) == LET f == TLCEval(Freq(s, E)) g == TLCEval(Freq(s, s.E[e])) IN Square(Turned(s, s.rho[r][e], [i \in 1..s.n |-> NSub(f[i], g[i])], E, scale), s.n)
Node(s, E) == LET S == {k \in 1..(s.ne - 1) : NLe(E, s.E[k + 1])} IN IF s.ne = 1 THEN 1 ELSE CHOOSE k \in S : \A m \in S : k <= m
At(s, kind, f, E, r, scale) ==
  LET k == Node(s, E) op == OpOf(s, kind, f, r) sc == IF s.basis = MASS THEN "none" ELSE scale
      st(e) == IF s.basis = MASS THEN s.rho[r][e] ELSE From(s, e, r, E, sc)
  IN IF s.ne = 1 THEN TrP(op, st(1))
     ELSE LET x == NDiv(NSub(E, s.E[k]), NSub(s.E[k + 1], s.E[k])) IN NAdd(NMul(NSub(1, x), TrP(op, st(k))), NMul(x, TrP(op, st(k + 1))))
------------------------------------------------------------------------------
(* Operations: event a with its arguments on simulation s.  *)
Valid01(n, i) == i >= 0 /\ i < n
Act(s, a) ==
  CASE a.e = "body" -> Yes([s EXCEPT !.body = a.body])
    [] a.e = "track" -> IF a.k = "null" THEN No(s) ELSE Yes([s EXCEPT !.track = [k |-> "t", a |-> a.a, b |-> a.b], !.off = NSub(s.t, a.a)])
    [] a.e = "E" -> If(s.ne = 1, s, [s EXCEPT !.E = <<a.E>>, !.valid = FALSE, !.has = FALSE])
    [] a.e = "st" -> IF StateOk(s, a.d, a.b) THEN Yes(WithState(s, [e \in 1..s.ne |-> [r \in 1..s.nr |-> [x \in 1..s.n |-> Cell(a.d, a.v, e, r, x)]]], a.b)) ELSE No(s)
    [] a.e = "evo" -> IF CanEvolve(s) THEN Yes(Evolved(s)) ELSE No(s)
    [] a.e = "mix" -> If(Valid01(s.n, a.i) /\ Valid01(s.n, a.j), s, [s EXCEPT !.th[a.i + 1][a.j + 1] = a.v, !.valid = FALSE])
    [] a.e = "ph" -> If(Valid01(s.n, a.i) /\ Valid01(s.n, a.j), s, [s EXCEPT !.ph[a.i + 1][a.j + 1] = a.v, !.valid = FALSE])
    [] a.e = "dm" -> If(Valid01(s.n, a.i), s, [s EXCEPT !.dm[a.i + 1] = a.v, !.valid = FALSE])
    [] a.e = "def" -> IF s.n < 3 THEN No(s) ELSE
         Yes([s EXCEPT !.th = [s.th EXCEPT ![1][2] = "0.583638", ![1][3] = "0.149575", ![2][3] = "0.855211"], !.ph[1][3] = 0, !.dm = [s.dm EXCEPT ![2] = "7.420e-05", ![3] = "0.002514"], !.valid = FALSE])
    [] a.e = "osc" -> Yes([s EXCEPT !.osc = a.on, !.has = FALSE])  \* to be followed by a new state
    [] a.e = "allow" -> Yes([s EXCEPT !.allow = a.on])
    [] a.e = "basis" -> If(a.b /= FLAVOR, s, [s EXCEPT !.basis = a.b, !.has = FALSE])
    [] a.e = "tau" -> If(~a.on \/ (s.nt = BOTH /\ s.inter /\ s.n >= 3), s, [s EXCEPT !.tau = a.on])
    [] a.e = "gr" -> If(~a.on \/ s.inter, s, [s EXCEPT !.gr = a.on])
    [] a.e = "src" -> Yes([s EXCEPT !.src = a.on])
    [] a.e = "xs" -> Yes([s EXCEPT !.xs = a.xs])
    [] a.e = "inint" -> If(Usable(s), s, s)
    [] a.e \in {"tol", "rk8", "pos", "posstep", "prog", "h"} -> Yes(s)
    [] OTHER -> Assert(FALSE, a)
(* Construction. *)
Made(a) ==
  CASE a.e = "newe" -> Yes(Empty)
    [] a.e = "new1" -> If(Constructible(a.n, a.nt, FALSE), None, Fresh(a.n, a.nt, <<>>, FALSE, NoXs))
    [] a.e = "newm" -> If(Constructible(a.n, a.nt, TRUE), None, Fresh(a.n, a.nt, a.E, a.inter, a.xs))
(* What a file holds of a simulation, and the simulation which is read from it into the object s. *)
Savable(s) == s.body.k \notin {"none", "null"} /\ HasTrack(s) /\ s.valid /\ HasE(s)
Stored(s) == s
Emission(b) == IF "inj" \in DOMAIN b THEN [b EXCEPT !.inj = <<>>] ELSE b
\* read into s: the configuration of the file, except what files do not hold
ReadInto(s, f) == [f EXCEPT !.allow = s.allow, !.pos = s.pos, !.src = s.src, !.body = Emission(f.body), !.U = Mixing(f.n, f.th, f.ph), !.w = f.dm]
=============================================================================
