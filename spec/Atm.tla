-------------------------------- MODULE Atm --------------------------------
(* An atmospheric set: one simulation for each zenith angle, all in the same Earth, evolved together by   *)
(* any number of threads and read off between the angles and energies.                                    *)
EXTENDS Sim
RADIUS == 6371
\* the way through the Earth: from the top of the atmosphere to the detector on the surface
Way(c, h) == LET R == NMul(RADIUS, Unit.km) T == NMul(NAdd(RADIUS, h), Unit.km) IN NSub(NSqrt(NSub(NSq(T), NMul(NSq(R), NSub(1, NSq(c))))), NMul(R, c))
\* an Earth whose density changes halfway along each way, in an atmosphere of a height
BodyAt(earth, L) == IF earth.k = "prem" THEN [k |-> "earth"] ELSE [k |-> "lay", earth |-> TRUE, at |-> <<NMul("0.5", L)>>, rho |-> <<earth.r1, earth.r2>>, ye |-> <<earth.y1, earth.y2>>, inj |-> <<>>]
Placed(s, earth, c) == LET L == Way(c, earth.h) IN Act(Act(s, [e |-> "body", body |-> BodyAt(earth, L)]).s, [e |-> "track", k |-> "t", a |-> 0, b |-> L]).s
Prem == [k |-> "prem", h |-> 22]
NoAtm == [k |-> "none"]
HollowAtm == [k |-> "hollow", c |-> <<>>, s |-> <<>>, ini |-> FALSE, thr |-> 1, earth |-> Prem]
FreshAtm(c, n, nt, E, inter, xs) == [k |-> "live", c |-> c, s |-> [i \in 1..Len(c) |-> TLCEval(Placed(Fresh(n, nt, E, inter, xs), Prem, c[i]))], ini |-> FALSE, thr |-> 1, earth |-> Prem]
YesA(a) == [ok |-> TRUE, a |-> a]
NoA(a) == [ok |-> FALSE, a |-> a]
\* the same operation on every simulation of the set
Each(a, ev) == LET r == TLCEval([i \in 1..Len(a.s) |-> Act(a.s[i], ev)]) IN
  [ok |-> \A i \in 1..Len(r) : r[i].ok, a |-> [a EXCEPT !.s = [i \in 1..Len(r) |-> r[i].s]]]
\* the part of an array of dimensions d which belongs to the angle i
Slice(d, v, i) == LET m == Fold(LAMBDA x, y : x * y, 1, Tail(d)) IN SubSeq(v, (i - 1) * m + 1, i * m)
StateA(a, d, v, b) ==
  IF a.k /= "live" \/ d[1] /= Len(a.c) THEN NoA(a)
  ELSE LET q == [i \in 1..Len(a.s) |-> [e |-> "st", d |-> Tail(d), v |-> Slice(d, v, i), b |-> b]]
           ok == \A i \in 1..Len(a.s) : StateOk(a.s[i], Tail(d), b)
       IN IF ok THEN YesA([a EXCEPT !.s = TLCEval([i \in 1..Len(a.s) |-> Act(a.s[i], q[i]).s]), !.ini = TRUE])
          \* those before the first which refuses have it already
          ELSE NoA([a EXCEPT !.s = [i \in 1..Len(a.s) |-> IF \E j \in 1..Len(a.s) : j < i /\ ~StateOk(a.s[j], Tail(d), b) THEN a.s[i] ELSE Act(a.s[i], q[i]).s]])
\* where one of them cannot, nothing more is said about the states of the others
EvolveA(a) ==
  IF a.k /= "live" \/ ~a.ini THEN NoA(a)
  ELSE IF \A i \in 1..Len(a.s) : CanEvolve(a.s[i]) THEN YesA([a EXCEPT !.s = TLCEval([i \in 1..Len(a.s) |-> Evolved(a.s[i])])])
  ELSE NoA([a EXCEPT !.s = [i \in 1..Len(a.s) |-> [a.s[i] EXCEPT !.has = FALSE]]])
EarthA(a, earth) == YesA([a EXCEPT !.earth = earth, !.s = [i \in 1..Len(a.s) |-> TLCEval(Placed(a.s[i], earth, a.c[i]))]])

(* Between angles and energies: the states of the four neighbours without the phases of vacuum are        *)
(* weighted linearly, and the phases of vacuum at the energy are put in for the time of the way at the    *)
(* angle, as far as its neighbours have gone along theirs.                                                *)
InGrid(x, grid) == NLe(grid[1], x) /\ NLe(x, grid[Len(grid)])
NodeOf(x, grid) == LET S == {k \in 1..(Len(grid) - 1) : NLe(x, grid[k + 1])} IN IF Len(grid) = 1 THEN 1 ELSE CHOOSE k \in S : \A m \in S : k <= m
Next(k, grid) == IF k < Len(grid) THEN k + 1 ELSE k
Weight(x, grid) == LET k == NodeOf(x, grid) IN IF Len(grid) = 1 THEN 0 ELSE NDiv(NSub(x, grid[k]), NSub(grid[k + 1], grid[k]))
Gone(s) == NDiv(Elapsed(s), NSub(s.track.b, s.track.a))
Inter(a, c) == LET k == NodeOf(c, a.c) IN NMul(NMul("0.5", Way(c, a.earth.h)), NAdd(Gone(a.s[k]), Gone(a.s[Next(k, a.c)])))
\* the matrix of s at node e, with the phases of vacuum of its time replaced by those of energy E at time t
Carried(s, r, e, E, t, scale) ==
  LET f == TLCEval(Freq(s, E)) g == TLCEval(Freq(s, s.E[e])) A == s.rho[r][e]
      ph == TLCEval([i \in 1..s.n |-> NSub(NMul(t, f[i]), NMul(Elapsed(s), g[i]))])
      el(i, j) == IF scale /= "none" /\ i /= j /\ NLt(scale, NAbs(NMul(t, NSub(f[i], f[j])))) THEN <<0, 0>>
                  ELSE LET p == NSub(ph[i], ph[j]) IN <<NAdd(NMul(A.re[i][j], NCos(p)), NMul(A.im[i][j], NSin(p))), NSub(NMul(A.im[i][j], NCos(p)), NMul(A.re[i][j], NSin(p)))>>
  IN Square([i \in 1..s.n |-> [j \in 1..s.n |-> TLCEval(el(i, j))]], s.n)
Read(a, f, c, E, r, scale) ==
  LET t == TLCEval(Inter(a, c)) s == a.s[1] x == TLCEval(Weight(c, a.c)) y == TLCEval(Weight(E, s.E)) k == NodeOf(c, a.c) e == NodeOf(E, s.E)
      op == ProjU(s.U, f, IsAnti(s, r))
      one(i) == NAdd(NMul(NSub(1, y), TrP(op, Carried(a.s[i], r, e, E, t, scale))), NMul(y, TrP(op, Carried(a.s[i], r, Next(e, s.E), E, t, scale))))
  IN NAdd(NMul(NSub(1, x), one(k)), NMul(x, one(Next(k, a.c))))
ReadOk(a, f, c, E, r) == a.k = "live" /\ a.ini /\ f >= 1 /\ f <= a.s[1].n /\ r >= 1 /\ r <= a.s[1].nr /\ InGrid(c, a.c) /\ InGrid(E, a.s[1].E)
Known(a) == \A i \in 1..Len(a.s) : a.s[i].has
=============================================================================
