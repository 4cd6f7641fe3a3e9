-------------------------------- MODULE Xsec --------------------------------
(* Neutrino cross sections.  An object is a set of tables (three flavours, two neutrino types, two currents), a      *)
(* closed formula, or nothing; files hold tables in the documented text and HDF5 layouts; a library maps targets to  *)
(* objects.  Table values are kept as base-ten logarithms ("dis") or as they are ("v1").                             *)
EXTENDS Interp
VARIABLES objs, files, libs               \* slot -> object; name -> file; slot -> (target -> object)

\* ------------------------------------------------------------------ numbers
Ln10 == TLCEval(NLog(10))
Log10(v) == NDiv(NLog(v), Ln10)
Pow10(v) == NExp(NMul(v, Ln10))
GeV == "1e9"
Tiny == "-50"                              \* stands for the logarithm of zero
SQ(v) == NMul(v, v)

\* ------------------------------------------------------------------ tables
\* one flavour: four totals and four differentials, in the order nu CC, nu NC, nubar CC, nubar NC
Which(t, c) == 1 + 2 * t + (IF c = 0 THEN 0 ELSE 1)
GridOK(xs) == Len(xs) >= 3 /\ Increasing(xs)
Tot(x, y) == Spline(x, y)
Dif(x, z, d) == Bi(d, x, z)
SameSeq(a, c) == Len(a) = Len(c) /\ \A i \in 1..Len(a) : NEq(a[i], c[i])
Uniform(z) == \A j \in 1..Len(z) : NLe(NAbs(NSub(z[j], NDiv(j - 1, Len(z) - 1))), "1e-6")
OneGrid(o) == LET x == o.fl[1].dif[1].x z == o.fl[1].dif[1].y IN
   \A f \in 1..3 : \A i \in 1..4 : SameSeq(o.fl[f].tot[i].x, x) /\ SameSeq(o.fl[f].dif[i].x, x) /\ SameSeq(o.fl[f].dif[i].y, z)
AllUniform(o) == \A f \in 1..3 : \A i \in 1..4 : Uniform(o.fl[f].dif[i].y)

\* ------------------------------------------------------------------ text files
Kinds == <<"nu_sigma_CC.dat", "nu_sigma_NC.dat", "nubar_sigma_CC.dat", "nubar_sigma_NC.dat">>
DKinds == <<"nu_dsde_CC.dat", "nu_dsde_NC.dat", "nubar_dsde_CC.dat", "nubar_dsde_NC.dat">>
FlavName == <<"electron_", "muon_", "tau_">>
TextFile(rows) == [k |-> "txt", rows |-> rows]
Has(n) == n \in DOMAIN files
HasFlav(p) == \A i \in 1..4 : Has(p \o Kinds[i]) /\ Has(p \o DKinds[i])
Rect(rows, c) == Len(rows) > 0 /\ \A i \in 1..Len(rows) : Len(rows[i]) = c
Rows(n) == files[n].rows
\* leading rows with the same first column
RECURSIVE Lead(_, _)
Lead(rows, k) == IF k < Len(rows) /\ NEq(rows[k + 1][1], rows[1][1]) THEN Lead(rows, k + 1) ELSE k
Col(rows, c) == [i \in 1..Len(rows) |-> rows[i][c]]
EOf(v) == NRoundDouble(NMul(v, GeV))
Ends(rows) == <<EOf(rows[1][1]), EOf(rows[Len(rows)][1])>>
T1OK(rows) == Rect(rows, 2) /\ GridOK(Col(rows, 1))
NZ(rows) == Lead(rows, 1)
EStep(rows) == LET z == NZ(rows) IN [j \in 1..(Len(rows) \div z) |-> rows[(j - 1) * z + 1][1]]
T2OK(rows) == Rect(rows, 3) /\ LET z == NZ(rows) IN z < Len(rows) /\ Len(rows) % z = 0 /\ z >= 3 /\ GridOK(EStep(rows))
LogE(v) == Log10(NMul(v, GeV))
ReadTot(rows) == Tot([i \in 1..Len(rows) |-> LogE(rows[i][1])], [i \in 1..Len(rows) |-> Log10(rows[i][2])])
ReadDif(rows) == LET z == NZ(rows) e == EStep(rows) IN
   Dif([j \in 1..Len(e) |-> LogE(e[j])], [i \in 1..z |-> NDiv(i - 1, z - 1)],
       [i \in 1..z |-> [j \in 1..Len(e) |-> LET v == rows[(j - 1) * z + i][3] IN IF NEq(v, 0) THEN Tiny ELSE Log10(v)]])
FlavTextOK(p) == /\ \A i \in 1..4 : T1OK(Rows(p \o Kinds[i])) /\ T2OK(Rows(p \o DKinds[i]))
Prefixes(p) == IF HasFlav(p) THEN <<p>> ELSE IF \A f \in 1..3 : HasFlav(p \o FlavName[f]) THEN [f \in 1..3 |-> p \o FlavName[f]] ELSE << >>
TextOK(p) == LET ps == Prefixes(p) IN
   ps # << >> /\ \A q \in 1..Len(ps) : FlavTextOK(ps[q]) /\ \A i \in 1..4 : \A n \in {ps[q] \o Kinds[i], ps[q] \o DKinds[i]} : SameSeq(Ends(Rows(n)), Ends(Rows(ps[1] \o Kinds[1])))
ReadFlavText(p) == [tot |-> [i \in 1..4 |-> ReadTot(Rows(p \o Kinds[i]))], dif |-> [i \in 1..4 |-> ReadDif(Rows(p \o DKinds[i]))]]
Trio(s) == IF Len(s) = 1 THEN <<s[1], s[1], s[1]>> ELSE s
ReadText(p) == LET ps == Prefixes(p) t == TLCEval([q \in 1..Len(ps) |-> ReadFlavText(ps[q])]) e == Ends(Rows(ps[1] \o Kinds[1])) IN
   [k |-> "dis", emin |-> e[1], emax |-> e[2], fl |-> Trio(t)]
WriteTot(s) == TextFile([i \in 1..Len(s.x) |-> <<NDiv(Pow10(s.x[i]), GeV), Pow10(s.y[i])>>])
WriteDif(b) == LET n == Len(b.y) IN TextFile([r \in 1..(Len(b.x) * n) |-> LET j == ((r - 1) \div n) + 1 i == ((r - 1) % n) + 1 IN <<NDiv(Pow10(b.x[j]), GeV), b.y[i], Pow10(b.f[i][j])>>])
TextOf(o, p) == LET f == [q \in 1..24 |-> LET a == ((q - 1) \div 8) + 1 i == ((q - 1) % 8) + 1 IN
                      IF i <= 4 THEN <<p \o FlavName[a] \o Kinds[i], WriteTot(o.fl[a].tot[i])>> ELSE <<p \o FlavName[a] \o DKinds[i - 4], WriteDif(o.fl[a].dif[i - 4])>>]
                IN f

\* ------------------------------------------------------------------ HDF5 files
\* what a file is described by: energies and zs (logs and fractions), and the tables of each flavour; bad: a table is missing or of the wrong shape
H5File(x, z, fl, bad) == [k |-> "h5", x |-> x, z |-> z, fl |-> fl, bad |-> bad]
ReadH5(n) == LET h == files[n] IN [k |-> "dis", emin |-> Pow10(h.x[1]), emax |-> Pow10(h.x[Len(h.x)]),
     fl |-> TLCEval([f \in 1..3 |-> [tot |-> [i \in 1..4 |-> Tot(h.x, h.fl[f].tot[i])], dif |-> [i \in 1..4 |-> Dif(h.x, h.z, h.fl[f].dif[i])]]])]
\* written in single precision
R4(s) == [i \in 1..Len(s) |-> NRoundFloat(s[i])]
R42(d) == [i \in 1..Len(d) |-> R4(d[i])]
H5Of(o) == H5File(R4(o.fl[1].dif[1].x), R4(o.fl[1].dif[1].y), [f \in 1..3 |-> [tot |-> [i \in 1..4 |-> R4(o.fl[f].tot[i].y)], dif |-> [i \in 1..4 |-> R42(o.fl[f].dif[i].f)]]], FALSE)

\* ------------------------------------------------------------------ the other table class
\* totals s[c][t][f][e] and differentials d[c][t][f][e1][e2] over n energies spaced evenly in their logarithm
V1Names == <<"sigma_CC.dat", "sigma_NC.dat", "dsde_CC.dat", "dsde_NC.dat">>
V1TextOK(p) == /\ \A i \in 1..4 : Has(p \o V1Names[i])
               /\ Rect(Rows(p \o V1Names[1]), 7) /\ Rect(Rows(p \o V1Names[2]), 7)
               /\ LET n == Len(Rows(p \o V1Names[1])) IN n >= 2 /\ Len(Rows(p \o V1Names[2])) = n /\ \A i \in 3..4 : Rect(Rows(p \o V1Names[i]), 8) /\ Len(Rows(p \o V1Names[i])) = n * n
V1Text(p) == LET r == [i \in 1..4 |-> Rows(p \o V1Names[i])] n == Len(r[1]) IN
   [k |-> "v1", n |-> n, x |-> [i \in 1..n |-> NLog(r[1][i][1])], emin |-> EOf(r[1][1][1]), emax |-> EOf(r[1][n][1]),
    s |-> [c \in 1..2 |-> [t \in 1..2 |-> [f \in 1..3 |-> [e \in 1..n |-> r[c][e][2 * f + t - 1]]]]],
    d |-> [c \in 1..2 |-> [t \in 1..2 |-> [f \in 1..3 |-> [e \in 1..n |-> [g \in 1..n |-> r[c + 2][(e - 1) * n + g][2 * f + t]]]]]]]
\* energies from the ends
Even(a, b, n) == LET la == NLog(NDiv(a, GeV)) lb == NLog(NDiv(b, GeV)) IN [i \in 1..n |-> NAdd(la, NDiv(NMul(i - 1, NSub(lb, la)), n - 1))]
V1H5(n) == LET h == files[n] m == Len(h.s[1][1][1]) IN [k |-> "v1", n |-> m, x |-> Even(h.emin, h.emax, m), emin |-> h.emin, emax |-> h.emax, s |-> h.s, d |-> h.d]
V1H5Of(o) == [k |-> "h5v1", emin |-> o.emin, emax |-> o.emax, s |-> o.s, d |-> o.d, bad |-> FALSE]
V1TextOf(o, p) == LET row(c, e) == <<NExp(o.x[e])>> \o [q \in 1..6 |-> o.s[c][((q - 1) % 2) + 1][((q - 1) \div 2) + 1][e]]
                      drow(c, r) == LET e == ((r - 1) \div o.n) + 1 g == ((r - 1) % o.n) + 1 IN <<NExp(o.x[e]), NExp(o.x[g])>> \o [q \in 1..6 |-> o.d[c][((q - 1) % 2) + 1][((q - 1) \div 2) + 1][e][g]]
                  IN [i \in 1..4 |-> <<p \o V1Names[i], TextFile(IF i <= 2 THEN [e \in 1..o.n |-> row(i, e)] ELSE [r \in 1..(o.n * o.n) |-> drow(i - 2, r)])>>]

\* ------------------------------------------------------------------ answers: refused, or a value v known within e
Refuse == [k |-> "refuse"]
Is0 == [k |-> "val", v |-> 0, e |-> 0]
Val(v, e) == [k |-> "val", v |-> v, e |-> e]
Negligible == [k |-> "val", v |-> 0, e |-> "1e-300"]
Active(f) == f \in 0..2
TenGeV == "1e10"
Node(xs, x) == \E i \in 1..Len(xs) : NLe(NAbs(NSub(xs[i], x)), "2e-14")
P10(y, ye) == LET v == Pow10(y) IN Val(v, NAdd("1e-300", NMul(v, NAdd("1e-13", NMul(3, ye)))))
\* inside the table: base-ten logarithm
DisTot(o, E, f, t, c) == LET s == o.fl[f + 1].tot[Which(t, c)] x == Log10(E) IN P10(SVal(s, x), IF Node(s.x, x) THEN "2e-11" ELSE "1e-8")
V1Seg(o, E) == Seg(o.x, NLog(NDiv(E, GeV)))
LinAt(o, E, y) == LET i == V1Seg(o, E) u == NDiv(NSub(NLog(NDiv(E, GeV)), o.x[i]), NSub(o.x[i + 1], o.x[i])) IN NAdd(y[i], NMul(u, NSub(y[i + 1], y[i])))
MaxAbs2(a, b) == NMax(NAbs(a), NAbs(b))
V1Tot(o, E, f, t, c) == LET y == o.s[c + 1][t + 1][f + 1] i == V1Seg(o, E) IN Val(LinAt(o, E, y), NMul("1e-11", MaxAbs2(y[i], y[i + 1])))
Inside(o, E, f, t, c) == IF o.k = "dis" THEN DisTot(o, E, f, t, c) ELSE V1Tot(o, E, f, t, c)
TableTotal(o, E, f, t, c) ==
   IF ~Active(f) THEN Is0 ELSE IF NLt(o.emax, E) THEN Refuse
   ELSE IF NLt(E, TenGeV) /\ NLt(TenGeV, o.emin) THEN Negligible
   ELSE IF NLt(E, o.emin) THEN LET a == Inside(o, o.emin, f, t, c) r == NDiv(E, o.emin) IN Val(NMul(a.v, r), NMul(NAdd(a.e, NMul("1e-14", NAbs(a.v))), r))
   ELSE Inside(o, E, f, t, c)
\* differential in the outgoing energy
ZOf(o, E1, E2) == NDiv(NSub(E2, o.emin), NSub(E1, o.emin))
DisSingle(o, E1, E2, f, t, c) == LET b == o.fl[f + 1].dif[Which(t, c)] x == Log10(E1) z == ZOf(o, E1, E2) w == BiVal(b, x, z)
                                     w0 == BiVal(b, x, 0)
                                     \* below the table the differential does not exceed its value at the table's lower edge
                                     y == IF NLe(E2, o.emin) THEN NMin(w[1], w0[1]) ELSE w[1]
                                     ye == NMul(IF Node(b.x, x) /\ Node(b.y, z) THEN "4e-12" ELSE "4e-9", NAdd(1, NMul("0.25", IF NLe(E2, o.emin) THEN NMax(w[2], w0[2]) ELSE w[2])))
                                 IN IF NLt("0.01", ye) THEN [k |-> "any"] ELSE LET p == P10(y, ye) IN Val(NDiv(p.v, NDiv(E1, GeV)), NAdd("1e-300", NDiv(p.e, NDiv(E1, GeV))))
\* bilinear in the logarithms, except in a cell cut by the diagonal whose upper corner is empty: there the plane through the other three
V1Single(o, E1, E2, f, t, c) ==
   IF NLe(E1, E2) THEN Is0 ELSE
   LET d == o.d[c + 1][t + 1][f + 1] i == V1Seg(o, E1) j == V1Seg(o, E2)
       u == NDiv(NSub(NLog(NDiv(E1, GeV)), o.x[i]), NSub(o.x[i + 1], o.x[i])) w == NDiv(NSub(NLog(NDiv(E2, GeV)), o.x[j]), NSub(o.x[j + 1], o.x[j]))
       mm == d[i][j] mp == d[i][j + 1] pm == d[i + 1][j] pp == d[i + 1][j + 1]
       v == IF i = j /\ NEq(mp, 0) THEN NAdd(mm, NAdd(NMul(u, NSub(pm, mm)), NMul(w, NSub(pp, pm))))
            ELSE LET a == NAdd(mm, NMul(w, NSub(mp, mm))) b == NAdd(pm, NMul(w, NSub(pp, pm))) IN NAdd(a, NMul(u, NSub(b, a)))
   IN Val(v, NMul("1e-11", NMax(MaxAbs2(mm, mp), MaxAbs2(pm, pp))))
TableSingle(o, E1, E2, f, t, c) ==
   IF ~Active(f) THEN Is0 ELSE IF NLt(o.emax, E1) THEN Refuse
   ELSE IF o.k = "dis" THEN (IF NLe(E1, o.emin) THEN Negligible ELSE DisSingle(o, E1, E2, f, t, c))
   ELSE IF NLt(E1, o.emin) THEN Negligible ELSE V1Single(o, E1, E2, f, t, c)
\* resonant scattering of electron antineutrinos on electrons
WMass == "80.385e9"  WWidth == "2.085e9"
BR(f) == CASE f = 0 -> "0.1071" [] f = 1 -> "0.1063" [] f = 2 -> "0.1138" [] OTHER -> "0"
Resonant(f, t, c) == f = 0 /\ t = 1 /\ c = 2
Threshold(o) == NDiv(NSub(SQ(o.mm), SQ(o.me)), NMul(2, o.me))
GlashowTotal(o, E) == LET a == NSub(1, NDiv(Threshold(o), E)) fs == NDiv(NMul(SQ(NDiv(o.gf, o.cm)), o.me), NPi)
                          den == NAdd(SQ(NSub(1, NDiv(NMul(NMul(2, o.me), E), SQ(WMass)))), SQ(NDiv(WWidth, WMass)))
                          v == NDiv(NDiv(NDiv(NMul(NMul(2, fs), NMul(E, SQ(a))), den), BR(1)), 3)
                      IN Val(v, NMul("1e-9", NAdd(v, NDiv(NDiv(NMul(NMul(2, fs), E), den), BR(1)))))
ObjTotal(o, E, f, t, c) == CASE o.k \in {"dis", "v1"} -> TableTotal(o, E, f, t, c)
   [] o.k = "null" -> Is0
   [] o.k = "law" -> LET v == NMul(o.q, NExp(NMul(o.p, NLog(E)))) IN Val(v, NMul("1e-11", NAbs(v)))
   [] o.k = "glashow" -> IF ~Resonant(f, t, c) THEN Is0 ELSE IF NLt(E, Threshold(o)) THEN [k |-> "any"] ELSE GlashowTotal(o, E)
ObjSingle(o, E1, E2, f, t, c) == CASE o.k \in {"dis", "v1"} -> TableSingle(o, E1, E2, f, t, c)
   [] o.k = "null" -> Is0
   [] o.k = "law" -> LET v == NDiv(NMul(o.q, NExp(NMul(o.p, NLog(E2)))), E1) IN Val(v, NMul("1e-11", NAbs(v)))
   [] o.k = "glashow" -> IF ~Resonant(f, t, c) \/ NLt(E1, E2) THEN Is0 ELSE IF NLt(E1, Threshold(o)) THEN [k |-> "any"]
                         ELSE LET a == GlashowTotal(o, E1) w == NMul(NMul(3, BR(1)), NDiv(NMul(SQ(NDiv(E2, E1)), GeV), E1)) IN Val(NMul(a.v, w), NMul(NMul(2, a.e), w))
Meets(a, r, v) == CASE a.k = "refuse" -> r = "refused" [] a.k = "any" -> r = "ok" /\ NIsNum(v) /\ NLe(0, v) [] OTHER -> r = "ok" /\ NLe(NAbs(NSub(v, a.v)), a.e)
\* the mean of a power over an interval
PowMean(q, p, a, b) == IF NEq(a, b) THEN NMul(q, NExp(NMul(p, NLog(a))))
                       ELSE IF NEq(p, "-1") THEN NDiv(NMul(q, NSub(NLog(b), NLog(a))), NSub(b, a))
                       ELSE LET P(x) == NExp(NMul(NAdd(p, 1), NLog(x))) IN NDiv(NMul(q, NSub(P(b), P(a))), NMul(NAdd(p, 1), NSub(b, a)))

\* ------------------------------------------------------------------ transitions
XInit == objs = << >> /\ files = << >> /\ libs = << >>
Put(f, s, r) == [q \in DOMAIN f \cup {s} |-> IF q = s THEN r ELSE f[q]]
RECURSIVE PutAll(_, _)
PutAll(f, ps) == IF ps = << >> THEN f ELSE PutAll(Put(f, ps[1][1], ps[1][2]), Tail(ps))
Make(s, o) == objs' = Put(objs, s, o) /\ UNCHANGED <<files, libs>>
PutFile(n, x) == files' = Put(files, n, x) /\ UNCHANGED <<objs, libs>>
DelFiles(ns) == files' = [q \in DOMAIN files \ ns |-> files[q]] /\ UNCHANGED <<objs, libs>>
\* loading: an existing HDF5 file, or else text files whose names start with n
CanLoadDis(n) == IF Has(n) /\ files[n].k = "h5" THEN ~files[n].bad ELSE TextOK(n)
LoadDis(n) == IF Has(n) /\ files[n].k = "h5" THEN ReadH5(n) ELSE ReadText(n)
CanLoadV1(n) == IF Has(n) THEN files[n].k = "h5v1" /\ ~files[n].bad ELSE V1TextOK(n)
LoadV1(n) == IF Has(n) THEN V1H5(n) ELSE V1Text(n)
CanWriteText(o) == IF o.k = "v1" THEN TRUE ELSE AllUniform(o)
CanWriteH5(o) == IF o.k = "v1" THEN TRUE ELSE OneGrid(o)
WriteText(s, p) == files' = PutAll(files, IF objs[s].k = "dis" THEN TextOf(objs[s], p) ELSE V1TextOf(objs[s], p)) /\ UNCHANGED <<objs, libs>>
WriteH5(s, n) == files' = Put(files, n, IF objs[s].k = "dis" THEN H5Of(objs[s]) ELSE V1H5Of(objs[s])) /\ UNCHANGED <<objs, libs>>
NewLib(s, m) == libs' = Put(libs, s, m) /\ UNCHANGED <<objs, files>>
Registered(s, t) == t \in DOMAIN libs[s]
Register(s, t, o) == libs' = Put(libs, s, Put(libs[s], t, o)) /\ UNCHANGED <<objs, files>>
=============================================================================
