------------------------------ MODULE MC_Body ------------------------------
(* All short histories of two tracks and one body of each kind, with one saved object of each sort.    *)
EXTENDS Body, FiniteSets
MKm == "1"
MCm == "1"
X == <<"0", "0.25", "0.5", "0.75", "1">>
D == <<"8", "8", "6", "3", "3">>
C == <<"0.25", "0.5", "0.5", "0.5", "0.75">>
Kinds == {"vac", "const", "var", "earth", "sun", "sunas", "earthatm"}
Of(k) == IF k = "vac" THEN Vac ELSE IF k = "const" THEN Uniform("3", "0.5") ELSE IF k = "var" THEN Layered(k, <<"0", "10", "20", "40", "50">>, D, C) ELSE Layered(k, X, D, C)
\* what may be constructed
Starts(k) == CASE k \in {"vac", "const"} -> {Line(k, "0", "0", "10"), Line(k, "4", "2", "10")}
  [] k = "var" -> {Line(k, "0", "0", "50"), Line(k, "12", "10", "60")}
  [] k = "sun" -> {Line(k, "0", "0", "695980")}
  [] k = "earth" -> {Chord("0", "0", "12742", "12742"), Chord("0", "0", "5000", "5000"), Chord("100", "100", "200", "5000")}
  [] k = "sunas" -> {SunLine("0", "0", "0"), SunLine("0", "0", "500000"), SunLine("100", "0", "694439")}
  [] k = "earthatm" -> {AtmLine("0", c, EarthR, h) : c \in {"-1", "-0.3", "0", "0.6"}, h \in {"22", "0"}}

VARIABLES step, K
MInit == BInit /\ step = 0 /\ K \in Kinds
Go == step' = step + 1 /\ step < 5 /\ UNCHANGED K
Slots == {1, 2}
MNext == /\ Go
         /\ \/ Build(1, Of(K))
            \/ \E t \in Starts(K) : Lay(1, t)
            \/ \E s \in DOMAIN tracks, d \in Slots : CopyTrack(s, d)
            \/ \E s \in DOMAIN tracks : Reverse(s) \/ \E x \in {tracks[s].xi, tracks[s].xf, NDiv(NAdd(tracks[s].xi, tracks[s].xf), 2)} : SetX(s, x)
            \/ \E s \in DOMAIN tracks : SaveTrack(s, "t")
            \/ \E s \in DOMAIN bodies : SaveBody(s, "b") \/ SetConst(s, TRUE) \/ (K = "earthatm" /\ SetHeight(s, "0"))
            \/ "t" \in DOMAIN saved /\ \E d \in Slots : LoadTrack("t", d)
            \/ "b" \in DOMAIN saved /\ LoadBody("b", 2)
MSpec == MInit /\ [][MNext]_<<bodies, tracks, saved, step, K>>
Tiny(a) == NLe(NAbs(a), "1e-60")
Same60(a, b) == NLe(NAbs(NSub(a, b)), NMul("1e-55", NAdd(1, NAbs(b))))
Geo(t) == [q \in DOMAIN t \ {"x", "xi", "xf"} |-> t[q]]
Ends(t) == {t.xi, t.xf}
\* turning round and moving keep the geometry; turning round keeps the position and is its own inverse
TurnOK == \A s \in DOMAIN tracks : LET t == tracks[s] r == Reversed(t) IN
   /\ Reversed(r) = t /\ r.x = t.x /\ Ends(r) = Ends(t) /\ r.xi = t.xf /\ Geo(r) = Geo(t)
   /\ Geo(Moved(t, "7")) = Geo(t) /\ Moved(t, "7").x = "7"
\* chords start and end on the sphere, are symmetric about their middle and nowhere outside
ChordOK == \A s \in DOMAIN tracks : LET t == tracks[s] At(x) == Moved(t, x) IN
   CASE t.k = "earth" -> /\ Same60(EarthR2(At(0)), SQ(EarthR)) /\ Same60(EarthR2(At(t.base)), SQ(EarthR))
                         /\ \A f \in {"0.1", "0.25", "0.4"} : Same60(EarthR2(At(NMul(f, t.base))), EarthR2(At(NMul(NSub(1, f), t.base))))
                         /\ Same60(EarthR2(At(NDiv(t.base, 2))), NSub(SQ(EarthR), SQ(NDiv(t.base, 2))))
     [] t.k = "sunas" -> /\ Same60(SunR2(At(0)), SQ(SunNuR)) /\ Same60(SunR2(At(SunPath(t.b))), SQ(SunNuR)) /\ Same60(SunR2(At(NDiv(SunPath(t.b), 2))), SQ(t.b))
     [] t.k = "earthatm" -> LET b == [h |-> t.H] IN
                         /\ Same60(AtmR2(b, At(0)), SQ(NAdd(t.R, t.H))) /\ Same60(AtmR2(b, At(t.L)), SQ(t.R)) /\ NLe(0, t.L)
                         /\ NLe("-1e-50", AtmR2(b, At(NDiv(t.L, 2))))
     [] OTHER -> TRUE
\* with this data every answer stays near the table's range (or in the air, or nothing outside), and rounding leaves little room
Consistent(b, t) == Fits(b, t) /\ (t.k = "earthatm" => b.h = t.H)
AnswerOK == \A i \in DOMAIN bodies, s \in DOMAIN tracks : LET b == bodies[i] t == tracks[s] IN Consistent(b, t) =>
   LET d == Density(b, t) c == Composition(b, t) IN
     /\ d.k = "val" /\ c.k = "val"
     /\ NLe("-0.5", d.i[1]) /\ NLe(d.i[2], "9") /\ NLe("-0.1", c.i[1]) /\ NLe(c.i[2], "1.2")
     /\ NLe(NSub(d.i[2], d.i[1]), "1e-4") \/ t.x \in {t.xi, t.xf}
\* a body answers with the table entry at every node
NodesOK == \A i \in DOMAIN bodies : LET b == bodies[i] IN
   b.k = "var" => \A j \in 1..Len(b.d.x) : NEq(SVal(b.d, b.d.x[j]), b.d.y[j]) /\ NEq(SVal(b.c, b.c.x[j]), b.c.y[j])
ConstOK == \A i \in DOMAIN bodies : Cst(bodies[i]) = (bodies[i].k \in {"vac", "const"} \/ bodies[i].icd)
\* what was saved is what is loaded
LoadOK == [][\A d \in DOMAIN tracks' : (d \in DOMAIN tracks /\ tracks'[d] # tracks[d]) => (tracks'[d].k = K)]_<<bodies, tracks, saved, step, K>>
=============================================================================
