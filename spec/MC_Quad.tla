------------------------------ MODULE MC_Quad ------------------------------
(* The algorithm as a state machine, checked on steps, kinks and polynomials: the accepted intervals and those still *)
(* to do always tile the interval; the run ends; polynomials up to degree 9 are integrated exactly on every path;    *)
(* when nothing is stuck, every part met the tolerance; a jump that is never accepted is reported.                   *)
EXTENDS AdaptiveQuad, FiniteSets
CONSTANT Big
VARIABLES p, lo, hi, tol, pc, T, todo, done, stuck
vars == <<p, lo, hi, tol, pc, T, todo, done, stuck>>
Mono(n) == [k \in 1..(n + 1) |-> IF k = n + 1 THEN "3" ELSE IF k % 2 = 1 THEN "1" ELSE "-2"]
Polys == {[brk |-> <<>>, sh |-> "0", c |-> <<Mono(n)>>] : n \in IF Big THEN 0..18 ELSE {0, 1, 3, 5, 6, 8, 9, 10, 13, 17}}
Steps == {[brk |-> <<x>>, sh |-> "0", c |-> <<<<"1">>, <<"2">>>>] : x \in IF Big THEN {"0.1", "0.3333", "0.51", "0.77", "0.999"} ELSE {"0.3333", "0.77"}}
Kinks == {[brk |-> <<x>>, sh |-> x, c |-> <<<<"0", "-1">>, <<"0", "1">>>>] : x \in {"0.3", "0.62"}}
Fs == Polys \cup Steps \cup Kinks
IsPoly == p.brk = <<>>
Deg == Len(p.c[1]) - 1
Init == /\ p \in Fs /\ lo \in {"0"} /\ hi \in {"1"} \cup (IF Big THEN {"3"} ELSE {}) /\ tol \in {"1e-3", "1e-6", "1e-12"}
        /\ pc = "start" /\ T = "0" /\ todo = <<>> /\ done = <<>> /\ stuck = FALSE
Begin == /\ pc = "start"
         /\ LET e == Est(p, lo, hi, F(p, lo), F(p, hi), TRUE) s == Start(e, tol) IN
            IF s.acc \/ s.amb THEN pc' = "end" /\ done' = <<[e EXCEPT !.v = e.k13]>> /\ UNCHANGED <<T, todo, stuck>>
            ELSE pc' = "work" /\ T' = s.T /\ todo' = Parts(p, e) /\ UNCHANGED <<done, stuck>>
         /\ UNCHANGED <<p, lo, hi, tol>>
Work == /\ pc = "work"
        /\ IF todo = <<>> THEN pc' = "end" /\ UNCHANGED <<todo, done, stuck>>
           ELSE LET e == Head(todo) f == Fate(e, T) IN
                /\ pc' = pc
                /\ todo' = IF f = "split" THEN Parts(p, e) \o Tail(todo) ELSE Tail(todo)
                /\ done' = IF f = "split" THEN done ELSE Append(done, e)
                /\ stuck' = (stuck \/ f = "stuck")
        /\ UNCHANGED <<p, lo, hi, tol, T>>
Next == Begin \/ Work \/ (pc = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Work)
All == done \o todo
Tiled == pc # "start" => /\ NEq(All[1].a, lo) /\ NEq(All[Len(All)].b, hi)
                         /\ \A i \in 1..(Len(All) - 1) : NEq(All[i].b, All[i + 1].a)
                         /\ \A i \in 1..Len(All) : NLt(All[i].a, All[i].b)
\* endpoint values travel with the intervals
Consistent == \A i \in 1..Len(All) : NEq(All[i].fa, F(p, All[i].a)) /\ NEq(All[i].fb, F(p, All[i].b))
Val == NSum([i \in 1..Len(done) |-> done[i].v])
Size == NSum([i \in 1..Len(done) |-> done[i].size])
ExactPoly == (pc = "end" /\ IsPoly /\ Deg <= 9) => NLe(NAbs(NSub(Val, Exact(p, lo, hi))), NMul("2e-14", Size))
Smooth == (pc = "end" /\ IsPoly) => NLe(NAbs(NSub(Val, Exact(p, lo, hi))), NMul(NMul(10, tol), Size))
Honest == (pc = "end" /\ Len(done) > 1 /\ ~stuck) => \A i \in 1..Len(done) : NLe(done[i].d, T)
\* a step that the whole-interval estimate did not accept can only end within tolerance if the interval left is tiny
Jump == (pc = "end" /\ p \in Steps /\ Len(done) > 1) => \E i \in 1..Len(done) : NLt(done[i].a, p.brk[1]) /\ NLe(p.brk[1], done[i].b) /\ (stuck \/ NLe(NMul("0.1", NSub(done[i].b, done[i].a)), NMul(2, T)))
Terminates == <>(pc = "end")
Walk == Len(todo) <= 80
=============================================================================
