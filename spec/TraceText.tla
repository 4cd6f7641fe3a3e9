----------------------------- MODULE TraceText -----------------------------
(* Recorded histories of quickwrite, quickread, fexists and getResourcePath against TextTable. *)
EXTENDS TextTable, Num, TLC, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
ev == TraceLog[l]
At(e) == l <= Len(TraceLog) /\ ev.e = e
Is(e) == At(e) /\ ev.r = "ok"
\* a written value keeps 15 significant digits
Kept(x, y) == IF NEq(x, y) THEN TRUE ELSE NLe(NAbs(NSub(x, y)), NMul("5.2e-15", NAbs(x)))
\* "exact" files were put there as text: the nearest double of each decimal; others were written by quickwrite
Value(n, x, y) == IF n[1] = "text" THEN NEq(NRoundDouble(x), y) ELSE Kept(x, y)
\* a file is kept as <<how, lines>>: the specification's lines are fs[n], how it was made in made[n]
VARIABLE made
PutF == Is("put") /\ Put(ev.n, ev.lines) /\ made' = [made EXCEPT ![ev.n] = "text"]
Write == At("write") /\ ev.r = (IF ev.n \in Names THEN "ok" ELSE "refused")
         /\ IF ev.n \in Names THEN Put(ev.n, ev.rows) /\ made' = [made EXCEPT ![ev.n] = "written"] ELSE UNCHANGED <<fs, env, made>>
Same(n, rows) == LET t == TLCEval(NonBlank(fs[n])) m == made[n] IN
                   /\ Len(rows) = Len(t)
                   /\ \A i \in 1..Len(t) : /\ Len(rows[i]) = Len(t[1])
                                           /\ LET x == t[i] y == rows[i] IN \A j \in 1..Len(x) : Value(<<m>>, x[j], y[j])
Read == At("read") /\ UNCHANGED <<fs, env, made>>
        /\ IF CanRead(ev.n) THEN ev.r = "ok" /\ Same(ev.n, ev.rows) = TRUE /\ (Rows(ev.n) > 0 => ev.ex = <<Rows(ev.n), Cols(ev.n)>>) /\ (Rows(ev.n) = 0 => ev.ex[1] = 0)
           ELSE ev.r = "refused"
\* the file as any other program sees it
Raw == Is("raw") /\ UNCHANGED <<fs, env, made>> /\ Exists(ev.n) /\ Same(ev.n, ev.rows) = TRUE
Rm == Is("rm") /\ Remove(ev.n) /\ UNCHANGED made
Ex == Is("exists") /\ UNCHANGED <<fs, env, made>> /\ ev.v = Exists(ev.n)
Set == Is("setenv") /\ SetEnv(ev.v) /\ UNCHANGED made
Unset == Is("unsetenv") /\ UnsetEnv /\ UNCHANGED made
Res == Is("res") /\ UNCHANGED <<fs, env, made>> /\ ev.v = Resource(ev.installed, ev.inst, ev.src)
TInit == l = 1 /\ Init0 /\ made = [n \in Names |-> "none"]
TNext == (PutF \/ Write \/ Read \/ Raw \/ Rm \/ Ex \/ Set \/ Unset \/ Res) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, fs, env, made>>
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
