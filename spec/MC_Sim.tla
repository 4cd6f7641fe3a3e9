------------------------------ MODULE MC_Sim ------------------------------
(* All short histories of operations on two simulations and one file: what is accepted when, and what it  *)
(* leaves.                                                                                                *)
EXTENDS Sim
McUnit == [gf |-> "1.16639e-23", cm |-> "5.06773093741e4", na |-> "6.02214086e23", km |-> "5.06773093741e9", gev |-> "1e9",
           gr |-> "5.60958616722e32", me |-> "510998.91", mp |-> "938272046", mn |-> "939565379"]
CONSTANT Depth
VARIABLES sim, file, steps, last
vars == <<sim, file, steps, last>>
Dom == {1, 2}
E1 == "1e9"  E2 == "3e9"
Goods == [tg |-> "iso", gr |-> TRUE, valid |-> TRUE]
Events == { [e |-> "body", body |-> [k |-> "vac"]], [e |-> "body", body |-> [k |-> "null"]], [e |-> "track", k |-> "t", a |-> 0, b |-> "1e10"], [e |-> "track", k |-> "null"],
            [e |-> "E", E |-> E1], [e |-> "st", d |-> <<3>>, v |-> <<1, 0, 0>>, b |-> FLAVOR], [e |-> "st", d |-> <<2, 2, 3>>, v |-> <<1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 1, 1>>, b |-> MASS],
            [e |-> "st", d |-> <<4>>, v |-> <<1, 0, 0, 0>>, b |-> FLAVOR], [e |-> "evo"], [e |-> "mix", i |-> 0, j |-> 1, v |-> "0.5"], [e |-> "mix", i |-> 0, j |-> 3, v |-> "0.5"],
            [e |-> "def"], [e |-> "osc", on |-> FALSE], [e |-> "allow", on |-> TRUE], [e |-> "tau", on |-> TRUE], [e |-> "gr", on |-> TRUE], [e |-> "inint"], [e |-> "basis", b |-> MASS] }
MCInit == /\ \E q \in { Empty, Fresh(3, NU, <<>>, FALSE, NoXs), Fresh(3, ANTI, <<E1>>, FALSE, NoXs), Fresh(3, BOTH, <<E1, E2>>, FALSE, NoXs), Fresh(3, BOTH, <<E1, E2>>, TRUE, NoXs), Fresh(3, NU, <<E1>>, TRUE, Goods) } : sim = [x \in Dom |-> IF x = 1 THEN q ELSE Fresh(3, NU, <<>>, FALSE, NoXs)]
          /\ file = None /\ steps = 0 /\ last = "start"
\* interactions are exercised elsewhere: evolving with them is not computed here
Run(s, ev) == IF ev.e = "evo" /\ s.inter THEN IF CanEvolve(s) THEN Yes(s) ELSE No(s) ELSE Act(s, ev)
Do == \E ev \in Events : \E x \in (IF file = None THEN {1} ELSE Dom) : LET a == TLCEval(Run(sim[x], ev)) IN sim' = [sim EXCEPT ![x] = a.s] /\ last' = (IF a.ok THEN ev.e ELSE "no") /\ UNCHANGED file
Put == IF Savable(sim[1]) THEN file' = sim[1] /\ last' = "save" /\ UNCHANGED sim ELSE FALSE
Read == IF file.k /= "none" THEN sim' = [sim EXCEPT ![2] = TLCEval(ReadInto(sim[2], file))] /\ last' = "load" /\ UNCHANGED file ELSE FALSE
Swap == sim' = [sim EXCEPT ![2] = sim[1], ![1] = Empty] /\ last' = "move" /\ UNCHANGED file
MCNext == steps < Depth /\ steps' = steps + 1 /\ (Do \/ Put \/ Read \/ Swap)
MCSpec == MCInit /\ [][MCNext]_vars
Live(s) == s.k = "live"
\* a state which can be evolved belongs to a configured simulation
Configured == \A x \in Dom : LET s == sim[x] IN s.valid => Live(s) /\ HasTrack(s) /\ HasE(s) /\ Len(s.rho) = s.nr /\ \A r \in 1..s.nr : Len(s.rho[r]) = s.ne
\* a moved-from or empty simulation cannot be evolved, saved or asked
Hollow == \A x \in Dom : sim[x].k = "empty" => ~CanEvolve(sim[x]) /\ ~Savable(sim[x]) /\ ~sim[x].valid /\ ~HasE(sim[x])
\* a refused operation changes nothing; an accepted configuration cannot silently keep an outdated state
Refused == [][last' = "no" => sim' = sim]_vars
Outdated == [][last' \in {"mix", "def", "E"} => \E x \in Dom : ~sim'[x].valid /\ \A y \in Dom : y /= x => sim'[y] = sim[y]]_vars
\* the clock: a new state starts at the beginning of the track; evolving takes the length of the track
Clock == [][(last' = "st" => \E x \in Dom : NEq(sim'[x].t, sim'[x].track.a) /\ NEq(Position(sim'[x]), sim'[x].track.a) /\ NEq(Elapsed(sim'[x]), 0))
            /\ (last' = "evo" => \E x \in Dom : sim[x].inter \/ NEq(sim'[x].t, NAdd(sim[x].t, NSub(sim[x].track.b, sim[x].track.a))))]_vars
\* what was saved is what is read
Faithful == [][last' = "load" => LET a == file b == sim'[2] IN a.rho = b.rho /\ a.n = b.n /\ a.nt = b.nt /\ a.E = b.E /\ a.valid = b.valid /\ a.th = b.th /\ a.ph = b.ph /\ a.dm = b.dm /\ a.osc = b.osc /\ a.inter = b.inter
               /\ NEq(a.t, b.t) /\ NEq(a.t0, b.t0) /\ NEq(a.off, b.off) /\ a.track = b.track /\ a.basis = b.basis]_vars
Moved == [][last' = "move" => sim'[2] = sim[1] /\ sim'[1] = Empty]_vars
Same == \A x \in Dom : Live(sim[x]) /\ sim[x].valid => \A r \in 1..sim[x].nr : \A e \in 1..sim[x].ne : NLe(0, Trace(sim[x].rho[r][e]))
Goodness == Configured /\ Hollow /\ Same
=============================================================================
