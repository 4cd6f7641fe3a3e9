---------------------------- MODULE ArrayMemAlg -----------------------------
(* The small-step design of array operations over the ledger of ArrayMem,     *)
(* with a failure possible at every allocation and element copy: every        *)
(* operation is either "replace" (obtain a new block, fill it, release the    *)
(* old one), "build" (a new array), "exchange" (swap or move of whole blocks) *)
(* or "drop".  Checked: between operations nothing leaks, every block is      *)
(* released by the allocator it came from, and failures change nothing.       *)
EXTENDS ArrayMem, TLC
CONSTANTS Slots, Allocs, MaxN, MaxSerial, PCCA, PCMA, PCS

VARIABLES own, con, pc, job, next, before
vars == <<blk, own, con, pc, job, next, before>>
\* con: array -> contents; job: the operation in progress
None == [kind |-> "none"]
Init == /\ blk = NoBlk /\ own = NoBlk /\ con = NoBlk /\ pc = "idle" /\ job = None /\ next = 1 /\ before = <<NoBlk, NoBlk>>
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* start an operation that fills a new block of array s with contents d using allocator al
Start(kind, s, al, d) ==
  /\ pc = "idle" /\ next <= MaxSerial
  /\ job' = [kind |-> kind, s |-> s, al |-> al, d |-> d, b |-> 0, k |-> 0]
  /\ before' = <<own, con>> /\ pc' = "alloc" /\ UNCHANGED <<blk, own, con, next>>
Build1(s, al, d) == s \notin DOMAIN own /\ Start("build", s, al, d)
CopyOf(s, t) == s \notin DOMAIN own /\ t \in DOMAIN own /\ Start("build", s, own[t].al, con[t])
Edit(s, d) == s \in DOMAIN own /\ Start("replace", s, own[s].al, d)
CopyAssign(s, t) == {s, t} \subseteq DOMAIN own /\ s # t /\ Start("replace", s, IF PCCA THEN own[t].al ELSE own[s].al, con[t])
MoveAssignUnequal(s, t) == {s, t} \subseteq DOMAIN own /\ s # t /\ ~PCMA /\ own[s].al # own[t].al /\ Start("replace", s, own[s].al, con[t])

AllocStep == /\ pc = "alloc" /\ Alloc(next, job.al, Len(job.d)) /\ next' = next + 1
             /\ job' = [job EXCEPT !.b = next] /\ pc' = "fill" /\ UNCHANGED <<own, con, before>>
AllocFail == pc = "alloc" /\ pc' = "idle" /\ job' = None /\ UNCHANGED <<blk, own, con, next, before>> 
FillStep == /\ pc = "fill" /\ job.k < Len(job.d) /\ Ctor(job.b, job.k, 1)
            /\ job' = [job EXCEPT !.k = @ + 1] /\ UNCHANGED <<own, con, pc, next, before>>
FillFail == pc = "fill" /\ job.k < Len(job.d) /\ pc' = "undo" /\ UNCHANGED <<blk, own, con, job, next, before>>
UndoStep == /\ pc = "undo" /\ job.k > 0 /\ Dtor(job.b, job.k - 1, 1) /\ job' = [job EXCEPT !.k = @ - 1]
            /\ UNCHANGED <<own, con, pc, next, before>>
UndoFree == /\ pc = "undo" /\ job.k = 0 /\ Free(job.b, job.al, Len(job.d)) /\ pc' = "idle" /\ job' = None
            /\ UNCHANGED <<own, con, next, before>>
FillDone == /\ pc = "fill" /\ job.k = Len(job.d)
            /\ IF job.kind = "replace" /\ own[job.s].b # 0 THEN pc' = "clear" ELSE pc' = "install"
            /\ UNCHANGED <<blk, own, con, job, next, before>>
ClearOld == /\ pc = "clear" /\ LET o == own[job.s] IN
               IF blk[o.b].live # {} THEN Dtor(o.b, 0, o.n) /\ UNCHANGED pc ELSE Free(o.b, o.al, o.n) /\ pc' = "install"
            /\ UNCHANGED <<own, con, job, next, before>>
Install == /\ pc = "install" /\ own' = Ext(own, job.s, [al |-> job.al, b |-> job.b, n |-> Len(job.d)])
           /\ con' = Ext(con, job.s, job.d) /\ pc' = "idle" /\ job' = None /\ before' = <<own', con'>> /\ UNCHANGED <<blk, next>>

Exchange(s, t) == /\ pc = "idle" /\ {s, t} \subseteq DOMAIN own /\ s # t
                  /\ (PCS \/ PCMA \/ own[s].al = own[t].al)
                  /\ own' = [own EXCEPT ![s] = own[t], ![t] = own[s]] /\ con' = [con EXCEPT ![s] = con[t], ![t] = con[s]]
                  /\ before' = <<own', con'>> /\ UNCHANGED <<blk, pc, job, next>>
MoveOut(s, t) == /\ pc = "idle" /\ t \in DOMAIN own /\ s \notin DOMAIN own
                 /\ own' = Ext([own EXCEPT ![t] = [al |-> own[t].al, b |-> 0, n |-> 0]], s, own[t])
                 /\ con' = Ext([con EXCEPT ![t] = <<>>], s, con[t]) /\ before' = <<own', con'>> /\ UNCHANGED <<blk, pc, job, next>>
Drop1(s) == /\ pc = "idle" /\ s \in DOMAIN own /\ LET o == own[s] IN
               IF o.b = 0 THEN own' = Without(own, s) /\ con' = Without(con, s) /\ UNCHANGED blk
               ELSE /\ blk[o.b].al = o.al /\ blk[o.b].n = o.n /\ blk[o.b].live = 0..(o.n - 1)
                    /\ blk' = Without(blk, o.b) /\ own' = Without(own, s) /\ con' = Without(con, s)
            /\ before' = <<own', con'>> /\ UNCHANGED <<pc, job, next>>

Contents == UNION {[1..n -> {1}] : n \in 0..MaxN}
Next == \/ \E s \in Slots : \E al \in Allocs : \E d \in Contents : Build1(s, al, d)
        \/ \E s \in Slots : \E d \in Contents : Edit(s, d)
        \/ \E s, t \in Slots : CopyOf(s, t) \/ CopyAssign(s, t) \/ MoveAssignUnequal(s, t) \/ Exchange(s, t) \/ MoveOut(s, t)
        \/ AllocStep \/ AllocFail \/ FillStep \/ FillFail \/ UndoStep \/ UndoFree \/ FillDone \/ ClearOld \/ Install
        \/ \E s \in Slots : Drop1(s)
Spec == Init /\ [][Next]_vars

Ledger == pc = "idle" => Owned(own, TRUE)
Strong == pc = "idle" => <<own, con>> = before
SizesAgree == \A s \in DOMAIN own : own[s].n = Len(con[s])
\* nothing an operation needs is ever impossible: a started operation can always go on
Progress == pc # "idle" => ENABLED Next
=============================================================================
