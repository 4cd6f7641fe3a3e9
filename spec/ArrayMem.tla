------------------------------ MODULE ArrayMem ------------------------------
(* Memory held by arrays: blocks handed out by allocators, the elements alive *)
(* in them, and which array owns which block.                                 *)
EXTENDS Marray
VARIABLE blk      \* serial -> [al |-> allocator, n |-> size, live |-> set of live element indices]

MemInit == blk = <<>>
NoBlk == [x \in {} |-> x]
Alloc(b, al, n) == b \notin DOMAIN blk /\ blk' = [x \in DOMAIN blk \cup {b} |-> IF x = b THEN [al |-> al, n |-> n, live |-> {}] ELSE blk[x]]
\* a block is released once, with its own allocator and size, and holds no live element by then
Free(b, al, n) == /\ b \in DOMAIN blk /\ blk[b].al = al /\ blk[b].n = n /\ blk[b].live = {}
                  /\ blk' = [x \in DOMAIN blk \ {b} |-> blk[x]]
Ctor(b, i, n) == /\ b \in DOMAIN blk /\ i + n <= blk[b].n /\ (i..(i + n - 1)) \cap blk[b].live = {}
                 /\ blk' = [blk EXCEPT ![b].live = @ \cup (i..(i + n - 1))]
Dtor(b, i, n) == /\ b \in DOMAIN blk /\ (i..(i + n - 1)) \subseteq blk[b].live
                 /\ blk' = [blk EXCEPT ![b].live = @ \ (i..(i + n - 1))]

\* own: array -> [al |-> allocator, b |-> block or 0, n |-> size]; between operations every block has one owner
Owned(own, tracked) ==
  /\ \A s \in DOMAIN own : LET o == own[s] IN
       IF o.b = 0 THEN o.n = 0
       ELSE /\ o.b \in DOMAIN blk /\ blk[o.b].al = o.al /\ o.n <= blk[o.b].n
            /\ (tracked => blk[o.b].live = 0..(o.n - 1))
  /\ \A s, t \in DOMAIN own : s # t /\ own[s].b # 0 => own[s].b # own[t].b
  /\ DOMAIN blk = {own[s].b : s \in DOMAIN own} \ {0}
=============================================================================
