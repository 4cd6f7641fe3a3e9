---------------------------- MODULE AlignedAlloc ----------------------------
(* Design of an aligned allocator on top of a system allocator that returns any address.                *)
(* The block handed out is the first multiple of the alignment that leaves Hdr bytes in front of it;    *)
(* where the system block started is recorded in those Hdr bytes and read back on release.              *)
(* Model checked: alignment, containment, disjointness, exact release, no write outside own memory.     *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS MaxAddr, Aligns, Sizes, Hdr, MaxLive
VARIABLES sys,     \* system blocks: set of [b, n]
          live,    \* blocks handed out: set of [a, n, al, b]
          mem      \* what the header bytes hold: address of first header byte -> system block start
vars == <<sys, live, mem>>
Over(x, y) == x.b < y.b + y.n /\ y.b < x.b + x.n
RoundUp(x, al) == ((x + al - 1) \div al) * al
Request(n, al) == n + al + Hdr
Init == sys = {} /\ live = {} /\ mem = << >>
Alloc == \E al \in Aligns, n \in Sizes, b \in 1..MaxAddr :
   LET blk == [b |-> b, n |-> Request(n, al)]
       a == RoundUp(b + Hdr, al)
   IN /\ Cardinality(live) < MaxLive
      /\ b + blk.n <= MaxAddr
      /\ \A s \in sys : ~Over(s, blk)
      /\ sys' = sys \cup {blk}
      /\ live' = live \cup {[a |-> a, n |-> n, al |-> al, b |-> b]}
      /\ mem' = ((a - Hdr) :> b) @@ mem
Free == \E v \in live :
   LET b == mem[v.a - Hdr]
   IN /\ \E s \in sys : s.b = b /\ sys' = sys \ {s}
      /\ live' = live \ {v}
      /\ mem' = [x \in DOMAIN mem \ {v.a - Hdr} |-> mem[x]]
Next == Alloc \/ Free
Spec == Init /\ [][Next]_vars
Aligned == \A v \in live : v.a % v.al = 0
Contained == \A v \in live : \E s \in sys : s.b = v.b /\ s.b <= v.a - Hdr /\ v.a + v.n <= s.b + s.n
Disjoint == \A v, w \in live : v # w => (v.a + v.n <= w.a - Hdr \/ w.a + w.n <= v.a - Hdr)
Exact == \A v \in live : mem[v.a - Hdr] = v.b
NoLeak == Cardinality(sys) = Cardinality(live)
=============================================================================
