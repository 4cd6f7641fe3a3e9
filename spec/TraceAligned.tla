---------------------------- MODULE TraceAligned ----------------------------
(* Recorded histories of aligned allocations against the guarantees of AlignedAlloc.                    *)
(* Addresses and sizes are 64-bit: three base-2^24 limbs, most significant first.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils, TLC, TLCExt
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sys, live, call, own
vars == <<l, sys, live, call, own>>
W == 16777216
\* limb arithmetic on sequences of limbs, least significant first, any length
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Max(x, y) == IF x > y THEN x ELSE y
RECURSIVE AddL(_, _, _, _)
AddL(x, y, i, c) == IF i > Max(Len(x), Len(y)) THEN IF c = 0 THEN << >> ELSE <<c>>
   ELSE LET t == At(x, i) + At(y, i) + c IN <<t % W>> \o AddL(x, y, i + 1, t \div W)
Add(x, y) == AddL(x, y, 1, 0)
\* times a small number (sizes of elements are split so that no product exceeds 2^31)
RECURSIVE MulL(_, _, _, _)
MulL(x, k, i, c) == IF i > Len(x) THEN IF c = 0 THEN << >> ELSE <<c % W, c \div W>>
   ELSE LET t == x[i] * k + c IN <<t % W>> \o MulL(x, k, i + 1, t \div W)
Mul127(x, k) == MulL(x, k, 1, 0)
Mul(x, k) == IF k < 100 THEN Mul127(x, k) ELSE Add(Mul127(Mul127(x, k \div 100), 100), Mul127(x, k % 100))
RECURSIVE LeqL(_, _, _)
LeqL(x, y, i) == IF i = 0 THEN TRUE ELSE IF At(x, i) # At(y, i) THEN At(x, i) < At(y, i) ELSE LeqL(x, y, i - 1)
Leq(x, y) == LeqL(x, y, Max(Len(x), Len(y)))
V(s) == Rev(s)
Pow(p) == IF p < 24 THEN <<2^p>> ELSE <<0, 2^(p - 24)>>
AlignedTo(a, p) == IF p <= 24 THEN At(a, 1) % 2^p = 0 ELSE At(a, 1) = 0 /\ At(a, 2) % 2^(p - 24) = 0
Two64 == <<0, 0, 65536>>
None == [pow |-> 0, sz |-> 0, n |-> << >>]
ev == TraceLog[l]
Is(k) == "e" \in DOMAIN ev /\ ev.e = k
Bytes(c) == Mul(c.n, c.sz)
Init == l = 1 /\ sys = {} /\ live = {} /\ call = None /\ own = [new |-> {}, fail |-> 0, free |-> << >>, in |-> "idle"]
Idle == [new |-> {}, fail |-> 0, free |-> << >>, in |-> "idle"]
Reset == Is("reset") /\ sys' = {} /\ live' = {} /\ call' = None /\ own' = Idle
Call == /\ Is("call") /\ own.in = "idle"
        /\ call' = [pow |-> ev.pow, sz |-> ev.sz, n |-> V(ev.n)]
        /\ own' = [Idle EXCEPT !.in = "alloc"]
        /\ UNCHANGED <<sys, live>>
SysNew == /\ Is("sysnew") /\ own.in \in {"alloc", "array"}
          /\ LET s == [b |-> V(ev.b), n |-> V(ev.n)] IN sys' = sys \cup {s} /\ own' = [own EXCEPT !.new = @ \cup {s}]
          /\ UNCHANGED <<live, call>>
SysFail == /\ Is("sysfail") /\ own.in \in {"alloc", "array"}
           /\ own' = [own EXCEPT !.fail = 1] /\ UNCHANGED <<sys, live, call>>
\* exactly one system block backs the block handed out, and the whole extent lies inside it
Got == /\ Is("got") /\ own.in = "alloc" /\ ev.in
       /\ LET a == V(ev.a) IN
          /\ AlignedTo(a, call.pow)
          /\ Cardinality(own.new) = 1
          /\ \A s \in own.new :
               /\ Leq(s.b, a) /\ Leq(Add(a, Bytes(call)), Add(s.b, s.n))
               /\ live' = live \cup {[a |-> a, n |-> Bytes(call), b |-> s.b]}
          /\ \A v \in live : Leq(Add(v.a, v.n), a) \/ Leq(Add(a, Bytes(call)), v.a)
       /\ own' = Idle /\ call' = None /\ UNCHANGED sys
\* refused: the system was out of memory, or the size is not representable; nothing is kept
Refused == /\ Is("refused") /\ own.in = "alloc" /\ ev.type
           /\ own.new = {}
           /\ own.fail = 1 \/ Leq(Two64, Add(Add(Bytes(call), Add(Pow(call.pow), Pow(call.pow))), <<64>>))
           /\ own' = Idle /\ call' = None /\ UNCHANGED <<sys, live>>
Free == /\ Is("free") /\ own.in = "idle" /\ ev.ok
        /\ \E v \in live : v.a = V(ev.a) /\ live' = live \ {v} /\ own' = [Idle EXCEPT !.in = "free", !.free = v.b]
        /\ UNCHANGED <<sys, call>>
SysDel == /\ Is("sysdel") /\ ev.known /\ ev.guard
          /\ LET b == V(ev.b) IN
             /\ \E s \in sys : s.b = b /\ sys' = sys \ {s}
             /\ \/ own.in = "free" /\ own.free = b /\ own' = [own EXCEPT !.free = << >>, !.in = "freeing"]
                \/ own.in = "array" /\ own' = [own EXCEPT !.new = {s \in @ : s.b # b}]
          /\ UNCHANGED <<live, call>>
Freed == Is("freed") /\ own.in = "freeing" /\ own' = Idle /\ UNCHANGED <<sys, live, call>>
Cmp == /\ Is("cmp") /\ own.in = "idle" /\ \A i \in 1..Len(ev.r) : ev.r[i] = (ev.p = ev.q)
       /\ UNCHANGED <<sys, live, call, own>>
Null == Is("null") /\ own.in = "idle" /\ UNCHANGED <<sys, live, call, own>>
\* an array using the allocator: every buffer it exposes is aligned and inside one block of its own
MBegin == Is("mbegin") /\ own.in = "idle" /\ own' = [Idle EXCEPT !.in = "array"] /\ UNCHANGED <<sys, live, call>>
MData == /\ Is("mdata") /\ own.in = "array" /\ AlignedTo(V(ev.a), ev.pow)
         /\ \E s \in own.new : Leq(s.b, V(ev.a)) /\ Leq(Add(V(ev.a), <<ev.bytes>>), Add(s.b, s.n))
         /\ UNCHANGED <<sys, live, call, own>>
MEnd == Is("mend") /\ own.in = "array" /\ own.new = {} /\ own' = Idle /\ UNCHANGED <<sys, live, call>>
Next == l <= Len(TraceLog) /\ l' = l + 1 /\ (Reset \/ Call \/ SysNew \/ SysFail \/ Got \/ Refused \/ Free \/ SysDel \/ Freed \/ Cmp \/ Null \/ MBegin \/ MData \/ MEnd)
Spec == Init /\ [][Next]_vars
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
View == l
=============================================================================
