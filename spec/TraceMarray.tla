---------------------------- MODULE TraceMarray -----------------------------
(* Validates recorded executions of the array class.  "op" events carry the   *)
(* operation, its arguments, its outcome and what the public accessors of     *)
(* every existing array report afterwards (through a varying access path);    *)
(* in between come the allocator's and the elements' own events.              *)
EXTENDS ArrayMem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES arr,   \* existing arrays: slot -> [sh, d]
          alc,   \* slot -> allocator identity
          cfg, l
tvars == <<blk, arr, alc, cfg, l>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e
Step == l' = l + 1

NoCfg == [rk |-> 1, pcca |-> 0, pcma |-> 0, pcs |-> 0, soc |-> 0, led |-> 0, tr |-> 0]
TInit == /\ blk = NoBlk /\ arr = NoBlk /\ alc = NoBlk /\ cfg = NoCfg /\ l = 1

Reset == /\ Is("reset") /\ DOMAIN arr = {} /\ DOMAIN blk = {} /\ cfg' = ev.cfg /\ Step /\ UNCHANGED <<blk, arr, alc>>
End == /\ Is("end") /\ DOMAIN arr = {} /\ DOMAIN blk = {} /\ Step /\ UNCHANGED <<blk, arr, alc, cfg>>

Mem == /\ \/ (Is("alloc") /\ Alloc(ev.b, ev.al, ev.n))
          \/ (Is("free") /\ Free(ev.b, ev.al, ev.n))
          \/ (Is("ctor") /\ Ctor(ev.b, ev.i, ev.n))
          \/ (Is("dtor") /\ Dtor(ev.b, ev.i, ev.n))
       /\ Step /\ UNCHANGED <<arr, alc, cfg>>

\* ------------------------------------------------------------ what each operation means
R == cfg.rk
Tail2(i) == SubSeq(ev.a, i, Len(ev.a))
s1 == ev.a[1]
A1 == arr[ev.a[1]]
A2 == arr[ev.a[2]]
\* the nested initialisers the driver uses; the ragged ones (rag = 1) are just shorter in one dimension
ListShape(rag) == CASE R = 1 -> IF rag = 1 THEN <<2>> ELSE <<3>> [] R = 2 -> <<2, 3>> [] R = 3 -> <<2, 1, 2>> [] R = 4 -> <<1, 2, 1, 2>>
Zeros == [i \in 1..R |-> 0]

\* is the operation one the class must carry out?
Valid ==
  CASE ev.op \in {"new", "newc", "newd", "noinit"} -> Len(Tail2(3)) = R
    [] ev.op = "list" -> (ev.a[3] = 0 \/ R = 1) /\ Tail2(4) = ListShape(ev.a[3])
    [] ev.op = "iter" -> Len(Tail2(3)) = R /\ Prod(Tail2(3)) = Len(ev.v)
    [] ev.op = "lassign" -> (ev.a[2] = 0 \/ R = 1) /\ A1.sh = ListShape(ev.a[2])
    [] ev.op = "resizen" -> Len(Tail2(2)) = R
    [] ev.op = "reshape" -> Len(Tail2(2)) = R /\ Prod(Tail2(2)) = Prod(A1.sh)
    [] OTHER -> TRUE

\* contents of array ev.a[1] after a successful operation
NewVal ==
  CASE ev.op = "new0" -> [sh |-> Zeros, d |-> <<>>]
    [] ev.op \in {"new", "newc", "newd"} -> Full(Tail2(3), 0)
    [] ev.op = "noinit" -> Full(Tail2(3), 7)
    [] ev.op = "list" -> [sh |-> ListShape(ev.a[3]), d |-> SubSeq(ev.v, 1, Prod(ListShape(ev.a[3])))]
    [] ev.op = "iter" -> [sh |-> Tail2(3), d |-> ev.v]
    [] ev.op \in {"copy", "move", "cassign", "massign", "swap"} -> A2
    [] ev.op = "lassign" -> [sh |-> ListShape(ev.a[2]), d |-> SubSeq(ev.v, 1, Prod(ListShape(ev.a[2])))]
    [] ev.op = "set" -> Set(A1, SubSeq(ev.a, 3, 2 + R), ev.v[1])
    [] ev.op = "fill" -> Full(A1.sh, ev.v[1])
    [] ev.op = "insert" -> Insert(A1, ev.a[2], ev.a[3], ev.a[4], ev.v[1])
    [] ev.op = "insertd" -> Insert(A1, ev.a[2], ev.a[3], ev.a[4], 0)
    [] ev.op = "erase" -> Erase(A1, ev.a[2], ev.a[3], ev.a[4])
    [] ev.op = "resize" -> Resize(A1, ev.a[2], ev.a[3], 0)
    [] ev.op = "resizen" -> ResizeTo(A1, Tail2(2), 0)
    [] ev.op = "reshape" -> Reshape(A1, Tail2(2))

Maker == ev.op \in {"new0", "new", "newc", "newd", "noinit", "list", "iter", "copy", "move"}
NewAl ==
  CASE ev.op = "newd" -> 0
    [] ev.op \in {"new0", "new", "newc", "noinit", "list", "iter"} -> ev.a[2]
    [] ev.op = "copy" -> alc[ev.a[2]] + 10 * cfg.soc
    [] ev.op = "move" -> alc[ev.a[2]]
    [] ev.op = "cassign" -> IF cfg.pcca = 1 /\ ev.a[1] # ev.a[2] THEN alc[ev.a[2]] ELSE alc[s1]
    [] ev.op = "massign" -> IF cfg.pcma = 1 THEN alc[ev.a[2]] ELSE alc[s1]
    [] ev.op = "swap" -> IF cfg.pcs = 1 THEN alc[ev.a[2]] ELSE alc[s1]
    [] OTHER -> alc[s1]
\* the array moved from, whose state the class may choose
Loose == IF ev.op \in {"move", "massign"} /\ ev.a[1] # ev.a[2] THEN {ev.a[2]} ELSE {}
\* operations that may leave a valid but changed array behind when they fail half way
Weak == ev.op \in {"resizen", "lassign", "fill", "set"}

\* ------------------------------------------------------------ observations
ObsOf == [s \in {ev.obs[i].s : i \in DOMAIN ev.obs} |-> ev.obs[CHOOSE i \in DOMAIN ev.obs : ev.obs[i].s = s]]
Seen1(o) == [sh |-> o.sh, d |-> o.d]
Coherent(o) ==
  /\ o.rk = R /\ Len(o.sh) = R /\ o.sh2 = o.sh
  /\ o.n = Prod(o.sh) /\ o.n = Len(o.d) /\ o.em = (IF o.n = 0 THEN 1 ELSE 0)
  /\ o.fb = (IF o.n = 0 THEN <<>> ELSE <<o.d[1], o.d[o.n], o.d[1], o.d[o.n]>>)
  /\ (o.c # <<>> => o.c = [k \in 1..o.n |-> Coord(o.sh, k - 1)])

OpStep ==
  /\ Is("op") /\ ev.tmp = 0
  /\ LET O == ObsOf IN
     /\ \A s \in DOMAIN O : Coherent(O[s])
     /\ \/ \* carried out
           /\ ev.r = "ok" /\ Valid
           /\ IF ev.op = "del" THEN
                /\ arr' = [s \in DOMAIN arr \ {s1} |-> arr[s]] /\ alc' = [s \in DOMAIN alc \ {s1} |-> alc[s]]
              ELSE
                /\ (Maker \/ s1 \in DOMAIN arr)
                /\ arr' = [s \in DOMAIN arr \cup {s1} |->
                            IF s \in Loose THEN Seen1(O[s])
                            ELSE IF s = s1 THEN NewVal
                            ELSE IF ev.op = "swap" /\ s = ev.a[2] THEN A1
                            ELSE arr[s]]
                /\ alc' = [s \in DOMAIN arr \cup {s1} |->
                            IF s \in Loose THEN O[s].al
                            ELSE IF s = s1 THEN NewAl
                            ELSE IF ev.op = "swap" /\ s = ev.a[2] /\ cfg.pcs = 1 THEN alc[s1]
                            ELSE alc[s]]
        \/ \* refused: nothing changes
           /\ ev.r = "refused" /\ ~Valid /\ UNCHANGED <<arr, alc>>
        \/ \* failed half way
           /\ ev.r = "fault"
           /\ arr' = [s \in DOMAIN arr |-> IF Weak /\ s = s1 THEN Seen1(O[s]) ELSE arr[s]]
           /\ UNCHANGED alc
     /\ DOMAIN O = DOMAIN arr'
     /\ \A s \in DOMAIN O : O[s].sh = arr'[s].sh /\ O[s].d = arr'[s].d
     /\ cfg.led = 1 =>
          /\ \A s \in DOMAIN O : O[s].al = alc'[s]
          /\ Owned([s \in DOMAIN O |-> [al |-> O[s].al, b |-> O[s].b, n |-> O[s].n]], cfg.tr = 1)
  /\ Step /\ UNCHANGED <<blk, cfg>>

TNext == Reset \/ End \/ Mem \/ OpStep
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(Trace) + 1 THEN PrintT(<<"ACCEPT", Len(Trace)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
View == l
=============================================================================
