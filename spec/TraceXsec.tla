------------------------------ MODULE TraceXsec ------------------------------
(* Recorded cross-section histories against Xsec. *)
EXTENDS Xsec, Json, IOUtils
TraceLog == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
ev == TraceLog[l]
Is(e) == l <= Len(TraceLog) /\ ev.e = e
OK(e) == Is(e) /\ ev.r = "ok"
Same == UNCHANGED <<objs, files, libs>>
Obj == objs[ev.s]
RelClose(a, b, tol) == NLe(NAbs(NSub(a, b)), NMul(tol, NAbs(b)))
PutText == OK("put") /\ PutFile(ev.n, TextFile(ev.rows))
PutH5 == OK("h5put") /\ PutFile(ev.n, IF ev.k = "dis" THEN H5File(ev.x, ev.z, ev.fl, ev.bad) ELSE [k |-> "h5v1", emin |-> ev.emin, emax |-> ev.emax, s |-> ev.sg, d |-> ev.d, bad |-> ev.bad])
Del == OK("del") /\ DelFiles({ev.n[i] : i \in 1..Len(ev.n)})
Load == /\ Is("load")
        /\ IF (IF ev.k = "dis" THEN CanLoadDis(ev.p) ELSE CanLoadV1(ev.p))
           THEN /\ ev.r = "ok" /\ ev.open = 0
                /\ LET o == IF ev.k = "dis" THEN LoadDis(ev.p) ELSE LoadV1(ev.p) IN
                     /\ RelClose(ev.emin, o.emin, "2e-13") /\ RelClose(ev.emax, o.emax, "2e-13")
                     /\ IF ev.k = "v1" THEN ev.n = o.n /\ ev.init ELSE TRUE
                     /\ Make(ev.s, [o EXCEPT !.emin = ev.emin, !.emax = ev.emax])
           ELSE ev.r = "refused" /\ ev.open = 0 /\ Same
Mk == OK("mk") /\ Make(ev.s, IF ev.k = "law" THEN [k |-> "law", p |-> ev.p, q |-> ev.q] ELSE IF ev.k = "null" THEN [k |-> "null"] ELSE [k |-> "glashow", gf |-> ev.gf, cm |-> ev.cm, me |-> ev.me, mm |-> ev.mm])
WT == /\ Is("wt") /\ ev.open = 0
      /\ IF ~ev.dir \/ ~CanWriteText(Obj) THEN ev.r = "refused" /\ Same ELSE ev.r = "ok" /\ WriteText(ev.s, ev.p)
WH == /\ Is("wh") /\ ev.open = 0
      /\ IF ~ev.dir \/ ~CanWriteH5(Obj) THEN ev.r = "refused" /\ Same ELSE ev.r = "ok" /\ WriteH5(ev.s, ev.p)
Tot1 == Is("tot") /\ Same /\ Meets(ObjTotal(Obj, ev.E, ev.f, ev.t, ev.c), ev.r, IF ev.r = "ok" THEN ev.v ELSE 0)
Sd == Is("sd") /\ Same /\ Meets(ObjSingle(Obj, ev.E, ev.F, ev.f, ev.t, ev.c), ev.r, IF ev.r = "ok" THEN ev.v ELSE 0)
Dd == Is("dd") /\ Same /\ IF Obj.k \in {"dis", "law"} THEN ev.r = "refused" ELSE ev.r = "ok" /\ NEq(ev.v, 0)
\* an average evaluates only inside the interval and lies between the smallest and the largest value met
Lo == NMin(ev.a, ev.b)  Hi == NMax(ev.a, ev.b)
Hull == ev.n >= 1 /\ NLe(Lo, ev.lo) /\ NLe(ev.hi, Hi) /\ NLe(NSub(ev.vlo, NMul("1e-9", NAbs(ev.vlo))), ev.v) /\ NLe(ev.v, NAdd(ev.vhi, NMul("1e-9", NAbs(ev.vhi))))
Point(a) == Meets(a, ev.r, IF ev.r = "ok" THEN ev.v ELSE 0)
AvgT == /\ Is("avt") /\ Same
        /\ CASE Obj.k = "law" -> ev.r = "ok" /\ RelClose(ev.v, PowMean(Obj.q, Obj.p, ev.a, ev.b), "2e-3")
             [] Obj.k = "null" -> ev.r = "ok" /\ NEq(ev.v, 0)
             [] Obj.k = "glashow" -> IF Resonant(ev.f, ev.t, ev.c) THEN ev.r = "ok" /\ NLt(0, ev.v) ELSE ev.r = "ok" /\ NEq(ev.v, 0)
             [] OTHER -> IF NEq(ev.a, ev.b) THEN Point(TableTotal(Obj, ev.a, ev.f, ev.t, ev.c))
                         ELSE IF ~Active(ev.f) THEN ev.r = "ok" /\ NEq(ev.v, 0)
                         ELSE IF NLt(Obj.emax, Hi) THEN ev.r = "refused"
                         ELSE ev.r = "ok" /\ Hull
AvgS == /\ Is("avs") /\ Same
        /\ CASE Obj.k = "law" -> ev.r = "ok" /\ RelClose(ev.v, NDiv(PowMean(Obj.q, Obj.p, ev.a, ev.b), ev.E), "2e-3")
             [] Obj.k = "null" -> ev.r = "ok" /\ NEq(ev.v, 0)
             [] Obj.k = "glashow" -> IF Resonant(ev.f, ev.t, ev.c) THEN ev.r = "ok" ELSE ev.r = "ok" /\ NEq(ev.v, 0)
             [] OTHER -> IF ~Active(ev.f) THEN ev.r = "ok" /\ NEq(ev.v, 0)
                         ELSE IF NLt(Obj.emax, ev.E) THEN ev.r = "refused"
                         ELSE IF NLe(ev.E, Obj.emin) THEN Point(Negligible)
                         ELSE IF NEq(ev.a, ev.b) THEN Point(TableSingle(Obj, ev.E, ev.a, ev.f, ev.t, ev.c))
                         ELSE ev.r = "ok" /\ Hull
Branch == OK("br") /\ Same /\ NEq(ev.v, NRoundDouble(BR(ev.f)))
LibNew == OK("libnew") /\ NewLib(ev.s, [t \in {ev.m[i][1] : i \in 1..Len(ev.m)} |-> objs[ev.m[CHOOSE i \in 1..Len(ev.m) : ev.m[i][1] = t][2]]])
\* the default library: the files of the data directory, and the resonance for electrons
Prot == "data/xsections/csms_proton.h5"  Neut == "data/xsections/csms_neutron.h5"
LibDef == /\ Is("libdef") /\ ev.open = 0
          /\ IF CanLoadDis(Prot) /\ CanLoadDis(Neut)
             THEN ev.r = "ok" /\ NewLib(ev.s, [t \in {11, 2112, 2212} |-> IF t = 11 THEN [k |-> "glashow", gf |-> ev.gf, cm |-> ev.cm, me |-> ev.me, mm |-> ev.mm] ELSE LET o == LoadDis(IF t = 2112 THEN Neut ELSE Prot) IN [o EXCEPT !.emin = NRoundDouble(o.emin), !.emax = NRoundDouble(o.emax)]])
             ELSE ev.r = "refused" /\ Same
LibCopy == OK("libcopy") /\ NewLib(ev.d, libs[ev.s])
LibAdd == /\ Is("libadd")
          /\ IF Registered(ev.s, ev.t) THEN ev.r = "refused" /\ Same ELSE ev.r = "ok" /\ Register(ev.s, ev.t, objs[ev.o])
Lib == /\ OK("lib") /\ Same /\ ev.has = Registered(ev.s, ev.t) /\ ev.nul = ~ev.has
       /\ IF ev.has THEN Meets(ObjTotal(libs[ev.s][ev.t], ev.E, ev.f, ev.ty, ev.c), ev.qr, IF ev.qr = "ok" THEN ev.v ELSE 0) ELSE TRUE
TInit == l = 1 /\ XInit
TNext == (PutText \/ PutH5 \/ Del \/ Load \/ Mk \/ WT \/ WH \/ Tot1 \/ Sd \/ Dd \/ AvgT \/ AvgS \/ Branch \/ LibNew \/ LibDef \/ LibCopy \/ LibAdd \/ Lib) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, objs, files, libs>>
View == l
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted1 == IF TLCGet(1) = Len(TraceLog) + 1 THEN PrintT(<<"ACCEPT", Len(TraceLog)>>) ELSE PrintT(<<"REJECT", TLCGet(1) - 1>>)
=============================================================================
