------------------------------- MODULE MC_Grid -------------------------------
(* Checks the ideal grids: even in value or in ratio, between the limits, mirrored when the limits are exchanged. *)
EXTENDS Num, Sequences, TLC
VARIABLES a, b, n
LinPt(x, y, m, k) == NAdd(x, NDiv(NMul(NSub(y, x), k), m - 1))
LogPt(x, y, m, k) == NExp(LinPt(NLog(x), NLog(y), m, k))
Init == a \in {"1", "0.001", "5"} /\ b \in {"2", "1e6", "0.5"} /\ n \in 2..6
Next == UNCHANGED <<a, b, n>>
Near(x, y) == NLt(NAbs(NSub(x, y)), NMul("1e-60", NAdd(1, NAbs(y))))
Ends == Near(LinPt(a, b, n, 0), a) /\ Near(LinPt(a, b, n, n - 1), b) /\ Near(LogPt(a, b, n, 0), a) /\ Near(LogPt(a, b, n, n - 1), b)
Even == \A k \in 1..(n - 2) : /\ Near(NSub(LinPt(a, b, n, k + 1), LinPt(a, b, n, k)), NSub(LinPt(a, b, n, k), LinPt(a, b, n, k - 1)))
                              /\ Near(NDiv(LogPt(a, b, n, k + 1), LogPt(a, b, n, k)), NDiv(LogPt(a, b, n, k), LogPt(a, b, n, k - 1)))
Mirror == \A k \in 0..(n - 1) : Near(LinPt(a, b, n, k), LinPt(b, a, n, n - 1 - k)) /\ Near(LogPt(a, b, n, k), LogPt(b, a, n, n - 1 - k))
=============================================================================
