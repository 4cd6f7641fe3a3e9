SPECIFICATION MSpec
INVARIANT ObjsOK
INVARIANT LibsOK
INVARIANT NodesOK
INVARIANT OutsideOK
INVARIANT GlashowOK
PROPERTY LibKeeps
CHECK_DEADLOCK FALSE
