CONSTANTS Km <- MKm
 Cm <- MCm
SPECIFICATION MSpec
INVARIANTS TurnOK ChordOK AnswerOK NodesOK ConstOK
PROPERTY LoadOK
CHECK_DEADLOCK FALSE
