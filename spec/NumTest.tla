---------------------------- MODULE NumTest ----------------------------
EXTENDS Num, Naturals, Sequences, TLC
VARIABLE x
Close(a, b) == NLt(NAbs(NSub(a, b)), "1e-70")
A == {"0", "1", "-3", "0.5", "0x1.8p+3", "-7.25", "1e-9"}
ASSUME \A a, b \in A : NEq(NAdd(a, b), NAdd(b, a)) /\ NEq(NSub(NAdd(a, b), b), a)
ASSUME \A a \in A, b \in A \ {"0"} : Close(NMul(NDiv(a, b), b), a)
ASSUME \A a, b \in A : NLt(a, b) <=> ~NLe(b, a)
ASSUME NEq("0x1.8p+3", 12) /\ NEq("0x1.999999999999ap-4", "0.1000000000000000055511151231257827021181583404541015625")
ASSUME ~NLe("nan", "1") /\ ~NLe("1", "inf") /\ ~NEq("nan", "nan") /\ ~NIsNum("inf") /\ NIsNum("3")
ASSUME \A a \in A : Close(NAdd(NMul(NSin(a), NSin(a)), NMul(NCos(a), NCos(a))), 1)
ASSUME \A a \in A : Close(NMul(NExp(a), NExp(NNeg(a))), 1)
ASSUME \A a \in {"1", "2", "0.5", "1e10", "3e-7"} : NLt(NAbs(NSub(NDiv(NExp(NLog(a)), a), 1)), "1e-70")
ASSUME Close(NMul(NSqrt(2), NSqrt(2)), 2)
ASSUME NLt(NAbs(NSub(NPi, "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899")), "1e-75")
ASSUME NLt(NAbs(NSub(NSin(1), "0.841470984807896506652502321630298999622563060798371065672751709991910404391239668948639743543052695854349037907920674293259118920991898881")), "1e-75")
ASSUME NLt(NAbs(NSub(NExp(1), "2.7182818284590452353602874713526624977572470936999595749669676277240766303535475945713821785")), "1e-75")
ASSUME NLt(NAbs(NSub(NLog(10), "2.302585092994045684017991454684364207601101488628772976033327900967572609677352480235997205089598298341967784042286248633409525465082806756666287369098781689482907208325554")), "1e-75")
ASSUME NFloor("-2.5") = -3 /\ NSum(<<1, "2.5", "-1">>) = "2.5" /\ NDot(<<1, 2>>, <<"0.5", 3>>) = "6.5"
Init == x = 0
Next == x' = x
=============================================================================
