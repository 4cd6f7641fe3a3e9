------------------------------ MODULE MC_Pool ------------------------------
\* Model values and client programs for exhaustive checking of the pool design
EXTENDS Pool
MCTasks == {"a", "b", "c", "d"}
MCSubmits1 == [k \in Clients |-> IF k = "c1" THEN <<"a", "b">> ELSE <<"d">>]
MCChild1 == [t \in MCTasks |-> IF t = "a" THEN "c" ELSE NoTask]
MCSubmits2 == [k \in Clients |-> IF k = "c1" THEN <<"a", "b">> ELSE <<"d">>]
MCChild2 == [t \in MCTasks |-> IF t = "d" THEN "c" ELSE NoTask]
NoChild == [t \in MCTasks |-> NoTask]
MCSubmits3 == [k \in Clients |-> <<"a", "b", "c">>]
============================================================================
