------------------------------ MODULE MC_Text ------------------------------
(* Writing then reading gives the table back; blank lines never matter, wherever they are; a table    *)
(* reads back unless two of its rows differ in length.                                                *)
EXTENDS TextTable, TLC
VARIABLE n
Row == {<<>>, <<"1">>, <<"2", "3">>}
Files == UNION {[1..k -> Row] : k \in 0..3}
Init == Init0 /\ n = 0
Next == n < 2 /\ n' = n + 1 /\ (\E x \in Names : (\E f \in Files : Put(x, f)) \/ Remove(x) \/ \E v \in {"", "p"} : SetEnv(v) \/ UnsetEnv)
Drop(f, i) == [k \in 1..(Len(f) - 1) |-> IF k < i THEN f[k] ELSE f[k + 1]]
BlankInvariant == \A x \in Names : Exists(x) => \A i \in DOMAIN fs[x] : fs[x][i] = <<>> =>
                     /\ Ragged(Drop(fs[x], i)) = Ragged(fs[x]) /\ NonBlank(Drop(fs[x], i)) = NonBlank(fs[x])
Rect == \A x \in Names : CanRead(x) => \A i \in 1..Rows(x) : Len(Table(x)[i]) = Cols(x) /\ Cols(x) > 0
RoundTrip == \A x \in Names : (CanRead(x) /\ fs[x] = Table(x)) => Table(x) = fs[x]
Prec == /\ (env[1] => \A b \in BOOLEAN : Resource(b, "i", "s") = env[2])
        /\ (~env[1] => Resource(TRUE, "i", "s") = "i" /\ Resource(FALSE, "i", "s") = "s")
=============================================================================
