---------------------------- MODULE TextTable ----------------------------
(* A directory of text files.  A file is a sequence of lines, a line a sequence of numbers (an empty   *)
(* sequence for a blank line).  Reading drops blank lines and refuses ragged tables; writing stores    *)
(* one line per row.  Also the resource directory, which is looked up afresh on every call.            *)
EXTENDS Integers, Sequences
CONSTANT Names
Absent == << <<"absent">> >>     \* never the contents of a table
VARIABLES fs, env            \* name -> lines or Absent;  <<is set, value>>
vars0 == <<fs, env>>
NonBlank(lines) == SelectSeq(lines, LAMBDA r : r # <<>>)
Ragged(lines) == LET t == NonBlank(lines) IN \E i \in DOMAIN t : Len(t[i]) # Len(t[1])
Exists(n) == n \in Names /\ fs[n] # Absent
CanRead(n) == Exists(n) /\ ~Ragged(fs[n])
Table(n) == NonBlank(fs[n])
Rows(n) == Len(Table(n))
Cols(n) == IF Rows(n) = 0 THEN 0 ELSE Len(Table(n)[1])
Init0 == fs = [n \in Names |-> Absent] /\ env = <<FALSE, "">>
Put(n, lines) == fs' = [fs EXCEPT ![n] = lines] /\ UNCHANGED env
Remove(n) == fs' = [fs EXCEPT ![n] = Absent] /\ UNCHANGED env
SetEnv(v) == env' = <<TRUE, v>> /\ UNCHANGED fs
UnsetEnv == env' = <<FALSE, "">> /\ UNCHANGED fs
Resource(installed, inst, src) == IF env[1] THEN env[2] ELSE IF installed THEN inst ELSE src
=============================================================================
