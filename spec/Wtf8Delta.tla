----------------------------- MODULE Wtf8Delta ------------------------------
(* Exports the validator automaton for the byte sweep over the real code.     *)
EXTENDS Text, Json, TLC, IOUtils
VARIABLE done
Table == [states |-> AutoStates,
          delta |-> [i \in 1..Len(AutoStates) |-> [b \in 1..256 |-> Delta(AutoStates[i], b - 1)]],
          accepting |-> [i \in 1..Len(AutoStates) |-> Accepting(AutoStates[i])]]
Init == done = JsonSerialize(IOEnv.OUT, Table)
Next == UNCHANGED done
=============================================================================
