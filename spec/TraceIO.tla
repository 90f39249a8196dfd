------------------------------ MODULE TraceIO -------------------------------
(***************************************************************************)
(* Input and output, implemented by java/TraceIO.java.                     *)
(***************************************************************************)
EXTENDS Integers

SessionCount     == 0          \* number of recorded sessions
SessionLen(i)    == 0          \* number of events of session i
EventAt(i, j)    == [op |-> "none"]
Emit(v)          == TRUE       \* writes v as one line of JSON
=============================================================================
