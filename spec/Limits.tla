------------------------------- MODULE Limits -------------------------------
(* Calls with a time limit and muted printing: what they may leave behind in the process.
   The state of the process is [calls |-> sequence of the running calls (their limits, innermost last), armed |-> BOOLEAN (the
   innermost call can still run out of time), out |-> the place that print writes to, muted |-> BOOLEAN].
   Limits are not reentrant: a call inside a limited call takes over the alarm and leaves it off when it ends.            *)
EXTENDS Integers, Sequences, TLC
Idle == [calls |-> <<>>, armed |-> FALSE, out |-> 0, muted |-> FALSE]
Enter(m, n) == [m EXCEPT !.calls = Append(@, n), !.armed = TRUE]
\* the innermost call ends: with a value, an exception of its own, or because its time is up
Exit(m) == [m EXCEPT !.calls = SubSeq(@, 1, Len(@) - 1), !.armed = FALSE]
Muted(m) == [m EXCEPT !.muted = TRUE]
Unmuted(m) == [m EXCEPT !.muted = FALSE]
Redirect(m, o) == [m EXCEPT !.out = o]
Heard(m) == IF m.muted THEN <<>> ELSE <<m.out>>     \* where a print arrives
=============================================================================
