----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification: the recorded trace, the cursor  *)
(* into it, and the acceptance report.  A trace is a file of JSON lines; each *)
(* line is one call made on the real code with its arguments and results.    *)
(* Lines of several independent cases are concatenated; a "begin" line        *)
(* resets the specification to its initial state.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLE l                     \* position in Trace of the next event

ev == Trace[l]

(* The next event is a call of op that returned normally.  A call that       *)
(* panicked, hung, ran out of memory or killed the process ("out" other than *)
(* "ok") is enabled in no specification.                                      *)
Is(op) == /\ l <= Len(Trace)
          /\ Trace[l].op = op
          /\ Trace[l].out = "ok"
          /\ l' = l + 1

(* one state per accepted line plus the initial one *)
Accepted == PrintT(<<"VF_ACC", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
