------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation.  Every line of the trace is one observed public call  *)
(* (or one user action on its own data); Clauses gives it a total verdict: *)
(* "ok" or the name of the first violated clause.                          *)
(***************************************************************************)
EXTENDS Clauses, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES l,      \* next line
          store,  \* abstract state: objects and buffers by name
          bad     \* rejected lines with clause names

Init == l = 1 /\ store = EmptyStore /\ bad = <<>>

Step ==
    /\ l <= Len(TraceLog)
    /\ LET r == TraceLog[l]
           c == Clause(store, r)
       IN /\ bad' = IF c = "ok" THEN bad ELSE Append(bad, [id |-> r.id, clause |-> c])
          /\ store' = NextStore(store, r)
    /\ l' = l + 1

Spec == Init /\ [][Step]_<<l, store, bad>>

\* written when the whole trace has been consumed
Report == (l = Len(TraceLog) + 1) =>
            JsonSerialize(IOEnv.VERDICT_FILE, [lines |-> Len(TraceLog), bad |-> bad])
=============================================================================
