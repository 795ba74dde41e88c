---------------------------- MODULE TraceRequests ----------------------------
(* Trace validation of requests: served exactly when they make sense, with a result of the right shape *)
EXTENDS Requests, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

Kept(e) == IF e.op = "utfc" THEN Cardinality((0..e.deg) \ Removed(e.nC[1], e.deg)) ELSE -1
Clauses(e) ==
  IF Serve(e) THEN (IF e.out # "served" THEN {<<"refused", e.op, e.out>>}
                    ELSE IF e.op = "utfc" /\ e.shape # <<4, Kept(e)>> THEN {<<"columns", e.shape>>}
                    ELSE IF e.op = "eval" /\ e.shape[1] # e.lens[1] THEN {<<"rows", e.shape>>} ELSE {})
  ELSE IF e.out # "refused" THEN {<<"not refused", e.op, e.out>>} ELSE {}

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Clauses(Trace[l]) IN bad' = IF v = {} THEN bad ELSE Append(bad, [line |-> l, why |-> v])
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
          /\ l' = l + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
