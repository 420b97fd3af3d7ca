------------------------------ MODULE LazTrace ------------------------------
(* Checks sessions recorded from the real crate against LazAbs.              *)
(*                                                                           *)
(* A session is one line of the trace file: a configuration and the list of  *)
(* events observed (one per API call, plus observations of the raw stream).  *)
(* Each session is one initial state; each event is one transition, allowed  *)
(* only if it is a behaviour of LazAbs.  A session that is not accepted to   *)
(* its end is reported with the event that is not a behaviour of LazAbs.     *)
EXTENDS LazRules, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.LAZ_TRACE)

VARIABLES t, i, m, bad
vars == <<t, i, m, bad>>

Init == /\ t \in 1..Len(Traces)
        /\ i = 1
        /\ m = Machine(Traces[t])
        /\ bad = FALSE

Next ==
  LET s == Traces[t] IN
  /\ ~bad
  /\ i <= Len(s.ev)
  /\ LET e == s.ev[i] IN
     IF OK(s, m, e)
     THEN /\ i' = i + 1 /\ m' = Upd(s, m, e) /\ UNCHANGED <<t, bad>>
     ELSE /\ PrintT(<<"NOT-A-BEHAVIOUR", s.id, i, e.op>>)
          /\ bad' = TRUE /\ UNCHANGED <<t, i, m>>

Spec == Init /\ [][Next]_vars
=============================================================================
