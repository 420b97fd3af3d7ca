------------------------------- MODULE SelTrace -------------------------------
(* Selections as sets of fields: what calls make of them, and that the       *)
(* fields in it are decompressed right.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.LAZ_TRACE)

All == {"z", "classification", "flags", "intensity", "scan_angle", "user_data", "point_source_id", "gps_time", "rgb", "nir",
        "wavepacket", "extra_bytes"}

RECURSIVE Fold(_, _, _)
Fold(s, calls, k) ==
  IF k > Len(calls) THEN s
  ELSE Fold(IF calls[k][1] = "take" THEN s \cup {calls[k][2]} ELSE s \ {calls[k][2]}, calls, k + 1)

ToSet(q) == {q[k] : k \in 1..Len(q)}

OK(e) == LET s == Fold(IF e.base = "all" THEN All ELSE {}, e.calls, 1)
         IN /\ e.op = "selops"
            /\ e.res = "ok"
            /\ ToSet(e.on) = s
            /\ s \cup {"base"} \subseteq ToSet(e.right)

VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ OK(Traces[t]) \/ PrintT(<<"NOT-A-BEHAVIOUR", Traces[t].id, Traces[t].op>>)
Spec == Init /\ [][Next]_<<t, done>>
===============================================================================
