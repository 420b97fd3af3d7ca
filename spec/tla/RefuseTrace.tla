----------------------------- MODULE RefuseTrace -----------------------------
(* What an entry point may do with a description of points: refuse it with   *)
(* an error, or handle points exactly.  Never a panic, never other points.   *)
EXTENDS LazItems, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.LAZ_TRACE)
Items(e) == [k \in 1..Len(e.items) |-> <<e.items[k][1], e.items[k][2], e.items[k][3]>>]

(* the unchunked layout is only read, and only sequentially                  *)
Takes(entry) == IF entry \in {"rseq", "dbuf"} THEN {1, 2, 3} ELSE {2, 3}

Canonical(its, comp) ==
  \E f \in Formats, v \in 1..4 :
    /\ v \in VersionsOf(f)
    /\ comp \in IF v < 3 THEN {1, 2} ELSE {3}
    /\ LET z == SumSizes(its) - RecordSize(f)
       IN z >= 0 /\ its = ItemsOf(f, v, z)

OK(e) ==
  LET its == Items(e) IN
  IF e.comp > 3 \/ \E k \in 1..Len(its) : its[k][1] \notin KnownTypes
  THEN e.out = "vlr"
  ELSE IF \/ e.comp \notin Takes(e.entry)
          \/ its = <<>>
          \/ \E k \in 1..Len(its) : ~Supported(its[k])
       THEN e.out = "err"
       ELSE IF Canonical(its, e.comp) THEN e.out = "right"
       ELSE e.out \in {"err", "right"}

VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ OK(Traces[t]) \/ PrintT(<<"NOT-A-BEHAVIOUR", Traces[t].id, Traces[t].op>>)
Spec == Init /\ [][Next]_<<t, done>>
==============================================================================
