------------------------------ MODULE FileTrace ------------------------------
(* Judges observations of SimpleReader on files made from the specification. *)
EXTENDS SimpleFile, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.LAZ_TRACE)

FileOK(e) ==
  LET f == [laz |-> e.laz, n |-> e.n, count |-> e.count, psz |-> e.psz, cut |-> e.cut, hcut |-> e.hcut,
            have |-> e.have, full |-> e.full, cap |-> e.cap]
  IN /\ e.open # "panic"
     /\ OpenMust(f) => e.open = "ok"
     /\ f.hcut = -1 => e.rhv = "right"
     /\ e.rhv \in {"right", "err"}
     /\ e.open = "ok" =>
          /\ e.hdr
          /\ e.right
          /\ IF e.all
             THEN IF e.end = "none" THEN RunOK(f, e.got, e.end)
                  ELSE e.end = "err" /\ Sure(f) < f.count   \* after some point
             ELSE RunOK(f, e.got, e.end)
          (* after the end there is nothing; after an error no point of a LAS *)
          (* file is given (and nothing panics)                               *)
          /\ \A k \in 1..Len(e.later) :
               IF e.end = "none" THEN e.later[k] = "none"
               ELSE e.later[k] # "panic" /\ (~e.laz => e.later[k] # "ok")

PairOK(e) == e.fromlas = "right" /\ e.fromlaz = "right" /\ e.n > 0

OK(e) == CASE e.op = "file" -> FileOK(e) [] e.op = "pair" -> PairOK(e) [] OTHER -> FALSE

VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ OK(Traces[t]) \/ PrintT(<<"NOT-A-BEHAVIOUR", Traces[t].id, Traces[t].op>>)
Spec == Init /\ [][Next]_<<t, done>>
===============================================================================
