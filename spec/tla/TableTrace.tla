------------------------------ MODULE TableTrace ------------------------------
(* Judges observations of chunk tables made on the real code.                *)
EXTENDS ChunkTables, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.LAZ_TRACE)

Ent(x) == [k \in 1..Len(x) |-> IF x[k] = <<>> THEN <<>> ELSE <<x[k][1], x[k][2]>>]

CtOK(e) ==
  LET h == History(<<>>, e.ops, 1)
      t == h[Len(h)]
  IN /\ e.res = "ok"
     /\ Ent(e.mem) = t
     /\ e.same
     /\ Ent(e.popped) = Popped(h, e.ops, 1)
     (* an independent reader of the format reads the same entries           *)
     /\ e.ind /\ e.indend
     /\ Ent(e.parsed) = Kept(t, e.var)
     (* and so does the crate's, which stays inside the table                *)
     /\ e.backend
     /\ Ent(e.back) = Kept(t, e.var)

CtReadOK(e) ==
  IF Findable(e.where)
  THEN /\ e.res = "ok"
       /\ Ent(e.back) = Known(Ent(e.es), e.var, e.css)
       /\ e.atdata
  ELSE e.res = "err"

OK(e) == CASE e.op = "ct" -> CtOK(e) [] e.op = "ctread" -> CtReadOK(e) [] OTHER -> FALSE

VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ OK(Traces[t]) \/ PrintT(<<"NOT-A-BEHAVIOUR", Traces[t].id, Traces[t].op>>)
Spec == Init /\ [][Next]_<<t, done>>
===============================================================================
