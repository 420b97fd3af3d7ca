------------------------------- MODULE VlrTrace -------------------------------
(* Judges observations of VLRs and items made on the real code.              *)
EXTENDS LazItems, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.LAZ_TRACE)

Seq3(x) == [k \in 1..Len(x) |-> <<x[k][1], x[k][2], x[k][3]>>]
B(x) == [k \in 1..Len(x) |-> x[k]]

(* reading a record and writing it again                                     *)
VlrOK(e) ==
  LET b == B(e.bytes) IN
  IF ~Readable(b) THEN e.res = "err"
  ELSE /\ e.res = "ok"
       /\ B(e.out) = Rewritten(b)
       /\ e.again
       /\ e.var = IsVariable(DecodedChunk(b))
       /\ ~e.var => B(e.cs) = DecodedChunk(b)
       /\ Seq3(e.items) = DecodedItems(b)
       /\ e.psz = SumSizes(DecodedItems(b))

(* the items of a point format                                               *)
ItemsOK(e) ==
  IF e.fmt \notin Formats THEN e.res = "err"
  ELSE LET v == IF e.ver \in {0, 5, 6} THEN DefaultVersion(e.fmt) ELSE e.ver
       IN IF v \notin VersionsOf(e.fmt) THEN e.res = "err"
          ELSE /\ e.res = "ok"
               /\ Seq3(e.items) = ItemsOf(e.fmt, v, e.eb)

(* a VLR built from scratch; the version it states is this library's affair  *)
BuildOK(e) ==
  LET v == IF e.how = 0 THEN DefaultVersion(e.fmt) ELSE e.ver
      l == ItemsOf(e.fmt, v, e.eb)
      cs == IF e.how = 3 THEN <<80, 195, 0, 0>>     \* 50000
            ELSE IF e.mark THEN MaxU32
            ELSE IF e.chunk = <<>> THEN <<80, 195, 0, 0>>
            ELSE B(e.chunk)
      o == B(e.out)
  IN /\ e.res = "ok"
     /\ Len(o) >= 34
     /\ o = Encode(CompressorOf(v), SubSeq(o, 5, 8), cs, l)
     /\ e.var = IsVariable(cs)
     /\ e.psz = RecordSize(e.fmt) + e.eb
     /\ e.again

OK(e) == CASE e.op = "vlr" -> VlrOK(e)
           [] e.op = "items" -> ItemsOK(e)
           [] e.op = "build" -> BuildOK(e)
           [] OTHER -> FALSE

VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ OK(Traces[t]) \/ PrintT(<<"NOT-A-BEHAVIOUR", Traces[t].id, Traces[t].op>>)
Spec == Init /\ [][Next]_<<t, done>>
===============================================================================
