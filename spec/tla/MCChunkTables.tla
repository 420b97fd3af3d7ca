---------------------------- MODULE MCChunkTables ----------------------------
(* Every short history of operations on a table, over classes of entries.    *)
EXTENDS ChunkTables, TLC, Json

CONSTANTS Depth, Emit
Class == {<<"a", "a">>, <<"b", "c">>}
VARIABLES t, ops
vars == <<t, ops>>
Init == t = <<>> /\ ops = <<>>
Ops == [o : {"push"}, e : Class] \cup {[o |-> "pop"]} \cup [o : {"trunc"}, n : 0..2]
       \cup [o : {"extend"}, es : {<<>>, <<<<"b", "c">>>>, <<<<"a", "a">>, <<"d", "b">>, <<"c", "d">>>>}]
Next == /\ Len(ops) < Depth
        /\ \E o \in Ops :
             /\ ops' = Append(ops, o) /\ t' = Apply(t, o)
             /\ Emit => PrintT("SCRIPT " \o ToJson([ops |-> ops']))
Spec == Init /\ [][Next]_vars
HistoryOK == LET h == History(<<>>, ops, 1) IN h[Len(h)] = t
KeptOK == \A v \in BOOLEAN : Len(Kept(t, v)) = Len(t) /\ Known(Kept(t, v), v, "x") = Known(t, v, "x")
=============================================================================
