----------------------------- MODULE ChunkTables -----------------------------
(* The chunk table as a data structure, and where it is found in a stream.   *)
(* A table is a sequence of entries <<points, bytes>>; an entry is opaque.   *)
EXTENDS Integers, Sequences

Apply(t, o) == CASE o.o = "push" -> Append(t, <<o.e[1], o.e[2]>>)
                 [] o.o = "pop" -> IF t = <<>> THEN t ELSE SubSeq(t, 1, Len(t) - 1)
                 [] o.o = "trunc" -> IF o.n < Len(t) THEN SubSeq(t, 1, o.n) ELSE t
                 [] o.o = "extend" -> t \o [k \in 1..Len(o.es) |-> <<o.es[k][1], o.es[k][2]>>]

(* the tables before each operation and after the last                       *)
RECURSIVE History(_, _, _)
History(t, ops, k) == IF k > Len(ops) THEN <<t>>
                      ELSE <<t>> \o History(Apply(t, ops[k]), ops, k + 1)

(* what popping gave, in order                                               *)
RECURSIVE Popped(_, _, _)
Popped(h, ops, k) ==
  IF k > Len(ops) THEN <<>>
  ELSE (IF ops[k].o # "pop" THEN <<>>
        ELSE IF h[k] = <<>> THEN <<<<>>>> ELSE <<h[k][Len(h[k])]>>) \o Popped(h, ops, k + 1)

(* what a stream keeps of a table: point counts only for variable sizes      *)
Kept(t, var) == IF var THEN t ELSE [k \in 1..Len(t) |-> <<"0", t[k][2]>>]
(* how it is then read: with the chunk size as the number of points          *)
Known(t, var, cs) == IF var THEN t ELSE [k \in 1..Len(t) |-> <<cs, t[k][2]>>]

(* the offset is found at the start; if what is there cannot be one (not     *)
(* after the start of the data), it is found in the last 8 bytes             *)
Findable(where) == where \in {"head", "tail"}
=============================================================================
