------------------------------ MODULE Selective ------------------------------
(* Selective decompression of layered chunks.                                *)
(*                                                                           *)
(* A chunk starts with its first point in full, then the sizes of its        *)
(* layers, then the layers one after the other. A layer whose field does not *)
(* change in the chunk is empty. The reader takes the layers of the selected *)
(* fields and passes over the others; the base layer (x, y, returns, scanner *)
(* channel) is always taken. A history of seeks and reads over such a stream *)
(* gives right values for the base and for every selected field.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Fields,    \* other than those of the base
          C, P,      \* chunks, points in a chunk
          Emit,
          Passes,    \* FALSE: a wrong reader that does not pass over layers
          Keeps      \* FALSE: a wrong reader that forgets the selection when it seeks

VARIABLES changed,   \* per chunk: the fields that change in it
          sel, insel, \* selected, and the selection in force
          at,        \* next point, 0..C*P
          out, ops
vars == <<changed, sel, insel, at, out, ops>>

FieldSet == {Fields[k] : k \in 1..Len(Fields)}
N == C * P
ChunkOf(p) == p \div P + 1

Init == /\ changed \in [1..C -> SUBSET FieldSet]
        /\ sel \in SUBSET FieldSet
        /\ insel = sel
        /\ at = 0 /\ out = {} /\ ops = <<>>

(* the layers of a chunk that are not empty, in the order of the fields      *)
RECURSIVE Cells(_, _)
Cells(c, k) == IF k > Len(Fields) THEN <<>>
               ELSE (IF Fields[k] \in changed[c] THEN <<Fields[k]>> ELSE <<>>) \o Cells(c, k + 1)

(* which layer the reader takes for each field: it goes through the sizes in *)
(* order, taking or passing over; pos is the position among the layers       *)
RECURSIVE Taken(_, _, _)
Taken(c, k, pos) ==
  IF k > Len(Fields) THEN {}
  ELSE LET f == Fields[k]
           there == f \in changed[c]
           here == Cells(c, 1)
       IN IF there /\ f \in insel
          THEN {<<f, here[pos]>>} \cup Taken(c, k + 1, pos + 1)
          ELSE Taken(c, k + 1, IF there /\ Passes THEN pos + 1 ELSE pos)

(* the value a point has in a field: right, the one of the first point of    *)
(* the chunk, or garbage, if it was decoded from something else              *)
Value(p, f) ==
  LET c == ChunkOf(p) IN
  IF f \notin changed[c] \/ p % P = 0 THEN "right"
  ELSE IF f \notin insel THEN "first"
  ELSE IF <<f, f>> \in Taken(c, 1, 1) THEN "right" ELSE "garbage"

Read(k) ==
  /\ at >= 0 /\ at + k <= N
  /\ out' = {<<p, f, Value(p, f)>> : p \in at..(at + k - 1), f \in FieldSet}
  /\ at' = at + k
  /\ ops' = Append(ops, [o |-> "r", n |-> k])
  /\ UNCHANGED <<changed, sel, insel>>

Seek(i) ==
  /\ at' = i
  /\ out' = {}
  /\ insel' = IF Keeps THEN insel ELSE FieldSet \ sel
  /\ ops' = Append(ops, [o |-> "seek", i |-> i])
  /\ UNCHANGED <<changed, sel>>

Next == /\ Len(ops) < 3
        /\ \/ \E k \in 1..N : Read(k)
           \/ \E i \in 0..(N - 1) : Seek(i)
        /\ Emit => PrintT("SCRIPT " \o ToJson([changed |-> changed', sel |-> sel', ops |-> ops']))
Spec == Init /\ [][Next]_vars

View == <<changed, sel, insel, at, out>>
SelectedRight == \A v \in out : v[2] \in sel => v[3] = "right"
HeldRest == \A v \in out : (v[2] \notin sel /\ v[3] # "right") => v[3] = "first"
InForce == \A v \in out : (v[2] \notin sel /\ v[2] \in changed[ChunkOf(v[1])] /\ v[1] % P # 0) => v[3] = "first"
==============================================================================
