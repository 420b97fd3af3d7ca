-------------------------------- MODULE Crash -------------------------------
(* Writers at the level of their writes to the device, stopped at any write, *)
(* and what readers make of what is left.                                    *)
(*                                                                           *)
(* The device: an offset field (written at once) and cells; a point takes a  *)
(* cell, a chunk table takes two cells.  A writer reserves the offset field  *)
(* (no table yet), writes the chunks, then the table, then the offset.  An   *)
(* appender withdraws the offset, then writes from the start of the chunk    *)
(* that holds the last point it keeps, over what was there.                  *)
(*                                                                           *)
(* Between any two writes the process may stop: TLC checks in every state    *)
(* what a reader of the device would find.  The constants OffsetFirst and    *)
(* KeepOffset describe two wrong orders of writes; with either of them TLC   *)
(* finds a state that breaks TableRight (the checks of this module run them  *)
(* to show that the invariants are not vacuous).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sizes,       \* sizes of chunks a fresh writer writes: a set of sequences
          Cs,          \* chunk size, 0 for variable-size chunks
          Kept,        \* points an appender keeps
          Added,       \* points an appender adds
          OffsetFirst, \* wrong: the offset is written before the table
          KeepOffset   \* wrong: an appender leaves the offset in place

VARIABLES off,    \* the offset field: -2 nothing written, -1 reserved, else index of a table
          cells,  \* cell contents: <<"pt", id>> | <<"tab", chunk sizes, part>>
          todo,   \* writes still to be made: <<"off", v>> | <<"cell", index, content>>
          phase,  \* "write", "append", "end"
          old,    \* the stream as it was before the current writer: its chunk sizes and points
          new     \* the stream being written
vars == <<off, cells, todo, phase, old, new>>

RECURSIVE Sum(_), SumTo(_, _)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)

(* writes of chunks holding points ids (in order) from cell `at` on, followed by the table of all *)
Cell(i, c) == <<"cell", i, c>>
Pts(ids, at) == [k \in 1..Len(ids) |-> Cell(at + k - 1, <<"pt", ids[k]>>)]
Table(sizes, at) == << Cell(at, <<"tab", sizes, 1>>), Cell(at + 1, <<"tab", sizes, 2>>) >>
Close(sizes, at) == IF OffsetFirst THEN << <<"off", at>> >> \o Table(sizes, at)
                    ELSE Table(sizes, at) \o << <<"off", at>> >>

Init == /\ off = -2 /\ cells = <<>> /\ phase = "write"
        /\ old = [sizes |-> <<>>, pts |-> <<>>]
        /\ \E s \in Sizes :
             LET n == Sum(s) ids == [k \in 1..n |-> k] IN
             /\ new = [sizes |-> s, pts |-> ids]
             /\ todo = << <<"off", -1>> >> \o Pts(ids, 1) \o Close(s, n + 1)

Put(i, c) == IF i <= Len(cells) THEN [cells EXCEPT ![i] = c] ELSE Append(cells, c)

Step == /\ todo # <<>>
        /\ IF Head(todo)[1] = "off" THEN off' = Head(todo)[2] /\ UNCHANGED cells
           ELSE cells' = Put(Head(todo)[2], Head(todo)[3]) /\ UNCHANGED off
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<phase, old, new>>

(* chunk that holds point pc, and where it starts                            *)
ChunkOf(s, pc) == CHOOSE k \in 1..Len(s) : SumTo(s, k - 1) < pc /\ pc <= SumTo(s, k)
Fixed(t) == [i \in 1..((t + Cs - 1) \div Cs) |-> IF i * Cs <= t THEN Cs ELSE t - (i - 1) * Cs]

AppendTo(pc, a) ==
  /\ phase = "write" /\ todo = <<>> /\ pc <= Len(new.pts)
  /\ LET k == IF pc = 0 THEN 1 ELSE ChunkOf(new.sizes, pc)
         safe == SumTo(new.sizes, k - 1)
         kept == SubSeq(new.pts, 1, pc)
         all == kept \o [j \in 1..a |-> 100 + j]
         sizes == IF Cs > 0 THEN Fixed(Len(all))
                  ELSE SubSeq(new.sizes, 1, k - 1)
                       \o (IF pc - safe > 0 THEN <<pc - safe>> ELSE <<>>) \o (IF a > 0 THEN <<a>> ELSE <<>>)
     IN /\ old' = new
        /\ new' = [sizes |-> sizes, pts |-> all]
        /\ todo' = (IF KeepOffset THEN <<>> ELSE << <<"off", -1>> >>)
                   \o Pts(SubSeq(all, safe + 1, Len(all)), safe + 1) \o Close(sizes, Len(all) + 1)
  /\ phase' = "append"
  /\ UNCHANGED <<off, cells>>

Next == Step \/ \E pc \in Kept, a \in Added : AppendTo(pc, a)
Spec == Init /\ [][Next]_vars

(* ---- what a reader finds ------------------------------------------------ *)
HasTable == off >= 1 /\ off + 1 <= Len(cells) /\ cells[off][1] = "tab" /\ cells[off + 1][1] = "tab"
            /\ cells[off][2] = cells[off + 1][2] /\ cells[off][3] = 1 /\ cells[off + 1][3] = 2
(* the points read from the chunks the table lists                           *)
Listed == [k \in 1..Sum(cells[off][2]) |-> IF k <= Len(cells) THEN cells[k] ELSE <<"none">>]
IsStream(s) == cells[off][2] = s.sizes /\ Listed = [k \in 1..Len(s.pts) |-> <<"pt", s.pts[k]>>]

\* an offset always leads to a complete table, which describes the chunks that are there
TableRight == off >= 0 => HasTable /\ (IsStream(old) \/ IsStream(new))
\* without a table, the chunks left alone or already written again are there in order
SafeRight == LET safe == IF phase = "write" THEN 0
                         ELSE LET pc == Len(SelectSeq(new.pts, LAMBDA p : p < 100))
                              IN IF pc = 0 THEN 0 ELSE SumTo(old.sizes, ChunkOf(old.sizes, pc) - 1)
             IN \A k \in 1..safe : k <= Len(cells) /\ cells[k] = <<"pt", new.pts[k]>>
\* a writer's chunks are written from the first to the last: what is there is a prefix
PrefixRight == (phase = "write") =>
   \A k \in 1..Len(cells) : k <= Len(new.pts) => cells[k] = <<"pt", new.pts[k]>>
FinishedRight == todo = <<>> => HasTable /\ IsStream(new)
=============================================================================
