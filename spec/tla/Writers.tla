------------------------------- MODULE Writers ------------------------------
(* The compressors and appenders, sequential and parallel, shaped like       *)
(* src/laszip/{sequential,parallel}/{compression,appender}.rs, in lockstep   *)
(* with the abstract writer of LazAbs.                                       *)
(*                                                                           *)
(* A behaviour: a writer is opened, takes calls, is finished; the stream is  *)
(* looked at; it is opened for appending, takes calls, is finished, ...      *)
(* TLC checks after each "done" that the chunks of the stream are chunks     *)
(* LazAbs allows (LookOK), over all histories up to the bounds; each history *)
(* that ends in "done" is printed as a script for the real code.             *)
EXTENDS LazRules, TLC, Json

CONSTANTS Configs,    \* set of [var, cs, lay]
          Kinds,      \* subset of {"seq", "par"}
          MaxCalls,   \* calls between opening and finishing, first writer
          MaxACalls,  \* ... for appenders
          MaxAppends, \* number of appends
          Groups,     \* lists of group sizes handed to compress_chunks
          Emit,
          Walk        \* simulation: print the histories in which no append is left

VARIABLES cfg, w, m, ev, hist
vars == <<cfg, w, m, ev, hist>>

Session == [lay |-> cfg.lay, var |-> cfg.var, cs |-> cfg.cs, pw1 |-> FALSE, over |-> FALSE]

(* w: k, st ("none", "open", "idle"), calls left, appends left, next: next   *)
(* point id; res: offset reserved; chunks: points of the chunks written so   *)
(* far; cur: points of the chunk being written (seq) or kept back (par)      *)
Fresh == [k |-> "none", st |-> "none", calls |-> 0, apps |-> MaxAppends, next |-> 0,
          res |-> FALSE, chunks |-> <<>>, cur |-> <<>>]

Run(lo, n) == IF n = 0 THEN <<>> ELSE << <<lo, lo + n - 1>> >>

(* ---- sequential -------------------------------------------------------- *)
Close(x) == IF x.cur = <<>> THEN x ELSE [x EXCEPT !.chunks = Append(@, x.cur), !.cur = <<>>]
SeqOne(x, id) ==
  LET y == IF ~cfg.var /\ Count(x.cur) = cfg.cs THEN Close(x) ELSE x
  IN [y EXCEPT !.res = TRUE, !.cur = AddRun(@, <<id, id>>)]
RECURSIVE SeqRun(_, _, _)
SeqRun(x, lo, n) == IF n = 0 THEN x ELSE SeqRun(SeqOne(x, lo), lo + 1, n - 1)
RECURSIVE SeqMany(_, _)
SeqMany(x, rs) == IF rs = <<>> THEN x ELSE SeqMany(SeqRun(x, rs[1][1], RunLen(rs[1])), Tail(rs))
RECURSIVE SeqGroups(_, _, _)
SeqGroups(x, lo, gs) ==
  IF gs = <<>> THEN x ELSE SeqGroups(Close(SeqMany(x, Run(lo, Head(gs)))), lo + Head(gs), Tail(gs))

(* ---- parallel ---------------------------------------------------------- *)
RECURSIVE Cut(_, _)
(* complete chunks of a sequence of runs, and what is left                   *)
Cut(rs, acc) == IF Count(rs) < cfg.cs THEN <<acc, rs>>
                ELSE Cut(Drop(rs, cfg.cs), Append(acc, Take(rs, cfg.cs)))
ParMany(x, rs) ==
  LET all == Cat(x.cur, rs) c == Cut(all, <<>>)
  IN [x EXCEPT !.res = TRUE, !.chunks = @ \o c[1], !.cur = c[2]]
RECURSIVE ParGroups(_, _, _)
ParGroups(x, lo, gs) ==
  IF gs = <<>> THEN [x EXCEPT !.res = TRUE]
  ELSE ParGroups(IF Head(gs) = 0 THEN x ELSE [x EXCEPT !.chunks = Append(@, Run(lo, Head(gs)))],
                 lo + Head(gs), Tail(gs))

Finish(x) == [Close(x) EXCEPT !.res = TRUE, !.st = "idle"]

(* ---- opening for append ------------------------------------------------ *)
EntryPts(x, i) == IF cfg.var THEN Count(x.chunks[i]) ELSE cfg.cs
RECURSIVE EntriesBefore(_, _)
EntriesBefore(x, i) == IF i <= 1 THEN 0 ELSE EntryPts(x, i - 1) + EntriesBefore(x, i - 1)
Resume(x, k, pc) ==
  LET n == Len(x.chunks)
      idx == IF \E i \in 1..n : pc - 1 < EntriesBefore(x, i) + EntryPts(x, i)
             THEN CHOOSE i \in 1..n : /\ pc - 1 < EntriesBefore(x, i) + EntryPts(x, i)
                                      /\ pc - 1 >= EntriesBefore(x, i)
             ELSE n
      keep == Take(x.chunks[idx], Min(pc - EntriesBefore(x, idx), EntryPts(x, idx)))
      y == [x EXCEPT !.k = k, !.st = "open", !.res = TRUE, !.calls = MaxACalls, !.apps = @ - 1, !.cur = <<>>]
  IN IF pc = 0 THEN [y EXCEPT !.chunks = <<>>]
     ELSE IF n = 0 THEN y
     ELSE LET z == [y EXCEPT !.chunks = SubSeq(@, 1, idx - 1)]
          IN IF k = "seq" THEN SeqMany(z, keep)
             ELSE IF cfg.var THEN [z EXCEPT !.chunks = Append(@, keep)]
             ELSE ParMany(z, keep)

(* ---- steps ------------------------------------------------------------- *)
Init == /\ cfg \in Configs
        /\ w = Fresh
        /\ m = Machine(Session)
        /\ ev = [op |-> "close"]
        /\ hist = <<>>

Do(op, e, nw) ==
  /\ w' = nw /\ ev' = e /\ hist' = Append(hist, op) /\ UNCHANGED cfg
  /\ m' = Upd(Session, m, e)

Open == \E k \in Kinds :
  /\ w.st = "none"
  /\ Do([o |-> "wopen", k |-> k], [op |-> "wopen", k |-> k, res |-> "ok", flt |-> FALSE],
        [w EXCEPT !.k = k, !.st = "open", !.calls = MaxCalls])

Busy == w.st = "open" /\ w.calls > 0
Used(x) == [x EXCEPT !.calls = @ - 1]

Reserve == /\ Busy /\ ~w.res
           /\ Do([o |-> "res"], [op |-> "res", res |-> "ok", flt |-> FALSE], Used([w EXCEPT !.res = TRUE]))

Sizes == {0, 1, cfg.cs - 1, cfg.cs, cfg.cs + 1, 2 * cfg.cs + 1}
         \cup (IF Walk THEN (LET room == cfg.cs - Count(w.cur) IN {room - 1, room, room + 1, room + cfg.cs}) \cap 0..1000 ELSE {})

Write == \E n \in Sizes :
  /\ Busy
  /\ ~(w.k = "par" /\ cfg.var)
  /\ LET x == IF w.k = "seq" THEN SeqMany(w, Run(w.next, n)) ELSE ParMany(w, Run(w.next, n))
     IN Do([o |-> "w", n |-> n], [op |-> "w", lo |-> w.next, n |-> n, res |-> "ok", flt |-> FALSE],
           Used([x EXCEPT !.next = @ + n]))

CloseGrp == /\ Busy /\ w.k = "seq" /\ cfg.var
            /\ Do([o |-> "fin"], [op |-> "fin", res |-> "ok", flt |-> FALSE], Used(Close(w)))

Chunks == \E gs \in Groups :
  /\ Busy /\ cfg.var
  /\ LET x == IF w.k = "seq" THEN SeqGroups(w, w.next, gs) ELSE ParGroups(w, w.next, gs)
     IN Do([o |-> "chunks", s |-> gs], [op |-> "chunks", lo |-> w.next, s |-> gs, res |-> "ok", flt |-> FALSE],
           Used([x EXCEPT !.next = @ + Sum(gs)]))

Script(x, h) == "SCRIPT " \o ToJson([cfg |-> cfg, pts |-> x.next, total |-> Total(m), ops |-> h, app |-> MaxAppends - x.apps])
(* random walks (TLC's simulation): states are printed when they are reached *)
SayWalk == (Walk /\ w.st = "idle" /\ w.apps = 0) => PrintT(Script(w, hist))

Done == /\ w.st = "open"
        /\ Do([o |-> "done"], [op |-> "done", res |-> "ok", flt |-> FALSE], Finish(w))
        /\ Emit /\ ~Walk => PrintT(Script(w, hist'))

AppendOpen == \E k \in Kinds, pc \in ({0, 1, Total(m) - 1, Total(m), cfg.cs, Total(m) - cfg.cs} \cup (IF Walk THEN (Total(m) - 12)..Total(m) ELSE {})) \cap 0..Total(m) :
  /\ w.st = "idle" /\ w.apps > 0
  /\ Do([o |-> "aopen", k |-> k, pc |-> pc], [op |-> "aopen", k |-> k, pc |-> pc, res |-> "ok", flt |-> FALSE],
        Resume(w, k, pc))

Next == Open \/ Reserve \/ Write \/ CloseGrp \/ Chunks \/ Done \/ AppendOpen
Spec == Init /\ [][Next]_vars

(* what an observer of the raw stream sees once the writer is done: a byte   *)
(* per point stands for the compressed bytes                                 *)
Look == LET counts == [i \in 1..Len(w.chunks) |-> Count(w.chunks[i])] IN
  [op |-> "look", res |-> "ok", prefix |-> TRUE, after |-> TRUE, off |-> 8 + Sum(counts),
   tabend |-> 8 + Sum(counts) + 8, wpos |-> 8 + Sum(counts) + 8, len |-> 8 + Sum(counts) + 8,
   bytes |-> counts,
   pts |-> IF cfg.var THEN counts ELSE [i \in 1..Len(counts) |-> cfg.cs],
   content |-> w.chunks, canon |-> [i \in 1..Len(counts) |-> TRUE],
   counts |-> counts]

Refines == /\ [][OK(Session, m, ev')]_vars
StreamOK == w.st = "idle" => LookOK(Session, m, Look)
(* the points of the stream are the ones written, whatever the calls         *)
RECURSIVE Join(_, _)
Join(cs, acc) == IF cs = <<>> THEN acc ELSE Join(Tail(cs), Cat(acc, Head(cs)))
NothingLost == w.st = "idle" => Join(w.chunks, <<>>) = m.pts
=============================================================================
