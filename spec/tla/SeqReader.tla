------------------------------ MODULE SeqReader -----------------------------
(* The sequential decompressor, shaped like src/laszip/sequential/           *)
(* decompression.rs, run in lockstep with the abstract cursor of LazAbs.     *)
(*                                                                           *)
(* Every transition is one API call.  TLC checks that each call's outcome is *)
(* one LazAbs allows (property Refines), over all histories: the state is    *)
(* the decompressor's own state, so histories of any length are covered.     *)
(* Each transition is also printed as a script (the shortest history to the  *)
(* source state plus the call), which the harness replays on the real code:  *)
(* a transition cover of this model.                                         *)
EXTENDS Streams

CONSTANTS Configs,   \* set of [sizes, cs, var, lay]
          Emit,      \* print scripts?
          Walk       \* simulation: length of the histories to print (0: none)

VARIABLES cfg,     \* the stream
          d,       \* the decompressor
          m,       \* abstract machine
          ev,      \* last event
          hist     \* calls so far (not part of the view)
vars == <<cfg, d, m, ev, hist>>
View == <<cfg, d, m, ev.op>>   \* what was called last distinguishes histories that the cover takes

N == NChunks(cfg)

(* d: where the codec is - chunk dc, dk points decoded from it (dc = N: past *)
(* the last chunk); read, nin, cur as in the code                            *)
Fresh == [dc |-> 0, dk |-> 0, read |-> 0, nin |-> 1, cur |-> 0]

(* decompress_one: <<state, "ok"/"err", id>>; -1 is not a point              *)
One(x) ==
  LET y == IF x.read = x.nin
           THEN [x EXCEPT !.read = 0, !.cur = @ + 1, !.dk = 0,
                          !.dc = IF x.dc < N /\ x.dk = cfg.sizes[x.dc + 1] /\ ~Wrong(cfg, x.dc) THEN @ + 1 ELSE N]
           ELSE x
  IN IF y.cur >= N \/ (y.dc < N /\ Fails(cfg, y.dc)) THEN <<y, "err", -1>>
     ELSE LET ok == y.dc < N /\ y.dk < cfg.sizes[y.dc + 1]
              id == IF ok /\ ~Wrong(cfg, y.dc) THEN SumTo(cfg.sizes, y.dc) + y.dk ELSE -1
              z  == [y EXCEPT !.dk = IF ok THEN @ + 1 ELSE @, !.read = @ + 1,
                              !.nin = IF y.read = 0 THEN TabPts(cfg, y.cur) ELSE @]
          IN <<z, "ok", id>>

RECURSIVE Many(_, _, _)
(* n calls: <<state, result, ids>>                                           *)
Many(x, n, acc) ==
  IF n = 0 THEN <<x, "ok", acc>>
  ELSE LET o == One(x) IN
       IF o[2] = "err" THEN <<o[1], "err", acc>> ELSE Many(o[1], n - 1, Append(acc, o[3]))

(* <<state, result>>                                                         *)
SeekState(i) ==
  LET k == ChunkOf(cfg, i) IN
  IF k = -1
  THEN <<[dc |-> N, dk |-> 0, read |-> 0, nin |-> d.nin, cur |-> N], "ok">>
  ELSE LET r == Many([dc |-> k, dk |-> 0, read |-> 0, nin |-> d.nin, cur |-> k], i - Before(cfg, k), <<>>) IN <<r[1], r[2]>>

Init == /\ cfg \in Configs
        /\ d = Fresh
        /\ m = OpenReader(Written(cfg), FALSE, "yes")
        /\ ev = [op |-> "close"]
        /\ hist = << [o |-> "ropen", k |-> "seq"] >>

Script(h) == PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ops |-> WriteOps(cfg) \o h]))
Say(h) == IF Emit /\ Walk = 0 THEN Script(h) ELSE TRUE
(* random walks (TLC's simulation): states are printed when they are reached *)
SayWalk == (Walk > 0 /\ Len(hist) = Walk) => Script(hist)

Do(op, e, nd) ==
  /\ d' = nd /\ ev' = e /\ m' = Upd(SessionOf(cfg), m, e) /\ hist' = Append(hist, op) /\ UNCHANGED cfg
  /\ Say(hist')

ReadSizes == IF Walk > 0 /\ NPoints(cfg) > m.cur THEN 1..(NPoints(cfg) - m.cur + 1)
             ELSE {1, 2, cfg.cs, cfg.cs + 1, NPoints(cfg)} \ {0}

Read == \E n \in ReadSizes, mode \in {"one", "many"} :
  LET r == Many(d, n, <<>>)
      got == IF mode = "many" /\ r[2] = "err" THEN 0 ELSE Len(r[3])
      e == [op |-> "r", n |-> n, m |-> mode, res |-> r[2], got |-> got,
            runs |-> ToRuns(SubSeq(r[3], 1, got)), chg |-> <<>>, diff |-> <<>>, flt |-> FALSE]
  IN /\ m.cur # AnyCur
     /\ (IF Walk > 0 /\ ev.op = "r" THEN ev.res = "ok" ELSE TRUE)
     /\ Do([o |-> "r", n |-> n, m |-> mode], e, r[1])

Seek == \E i \in IF Walk > 0 THEN Near(cfg, m) ELSE TargetsOf(cfg, m) :
  /\ (IF Walk > 0 /\ ev.op = "seek" THEN m.cur = AnyCur ELSE TRUE)
  /\ Do([o |-> "seek", i |-> i], [op |-> "seek", i |-> i, res |-> SeekState(i)[2], flt |-> FALSE], SeekState(i)[1])

Next == Read \/ Seek
Spec == Init /\ [][Next]_vars

Refines == [][OK(SessionOf(cfg), m, ev')]_vars
=============================================================================
