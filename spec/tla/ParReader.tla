------------------------------ MODULE ParReader -----------------------------
(* The parallel decompressor, shaped like src/laszip/parallel/               *)
(* decompression.rs, in lockstep with the abstract cursor of LazAbs.         *)
(*                                                                           *)
(* What the chunk jobs compute does not depend on their order (each has its  *)
(* own slice of input and output; module ParJobs explores their              *)
(* interleavings), so a call is one transition here.                         *)
EXTENDS Streams

CONSTANTS Configs, Emit,
          Walk   \* simulation: length of the histories to print (0: none)

VARIABLES cfg,
          g,      \* points the codec can make up past the end of an incomplete last chunk
          d,      \* [rest: ids decompressed but not handed out, lcr: last chunk read,
                  \*  sp: chunk the source is positioned at, N+1 = elsewhere]
          m, ev, hist
vars == <<cfg, g, d, m, ev, hist>>
View == <<cfg, g, d, m, ev.op>>

N == NChunks(cfg)
Garbage(n) == [j \in 1..n |-> -1]
(* decompressing n points of chunk k, read from the source at chunk sp       *)
Decode(k, sp, n) ==
  IF sp # k THEN Garbage(n)
  ELSE LET ids == IdsOf(cfg, k) IN [j \in 1..n |-> IF j <= Len(ids) /\ ~Wrong(cfg, k) THEN ids[j] ELSE -1]
(* ... until the input is exhausted, at most n points                        *)
DecodeAvail(k, sp, n) == Decode(k, sp, Min(n, cfg.sizes[k + 1] + g))

(* chunks to load for np points from chunk a on: <<number of chunks, points>> *)
RECURSIVE Load(_, _, _, _)
Load(a, np, nc, acc) ==
  IF a + nc >= N THEN <<nc, acc>>
  ELSE LET acc2 == acc + TabPts(cfg, a + nc)
       IN IF acc2 >= np THEN <<nc + 1, acc2>> ELSE Load(a, np, nc + 1, acc2)

RECURSIVE Flat(_, _, _)
Flat(a, n, sp) == IF n = 0 THEN <<>> ELSE Decode(a, sp, TabPts(cfg, a)) \o Flat(a + 1, n - 1, sp + 1)

(* decompress_many: <<state, result, ids>>                                   *)
Call(x, n) ==
  IF Len(x.rest) >= n
  THEN <<[x EXCEPT !.rest = SubSeq(@, n + 1, Len(@))], "ok", SubSeq(x.rest, 1, n)>>
  ELSE LET want == n - Len(x.rest)
           a == x.lcr + 1
           ld == Load(a, want, 0, 0)
           nc == ld[1]
       IN IF nc = 0 \/ ld[2] < want THEN <<[x EXCEPT !.rest = <<>>], "err", <<>>>>
          \* what a failed call leaves behind is not points of the stream
          ELSE IF \E k \in a..(a + nc - 1) : Fails(cfg, k) THEN <<[x EXCEPT !.rest = Garbage(2), !.sp = N + 1], "err", <<>>>>
          ELSE LET last == a + nc - 1
                   head == Flat(a, nc - 1, x.sp)
                   fromLast == want - Len(head)
                   left == TabPts(cfg, last) - fromLast
                   all == IF ~cfg.var /\ last = N - 1
                          THEN LET av == DecodeAvail(last, x.sp + nc - 1, fromLast + left)
                               IN IF Len(av) >= fromLast THEN av ELSE <<>>
                          ELSE Decode(last, x.sp + nc - 1, fromLast + left)
               IN IF all = <<>> THEN <<[x EXCEPT !.rest = <<>>, !.sp = N + 1], "err", <<>>>>
                  ELSE <<[rest |-> SubSeq(all, fromLast + 1, Len(all)), lcr |-> last, sp |-> x.sp + nc],
                         "ok", x.rest \o head \o SubSeq(all, 1, fromLast)>>

RECURSIVE Ones(_, _, _)
Ones(x, n, acc) ==
  IF n = 0 THEN <<x, "ok", acc>>
  ELSE LET o == Call(x, 1) IN IF o[2] = "err" THEN <<o[1], "err", acc>> ELSE Ones(o[1], n - 1, acc \o o[3])

(* <<state, result>>                                                         *)
SeekState(i) ==
  LET k == ChunkOf(cfg, i) IN
  IF k = -1 THEN <<[rest |-> <<>>, lcr |-> N - 1, sp |-> N + 1], "ok">>
  ELSE IF Fails(cfg, k) THEN <<[d EXCEPT !.rest = Garbage(2), !.sp = k + 1], "err">>
  ELSE LET ids == IF k = N - 1 THEN DecodeAvail(k, k, TabPts(cfg, k)) ELSE Decode(k, k, TabPts(cfg, k))
           p == i - Before(cfg, k)
       IN <<[rest |-> IF p >= Len(ids) THEN <<>> ELSE SubSeq(ids, p + 1, Len(ids)), lcr |-> k, sp |-> k + 1], "ok">>

Init == /\ cfg \in Configs
        /\ g \in IF cfg.var \/ N = 0 \/ Walk > 0 THEN {0} ELSE 0..Min(2, cfg.cs - cfg.sizes[N])
        /\ d = [rest |-> <<>>, lcr |-> -1, sp |-> 0]
        /\ m = OpenReader(Written(cfg), TRUE, "yes")
        /\ ev = [op |-> "close"]
        /\ hist = << [o |-> "ropen", k |-> "par"] >>

Script(h) == PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ops |-> WriteOps(cfg) \o h]))
Say(h) == IF Emit /\ Walk = 0 THEN Script(h) ELSE TRUE
SayWalk == (Walk > 0 /\ Len(hist) = Walk) => Script(hist)

Do(op, e, nd) ==
  /\ d' = nd /\ ev' = e /\ m' = Upd(SessionOf(cfg), m, e) /\ hist' = Append(hist, op) /\ UNCHANGED <<cfg, g>>
  /\ (g = 0 => Say(hist'))

ReadSizes == IF Walk > 0 /\ NPoints(cfg) > m.cur THEN 1..(NPoints(cfg) - m.cur + 1)
             ELSE ({1, 2, cfg.cs - 1, cfg.cs, cfg.cs + 1, 2 * cfg.cs + 1, NPoints(cfg), NPoints(cfg) - m.cur,
                    NPoints(cfg) - m.cur + 1} \cap 1..100)

Read == \E n \in ReadSizes, mode \in {"one", "many"} :
  LET r == IF mode = "many" THEN Call(d, n) ELSE Ones(d, n, <<>>)
      e == [op |-> "r", n |-> n, m |-> mode, res |-> r[2], got |-> Len(r[3]),
            runs |-> ToRuns(r[3]), chg |-> <<>>, diff |-> DiffAt(r[3], m.cur), flt |-> FALSE]
  IN /\ m.cur # AnyCur
     /\ (IF Walk > 0 /\ ev.op = "r" THEN ev.res = "ok" ELSE TRUE)
     /\ Do([o |-> "r", n |-> n, m |-> mode], e, r[1])

Seek == \E i \in IF Walk > 0 THEN Near(cfg, m) ELSE TargetsOf(cfg, m) :
  /\ (IF Walk > 0 /\ ev.op = "seek" THEN m.cur = AnyCur ELSE TRUE)
  /\ Do([o |-> "seek", i |-> i], [op |-> "seek", i |-> i, res |-> SeekState(i)[2], flt |-> FALSE], SeekState(i)[1])

Next == Read \/ Seek
Spec == Init /\ [][Next]_vars

Refines == [][OK(SessionOf(cfg), m, ev')]_vars
=============================================================================
