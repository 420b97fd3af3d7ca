------------------------------- MODULE LazAbs -------------------------------
(* Abstract specification of a LAZ point stream and of the objects working   *)
(* on it, at the level a user of the library sees:                           *)
(*                                                                           *)
(*  - a stream is a sequence of points cut into chunks, an offset field      *)
(*    and a chunk table;                                                     *)
(*  - a writer (sequential, parallel, appender) extends the sequence;        *)
(*  - a reader is a cursor over the sequence;                                *)
(*  - faults, crashes and truncation turn a finished stream into a prefix.   *)
(*                                                                           *)
(* Points are natural numbers (ids of the points of a pool); a sequence of   *)
(* points is kept as a sequence of runs <<lo, hi>> of consecutive ids.       *)
(* The same operators are used by the trace specification (LazTrace), by the *)
(* generators of behaviours (GenWriter, GenReader, GenAppend) and by the     *)
(* refinement checks of the implementation-shaped models.                    *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Seqs == INSTANCE SequencesExt

(***************************** sequences of runs ****************************)
RunLen(r) == r[2] - r[1] + 1

Count(rs) == Seqs!FoldLeft(LAMBDA a, r : a + RunLen(r), 0, rs)

(* adds a run at the end; adjacent runs are merged, so equal sequences of    *)
(* points have equal representations                                         *)
AddRun(rs, r) ==
  IF RunLen(r) <= 0 THEN rs
  ELSE IF rs # <<>> /\ rs[Len(rs)][2] + 1 = r[1] /\ r[1] > 0
       THEN [rs EXCEPT ![Len(rs)] = <<@[1], r[2]>>]
       ELSE Append(rs, r)

RECURSIVE Cat(_, _)
Cat(a, b) == IF b = <<>> THEN a ELSE Cat(AddRun(a, Head(b)), Tail(b))

RECURSIVE Take(_, _)
Take(rs, k) ==
  IF k <= 0 \/ rs = <<>> THEN <<>>
  ELSE LET r == Head(rs) n == RunLen(r)
       IN IF k >= n THEN <<r>> \o Take(Tail(rs), k - n)
          ELSE << <<r[1], r[1] + k - 1>> >>

RECURSIVE Drop(_, _)
Drop(rs, k) ==
  IF k <= 0 \/ rs = <<>> THEN rs
  ELSE LET r == Head(rs) n == RunLen(r)
       IN IF k >= n THEN Drop(Tail(rs), k - n)
          ELSE << <<r[1] + k, r[2]>> >> \o Tail(rs)

Slice(rs, i, n) == Take(Drop(rs, i), n)

Sum(s) == Seqs!FoldLeft(LAMBDA a, x : a + x, 0, s)

(* 0 and the sums of the first 1, 2, ... elements                            *)
Sums(s) == Seqs!FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + x), <<0>>, s)
SumTo(s, k) == Sums(s)[k + 1]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

(******************************** the machine *******************************)
(* ph     "new"     nothing finished yet                                     *)
(*        "done"    a finished stream                                        *)
(*        "broken"  truncated, or its writer stopped before finishing        *)
(*        "unspec"  a writer reported an I/O error: nothing is promised      *)
(*        "hurt"    a finished stream in which bytes of chunks were altered  *)
(* pts    the points of the stream, in order                                 *)
(* must   chunk boundaries (numbers of points before them) the caller asked  *)
(*        for by closing groups; may: boundaries left to the implementation  *)
(*        (where a variable-size stream was reopened for appending)          *)
(* bytes  byte count of each chunk as last observed, pcs their point counts  *)
(* have   how many bytes of the stream are left (broken streams)             *)
(* rd     the reader: "none", "open"; par; cur = index of the next point,    *)
(*        EndCur = positioned past every chunk, AnyCur = unspecified         *)
(* tbl    does the reader know the chunk table: "yes", "no", "maybe"         *)
(* safe   points in chunks an appender leaves alone (it writes over the rest) *)
(* amb    the bytes left happen to read as an offset to a chunk table        *)
(* hurt   damaged parts of a finished stream (ph "hurt"): <<lo, hi>>, the points *)
(*        lo..hi-1 are those of a chunk in which bytes were altered; soft:   *)
(*        only the bytes of layers, whose fields are not compared then; aff: *)
(*        the reader decompresses (some of) the damaged layers               *)
(* save   the machine to come back to (sessions that repeat a block)         *)
EndCur == -1
AnyCur == -2

NewMachine(lay, var, cs, pw1) ==
  [ph |-> "new", lay |-> lay, var |-> var, cs |-> cs, pw1 |-> pw1,
   pts |-> <<>>, must |-> {}, may |-> {},
   wr |-> "none", appended |-> FALSE, safe |-> 0, amb |-> FALSE, save |-> <<>>, looked |-> FALSE, bytes |-> <<>>, pcs |-> <<>>, have |-> 0,
   hurt |-> {}, soft |-> FALSE, aff |-> TRUE,
   noseek |-> FALSE, rd |-> "none", par |-> FALSE, cur |-> 0, tbl |-> "no"]

Total(m) == Count(m.pts)

(* number of points the chunks could hold, as far as a reader can know       *)
Cap(m) == IF m.var THEN Total(m) ELSE CeilDiv(Total(m), m.cs) * m.cs

(************************************ writers *******************************)
OpenWriter(m) == [m EXCEPT !.ph = "new", !.pts = <<>>, !.must = {}, !.may = {},
                           !.wr = "fresh", !.appended = FALSE, !.amb = FALSE, !.looked = FALSE, !.rd = "none"]

WritePts(m, lo, n) == [m EXCEPT !.pts = AddRun(@, <<lo, lo + n - 1>>)]

(* closing a group; a group without points leaves no trace                   *)
CloseGroup(m) == IF Total(m) = 0 THEN m ELSE [m EXCEPT !.must = @ \cup {Total(m)}]

(* every group of a list of groups is closed                                 *)
WriteGroups(m, lo, sizes) ==
  LET ends == Sums(sizes) t == Total(m)
  IN [WritePts(m, lo, Sum(sizes)) EXCEPT
        !.must = @ \cup ({t + ends[k] : k \in 2..Len(ends)} \ {0})]

FinishWriter(m) == [m EXCEPT !.ph = "done", !.wr = "none"]

(* opening for append keeps the first pc points                              *)
\* where the chunk that holds point pc-1 starts (the last one that is written again)
SafeBefore(m, pc) ==
  IF pc = 0 THEN 0
  ELSE IF ~m.var THEN ((pc - 1) \div m.cs) * m.cs
  ELSE LET bs == {b \in Seqs!ToSet(Sums(m.pcs)) : b <= pc - 1}
       IN IF ~m.looked THEN 0 ELSE CHOOSE b \in bs : \A x \in bs : x <= b

OpenAppend(m, pc) ==
  [m EXCEPT !.ph = "new", !.safe = SafeBefore(m, pc), !.wr = "append", !.appended = TRUE, !.looked = FALSE, !.rd = "none",
            !.pts = Take(@, pc),
            !.must = {b \in @ : b < pc},
            !.may = (@ \cup {pc}) \cap (0..pc)]

(******************************** chunk layout ******************************)
(* sizes of the chunks with fixed-size chunks                                *)
FixedSizes(m) ==
  LET t == Total(m) k == CeilDiv(t, m.cs)
  IN [i \in 1..k |-> IF i < k THEN m.cs ELSE t - (k - 1) * m.cs]

(* boundaries strictly inside the stream of a list of chunk sizes            *)
Boundaries(sizes) == LET ends == Sums(sizes) IN {ends[k] : k \in 2..Len(sizes)}

LayoutOK(m, sizes) ==
  IF m.var
  THEN /\ Sum(sizes) = Total(m)
       /\ \A i \in 1..Len(sizes) : sizes[i] > 0
       /\ LET b == Boundaries(sizes) IN
            /\ {x \in m.must : x < Total(m)} \subseteq b
            /\ b \subseteq m.must \cup m.may
  ELSE sizes = FixedSizes(m)

(* can a chunk start at point p                                              *)
Starts(m, p) == IF m.var THEN p \in m.must \cup m.may ELSE p % m.cs = 0

(* what each chunk of the given sizes must contain                           *)
ContentOK(m, sizes, cont) ==
  /\ Len(cont) = Len(sizes)
  /\ Seqs!FoldLeft(LAMBDA a, k : [ok |-> a.ok /\ cont[k] = Take(a.rest, sizes[k]), rest |-> Drop(a.rest, sizes[k])],
              [ok |-> TRUE, rest |-> m.pts], [k \in 1..Len(sizes) |-> k]).ok

(************************************ readers *******************************)
OpenReader(m, isPar, tbl) == [m EXCEPT !.rd = "open", !.par = isPar, !.cur = 0, !.tbl = tbl]

(* how many points a request of n may return at most from here               *)
Avail(m) == IF m.cur >= 0 THEN Max(0, Total(m) - m.cur) ELSE 0

(* the points of chunks that lie completely inside the remaining bytes: the  *)
(* first chunk starts 8 bytes into the stream                                *)
CompleteChunks(m) ==
  LET ends == Sums(m.bytes)
      ks == {k \in 0..Len(m.bytes) : 8 + ends[k + 1] <= m.have}
  IN CHOOSE k \in ks : \A j \in ks : j <= k

PointsOf(m, k) == Sums(m.pcs)[k + 1]
CompletePoints(m) == IF m.appended THEN Min(m.safe, PointsOf(m, CompleteChunks(m)))
                     ELSE PointsOf(m, CompleteChunks(m))

\* how many points a reader of a broken stream can be held to
Reliable(m) == IF m.appended THEN m.safe ELSE Total(m)

(* Damage: the points of [a, a+n) that come before the first damaged one     *)
Damaged(m) == IF m.ph = "hurt" /\ (~m.soft \/ m.aff) THEN m.hurt ELSE {}
Clean(m, a, n) ==
  LET hit == {Max(h[1], a) - a : h \in {x \in Damaged(m) : x[2] > a /\ x[1] < a + n}}
  IN IF hit = {} THEN n ELSE CHOOSE x \in hit : \A y \in hit : x <= y
(* chunks are independent: bytes of one have no effect on others             *)
Hurt(m, e) ==
  IF e.wild \/ m.ph = "unspec" THEN [m EXCEPT !.ph = "unspec", !.rd = "none"]
  ELSE IF e.hi <= e.lo THEN [m EXCEPT !.rd = "none"]
  ELSE [m EXCEPT !.ph = "hurt", !.rd = "none", !.hurt = @ \cup {<<e.lo, e.hi>>}, !.soft = IF m.ph = "hurt" THEN @ /\ e.soft ELSE e.soft]

SeekTo(m, i) ==
  [m EXCEPT !.cur = IF i < Total(m) THEN i ELSE IF i >= Cap(m) THEN EndCur ELSE AnyCur]
=============================================================================
