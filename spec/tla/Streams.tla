------------------------------- MODULE Streams ------------------------------
(* What the implementation-shaped models share: a finished stream and what   *)
(* its chunk table tells a reader.                                           *)
(* c: [sizes, cs, var, lay, bad, soft, fate]: bad are the damaged chunks,    *)
(* soft if only layers are, fate what comes of decompressing them: an error  *)
(* or points (wrong ones, unless soft)                                       *)
EXTENDS LazRules, TLC, Json
LOCAL Seqs == INSTANCE SequencesExt

NChunks(c) == Len(c.sizes)
NPoints(c) == Sum(c.sizes)
(* point counts as the chunk table gives them (k from 0)                     *)
TabPts(c, k) == IF c.var THEN c.sizes[k + 1] ELSE c.cs
RECURSIVE Before(_, _)
Before(c, k) == IF k = 0 THEN 0 ELSE TabPts(c, k - 1) + Before(c, k - 1)
(* ids of the points of chunk k, from 0                                      *)
IdsOf(c, k) == [j \in 1..c.sizes[k + 1] |-> SumTo(c.sizes, k) + j - 1]
ChunkOf(c, i) == IF \E k \in 0..(NChunks(c) - 1) : Before(c, k) <= i /\ i < Before(c, k) + TabPts(c, k)
                 THEN CHOOSE k \in 0..(NChunks(c) - 1) : Before(c, k) <= i /\ i < Before(c, k) + TabPts(c, k)
                 ELSE -1

(* what decompressing a damaged chunk gives for its points                   *)
Fails(c, k) == k \in c.bad /\ c.fate = "err"
Wrong(c, k) == k \in c.bad /\ c.fate = "junk" /\ ~c.soft

(* places of ids that are not those from i on                                *)
DiffAt(ids, i) == Seqs!SetToSeq({<<j - 1, j>> : j \in {x \in 1..Len(ids) : ids[x] # i + x - 1}})

RECURSIVE ToRuns(_)
(* a list of ids as runs; -1 is not a point                                  *)
ToRuns(ids) == IF ids = <<>> THEN <<>>
               ELSE LET r == ToRuns(SubSeq(ids, 1, Len(ids) - 1)) x == ids[Len(ids)]
                    IN IF x = -1 THEN (IF r # <<>> /\ r[Len(r)] = <<-1, -1>> THEN r ELSE Append(r, <<-1, -1>>))
                       ELSE AddRun(r, <<x, x>>)

SessionOf(c) == [lay |-> c.lay, var |-> c.var, cs |-> c.cs, pw1 |-> FALSE, over |-> FALSE]

(* the calls that write the stream, and the machine once it is written       *)
WriteOps(c) == << [o |-> "wopen"] >> \o
               (IF c.var THEN << [o |-> "chunks", s |-> c.sizes] >> ELSE << [o |-> "w", n |-> NPoints(c)] >>)
               \o << [o |-> "done"] >>
Written(c) == LET m1 == OpenWriter(Machine(SessionOf(c)))
                  m2 == IF c.var THEN WriteGroups(m1, 0, c.sizes) ELSE WritePts(m1, 0, NPoints(c))
              IN Seqs!FoldLeft(LAMBDA a, k : IF k - 1 \in c.bad
                                            THEN Hurt(a, [wild |-> FALSE, soft |-> c.soft, lo |-> SumTo(c.sizes, k - 1), hi |-> SumTo(c.sizes, k)])
                                            ELSE a,
                               FinishWriter(m2), [k \in 1..NChunks(c) |-> k])

(* index targets worth seeking to                                            *)
TargetsOf(c, mm) ==
  {x \in {0, 1, NPoints(c) - 1, NPoints(c), NPoints(c) + 1, Cap(mm), Cap(mm) + 5, mm.cur, mm.cur - 1}
         \cup UNION {{Before(c, k) - 1, Before(c, k), Before(c, k) + 1} : k \in 0..NChunks(c)} : x >= 0}
(* ... in random walks: mostly near where the cursor is                      *)
Near(c, mm) == {x \in TargetsOf(c, mm) \cup (IF mm.cur = AnyCur THEN 0..NPoints(c) ELSE (mm.cur - 3)..(mm.cur + 3)) : x >= 0}
=============================================================================
