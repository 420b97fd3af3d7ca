------------------------------ MODULE LazRules ------------------------------
(* Which observations of the library are behaviours of LazAbs.               *)
(*                                                                           *)
(* s is the configuration of a session, mm the abstract machine, e an event: *)
(* an API call with its arguments and its observed outcome, or an            *)
(* observation of the raw stream.  OK(s, mm, e) says whether the event is    *)
(* allowed, Upd(s, mm, e) is the machine after it.                           *)
(* Used by LazTrace (events recorded from the real code) and by the          *)
(* implementation-shaped models (events of the model): both must refine      *)
(* LazAbs.                                                                   *)
EXTENDS LazAbs
LOCAL Seqs == INSTANCE SequencesExt

Machine(s) == NewMachine(s.lay, s.var, s.cs, s.pw1)

Runs(e) == [k \in 1..Len(e.runs) |-> <<e.runs[k][1], e.runs[k][2]>>]
SeqRuns(x) == [k \in 1..Len(x) |-> <<x[k][1], x[k][2]>>]

(* ---- the raw stream ---------------------------------------------------- *)
(* sizes of the chunks an observation of the raw stream shows; entries of    *)
(* empty chunks are tolerated in variable-size tables                        *)
LookIdx(s, e) == {k \in 1..Len(e.bytes) : ~(s.var /\ e.pts[k] = 0)}
Pick(q, idx) == Seqs!FoldLeft(LAMBDA a, k : IF k \in idx THEN Append(a, q[k]) ELSE a, <<>>, [k \in 1..Len(q) |-> k])

LookOK(s, mm, e) ==
  /\ e.res = "ok"
  /\ e.prefix
  /\ mm.appended \/ e.after
  /\ e.off = 8 + Sum(e.bytes)
  /\ e.tabend <= e.wpos
  /\ IF mm.appended \/ s.over THEN e.len >= e.wpos ELSE e.len = e.wpos
  /\ LET idx == LookIdx(s, e)
         cont == Pick(e.content, idx)
         sizes == IF s.var THEN Pick(e.pts, idx)
                  ELSE [k \in 1..Len(cont) |-> Count(SeqRuns(cont[k]))]
     IN /\ LayoutOK(mm, sizes)
        /\ ContentOK(mm, sizes, [k \in 1..Len(cont) |-> SeqRuns(cont[k])])
        /\ \A k \in idx : e.canon[k]
        /\ s.lay => Pick(e.counts, idx) = sizes   \* layered chunks carry their number of points

LookNext(s, mm, e) ==
  LET sizes == [k \in 1..Len(e.content) |-> Count(SeqRuns(e.content[k]))]
  IN [mm EXCEPT !.bytes = e.bytes, !.pcs = sizes, !.looked = TRUE]

(* the crate's own reading of the table, against the observation before it   *)
TableOK(s, mm, e) ==
  IF e.flt THEN e.res = "err"
  ELSE IF mm.noseek THEN e.res = "err"
  ELSE IF mm.ph \in {"broken", "unspec"} THEN e.res # "panic"
  ELSE /\ e.res = "ok"
       /\ e.pos = 8
       /\ mm.looked => e.bytes = mm.bytes
       /\ IF s.var THEN mm.looked => e.pts = mm.pcs
                   ELSE \A k \in 1..Len(e.pts) : e.pts[k] = s.cs

(* ---- readers ----------------------------------------------------------- *)
(* Must opening a reader succeed on an undamaged stream?                     *)
OpenMust(s, mm, par) ==
  IF s.pw1 THEN IF par THEN "err" ELSE "ok"
  ELSE IF mm.noseek THEN IF par \/ (s.var /\ ~s.lay) THEN "err" ELSE "ok"
  ELSE "ok"

OpenTable(s, mm) == IF s.pw1 \/ mm.noseek THEN "no" ELSE "yes"

ROpenOK(s, mm, e) ==
  CASE mm.ph = "unspec" \/ mm.amb -> e.res # "panic"
    [] e.flt -> IF e.k = "par" THEN e.res = "err" ELSE e.res \in {"err", "ok"}
    [] mm.ph = "broken" ->
         \* whatever is left may be refused, but chunks that are completely there stay readable
         /\ e.res \in {"err", "ok"}
         /\ (e.k = "seq" /\ mm.looked /\ ~mm.noseek /\ (s.lay \/ ~s.var) /\ mm.have >= 8) => e.res = "ok"
    [] OTHER -> e.res = OpenMust(s, mm, e.k = "par")

ROpenNext(s, mm, e) ==
  IF e.res # "ok" THEN [mm EXCEPT !.rd = "none"]
  ELSE LET m1 == OpenReader([mm EXCEPT !.aff = e.aff], e.k = "par",
                   IF mm.ph = "broken" \/ e.flt THEN "maybe" ELSE OpenTable(s, mm))
       IN IF mm.ph = "unspec" \/ mm.amb THEN [m1 EXCEPT !.cur = AnyCur] ELSE m1

(* A read that reaches a damaged chunk may fail, or deliver anything for it: *)
(* what comes before it is right, as are the fields of undamaged layers, and *)
(* (in parallel, where each chunk is found by the table) other chunks.       *)
(* e.diff: which of the delivered points are not those of their places       *)
TouchOK(mm, e, a, clean, par) ==
  LET k == Min(e.got, clean)
      upto == Min(e.got, Max(0, Total(mm) - a))
  IN /\ Take(Runs(e), k) = Slice(mm.pts, a, k)
     /\ (mm.soft => Take(Runs(e), upto) = Slice(mm.pts, a, upto))
     /\ (par /\ e.res = "ok") =>
          \A j \in 1..Len(e.diff) : \A p \in (a + e.diff[j][1])..(a + e.diff[j][2] - 1) :
            p >= Total(mm) \/ \E h \in Damaged(mm) : h[1] <= p /\ p < h[2]

(* a read of e.n points, of which e.got were delivered before the result     *)
ReadOK(s, mm, e) ==
  /\ e.res # "panic"
  /\ IF mm.cur = AnyCur THEN TRUE
     ELSE LET av == Avail(mm)
              right == Runs(e) = Slice(mm.pts, mm.cur, e.got)
              clean == Clean(mm, mm.cur, e.n)
          IN CASE mm.cur >= 0 /\ clean < e.n -> /\ TouchOK(mm, e, mm.cur, clean, mm.par)
                                                     /\ (e.res = "err" /\ e.m # "many") => e.got >= clean
               [] mm.ph = "broken" /\ mm.appended ->
                    \* an appender stopped: only the chunks it left alone are certain
                    LET k == Max(0, Min(e.got, mm.safe - mm.cur))
                    IN /\ Take(Runs(e), k) = Slice(mm.pts, mm.cur, k)
                       /\ (e.res = "err" /\ e.m # "many" /\ ~mm.par /\ (s.lay \/ ~s.var))
                             => mm.cur + e.got >= Min(CompletePoints(mm), mm.cur + e.n)
               [] mm.ph = "broken" ->
                    /\ e.got <= av => right
                    /\ (e.got > av) => (~s.var \/ mm.tbl = "no")  \* counts unknown: caller's duty
                    /\ (e.res = "err" /\ e.m # "many" /\ ~mm.par /\ (s.lay \/ ~s.var))
                          => mm.cur + e.got >= Min(CompletePoints(mm), mm.cur + e.n)
               [] e.flt -> e.res = "err" /\ right
               [] mm.cur >= 0 /\ e.n <= av -> e.res = "ok" /\ e.got = e.n /\ right
               [] mm.cur = EndCur -> IF e.n = 0 THEN TRUE ELSE e.res = "err" /\ e.got = 0
               [] OTHER ->
                    \* more than there is: what is there is right; reaching beyond every chunk is an error
                    /\ (e.got <= av) => right
                    /\ (e.got > av) => Take(Runs(e), av) = Slice(mm.pts, mm.cur, av)
                    /\ (s.pw1 \/ mm.cur + e.n <= Cap(mm) \/ mm.tbl = "no" \/ e.res = "err")
                    /\ (e.got > av => (mm.cur + e.got <= Cap(mm) \/ s.pw1 \/ mm.tbl = "no"))

(* e.chg: where fields that are not selected change from one of the points   *)
(* that were read to the next. In a chunk of layers they are never           *)
(* decompressed, every point has what the first one of its chunk has.        *)
HeldOK(s, mm, e, at) ==
  (s.lay /\ mm.ph = "done" /\ at >= 0)
    => \A k \in 1..Len(e.chg) : at + e.chg[k] < Total(mm) => Starts(mm, at + e.chg[k])

ReadNext(s, mm, e) ==
  [mm EXCEPT !.cur =
     IF @ >= 0 /\ e.res = "ok" /\ e.got = e.n /\ @ + e.n <= Total(mm)
        /\ (mm.soft \/ Clean(mm, @, e.n) = e.n) THEN @ + e.n
     ELSE IF @ = EndCur THEN EndCur
     ELSE AnyCur]

(* seeking decompresses the chunk of the point it goes to                    *)
SeekHits(mm, i) == \E h \in Damaged(mm) : h[1] <= i /\ i < h[2]
SeekOK(s, mm, e) ==
  /\ e.res # "panic"
  /\ CASE mm.ph \in {"unspec", "broken"} -> TRUE
       [] e.flt -> e.res = "err"
       [] mm.tbl = "no" -> e.res = "err"
       [] mm.tbl = "maybe" -> TRUE
       [] e.i < Total(mm) /\ ~SeekHits(mm, e.i) -> e.res = "ok"
       [] OTHER -> TRUE

SeekNext(s, mm, e) ==
  IF e.res # "ok" THEN (IF mm.tbl = "no" THEN mm ELSE [SeekTo(mm, e.i) EXCEPT !.cur = AnyCur])
  ELSE IF mm.ph = "unspec" \/ (~mm.soft /\ SeekHits(mm, e.i)) THEN [mm EXCEPT !.cur = AnyCur]
  ELSE SeekTo(mm, e.i)

(* whole-buffer decompression helpers                                        *)
AtStart(mm, e) == IF mm.ph = "hurt" THEN [mm EXCEPT !.aff = e.aff] ELSE mm
DBufOK(s, mm, e) ==
  /\ e.res # "panic"
  /\ CASE mm.ph = "unspec" \/ mm.amb \/ (mm.ph = "broken" /\ mm.appended) -> TRUE
       \* the unchunked layout: no table to decompress in parallel with
       [] s.pw1 /\ e.k # "seq" -> e.res = "err"
       [] s.pw1 /\ e.n > Total(mm) -> TRUE
       [] Clean(AtStart(mm, e), 0, e.n) < e.n ->
            e.res = "ok" => TouchOK(AtStart(mm, e), e, 0, Clean(AtStart(mm, e), 0, e.n), e.k # "seq")
       [] mm.ph \notin {"done", "hurt"} -> e.res = "ok" => Runs(e) = Slice(mm.pts, 0, e.n)
       [] e.n <= Total(mm) -> e.res = "ok" /\ Runs(e) = Slice(mm.pts, 0, e.n)
       [] e.n > Cap(mm) -> e.res = "err"
       [] OTHER -> e.res = "ok" => Take(Runs(e), Total(mm)) = mm.pts

(* ---- writers ----------------------------------------------------------- *)
(* A call on a writer: succeeds, unless the device failed during it.  After  *)
(* a reported failure nothing more is promised about this stream.            *)
CallOK(mm, e) ==
  IF mm.ph = "unspec" THEN e.res # "panic"
  ELSE IF e.flt THEN e.res = "err" ELSE e.res = "ok"
After(mm, e, next) == IF e.flt \/ e.res # "ok" \/ mm.ph = "unspec" THEN [mm EXCEPT !.ph = "unspec"] ELSE next

AOpenOK(s, mm, e) ==
  IF mm.ph \in {"unspec", "broken", "hurt"} THEN e.res # "panic"
  ELSE IF e.flt \/ s.pw1 \/ mm.noseek THEN e.res = "err"
  ELSE e.res = "ok"

(* ---- one event --------------------------------------------------------- *)
OK(s, mm, e) ==
  CASE e.op \in {"wopen", "res", "w", "fin", "chunks", "done", "cbuf"} -> CallOK(mm, e)
    [] e.op = "aopen" -> AOpenOK(s, mm, e)
    [] e.op = "look" -> mm.ph = "done" => LookOK(s, mm, e)
    [] e.op = "cmp" -> mm.ph = "done" => (e.res = "ok" /\ e.eq)
    [] e.op = "table" -> TableOK(s, mm, e)
    [] e.op = "ropen" -> ROpenOK(s, mm, e)
    [] e.op = "r" -> ReadOK(s, mm, e) /\ HeldOK(s, mm, e, mm.cur)
    [] e.op = "seek" -> SeekOK(s, mm, e)
    [] e.op = "dbuf" -> DBufOK(s, mm, e) /\ HeldOK(s, mm, e, 0)
    [] e.op \in {"hurt", "region", "dev", "wdrop", "trunc", "crash", "trailoff", "strip", "close", "nops", "reset", "mark"} -> TRUE
    [] OTHER -> FALSE

Upd(s, mm, e) ==
  CASE e.op = "wopen" -> After(mm, e, OpenWriter(mm))
    [] e.op = "w" -> After(mm, e, WritePts(mm, e.lo, e.n))
    [] e.op = "fin" -> After(mm, e, CloseGroup(mm))
    [] e.op = "chunks" -> After(mm, e, WriteGroups(mm, e.lo, e.s))
    [] e.op = "done" -> After(mm, e, FinishWriter(mm))
    [] e.op = "cbuf" -> After(mm, e, FinishWriter(WritePts(OpenWriter(mm), e.lo, e.n)))
    [] e.op = "res" -> After(mm, e, mm)
    [] e.op = "aopen" -> IF mm.ph \in {"unspec", "broken", "hurt"} THEN [mm EXCEPT !.ph = "unspec"]
                         ELSE IF e.res = "ok" THEN After(mm, e, OpenAppend(mm, e.pc))
                         ELSE [mm EXCEPT !.ph = IF e.flt THEN "unspec" ELSE @]
    [] e.op = "mark" -> [mm EXCEPT !.save = [mm EXCEPT !.save = <<>>]]
    [] e.op = "reset" -> IF e.keep THEN [mm.save EXCEPT !.save = mm.save, !.noseek = FALSE, !.rd = "none"]
                         ELSE Machine(s)
    [] e.op = "look" -> IF e.res = "ok" THEN LookNext(s, mm, e) ELSE mm
    [] e.op = "ropen" -> ROpenNext(s, mm, e)
    [] e.op = "r" -> ReadNext(s, mm, e)
    [] e.op = "seek" -> SeekNext(s, mm, e)
    [] e.op = "dev" -> [mm EXCEPT !.noseek = e.noseek]
    [] e.op = "wdrop" -> [mm EXCEPT !.ph = "broken", !.wr = "none", !.have = 0]
    [] e.op = "trunc" -> [mm EXCEPT !.ph = "broken", !.have = e.len, !.amb = e.amb, !.rd = "none"]
    [] e.op = "crash" -> [mm EXCEPT !.ph = IF e.full THEN "done" ELSE "broken", !.have = e.len, !.amb = e.amb, !.rd = "none"]
    [] e.op = "hurt" -> Hurt(mm, e)
    [] e.op = "trailoff" -> [mm EXCEPT !.looked = FALSE]
    [] e.op = "strip" -> [mm EXCEPT !.looked = FALSE]
    [] e.op \in {"close", "region"} -> [mm EXCEPT !.rd = "none"]
    [] OTHER -> mm
=============================================================================
