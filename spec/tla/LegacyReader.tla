----------------------------- MODULE LegacyReader ---------------------------
(* Reading the original unchunked point-wise layout: no chunk table, one     *)
(* chunk, whose number of points only the caller knows.  In lockstep with    *)
(* the abstract cursor of LazAbs.  Every transition is printed as a script.  *)
EXTENDS Streams
CONSTANTS Totals, Emit
VARIABLES total, pos, m, ev, hist
vars == <<total, pos, m, ev, hist>>
View == <<total, pos, m>>

S == [lay |-> FALSE, var |-> FALSE, cs |-> 1000, pw1 |-> TRUE, over |-> FALSE]
Strip == << [o |-> "wopen"], [o |-> "w", n |-> total], [o |-> "done"], [o |-> "strip"] >>

Init == /\ total \in Totals
        /\ pos = 0
        /\ m = OpenReader(FinishWriter(WritePts(OpenWriter(Machine(S)), 0, total)), FALSE, "no")
        /\ ev = [op |-> "close"]
        /\ hist = << [o |-> "ropen", k |-> "seq"] >>

Do(op, e, np) == /\ pos' = np /\ ev' = e /\ m' = Upd(S, m, e) /\ hist' = Append(hist, op) /\ UNCHANGED total
                 /\ Emit => PrintT("SCRIPT " \o ToJson([total |-> total, ops |-> Strip \o hist']))

Read == \E n \in 1..(total - pos), mode \in {"one", "many"} :
  Do([o |-> "r", n |-> n, m |-> mode],
     [op |-> "r", n |-> n, m |-> mode, res |-> "ok", got |-> n, runs |-> << <<pos, pos + n - 1>> >>, chg |-> <<>>, flt |-> FALSE], pos + n)
\* there is no table to find the point with; the position does not change
Seek == \E i \in {0, pos, total - 1, total, total + 7} \cap Nat :
  Do([o |-> "seek", i |-> i], [op |-> "seek", i |-> i, res |-> "err", flt |-> FALSE], pos)
Refuse == \E k \in {"par"} :
  /\ Do([o |-> "ropen", k |-> k], [op |-> "ropen", k |-> k, res |-> "err", flt |-> FALSE], total)
Again == /\ m.rd = "none" /\ pos' = 0 /\ m' = OpenReader(m, FALSE, "no") /\ ev' = [op |-> "close"]
         /\ hist' = Append(hist, [o |-> "ropen", k |-> "seq"]) /\ UNCHANGED total

Next == (m.rd = "open" /\ (Read \/ Seek \/ Refuse)) \/ Again
Spec == Init /\ [][Next]_vars
Refines == [][OK(S, m, ev')]_vars
=============================================================================
