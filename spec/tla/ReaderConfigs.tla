---------------------------- MODULE ReaderConfigs ---------------------------
(* Streams the reader models are explored on, see Streams.                   *)
EXTENDS Integers, Sequences
Fixed(cs, t) == [i \in 1..((t + cs - 1) \div cs) |-> IF i * cs <= t THEN cs ELSE t - (i - 1) * cs]
FixedCfgs(css, ts, lays) == {[sizes |-> Fixed(c, t), cs |-> c, var |-> FALSE, lay |-> l, bad |-> {}, soft |-> FALSE, fate |-> "junk"] : c \in css, t \in ts, l \in lays}
VarCfgs(szs, lays) == {[sizes |-> s, cs |-> 3, var |-> TRUE, lay |-> l, bad |-> {}, soft |-> FALSE, fate |-> "junk"] : s \in szs, l \in lays}
QuickConfigs ==
  FixedCfgs({3}, {0, 1, 3, 4, 8}, {FALSE, TRUE}) \cup FixedCfgs({1}, {2}, {FALSE})
  \cup VarCfgs({<<>>, <<1>>, <<2, 3, 1>>, <<4, 1, 2>>, <<1, 1, 5>>}, {FALSE, TRUE})
FullConfigs ==
  FixedCfgs({1, 2, 3, 4}, 0..9, {FALSE, TRUE})
  \cup VarCfgs(UNION {[1..k -> 1..4] : k \in 0..3}, {FALSE, TRUE})
(* damaged streams: some chunks                                              *)
HurtOf(cs) ==
  {[c EXCEPT !.bad = b, !.soft = so, !.fate = f] :
     c \in cs, b \in SUBSET (0..2), so \in BOOLEAN, f \in {"err", "junk"}}
HurtConfigs(cs) == {c \in HurtOf(cs) : c.bad # {} /\ c.bad \subseteq 0..(Len(c.sizes) - 1) /\ (c.soft => c.lay)}
HurtQuick == HurtConfigs(FixedCfgs({3}, {2, 5, 8}, {FALSE, TRUE}) \cup VarCfgs({<<2, 3, 1>>, <<1, 4>>}, {FALSE, TRUE}))
HurtFull == HurtConfigs(FixedCfgs({1, 2, 3}, 1..7, {FALSE, TRUE}) \cup VarCfgs(UNION {[1..k -> 1..3] : k \in 1..3}, {FALSE, TRUE}))
(* for random walks                                                          *)
WalkConfigs ==
  FixedCfgs({2, 3, 4, 5, 7}, {4, 6, 10, 13, 14, 20}, {FALSE, TRUE})
  \cup VarCfgs({<<5>>, <<4, 6>>, <<1, 7, 2>>, <<6, 1, 1, 5>>, <<2, 3, 4, 1, 3>>, <<1, 1, 1, 1, 1, 4>>, <<3, 5, 5>>}, {FALSE, TRUE})
=============================================================================
