------------------------------ MODULE MCWriters -----------------------------
EXTENDS Writers
FixedQuick == {[var |-> FALSE, cs |-> c, lay |-> l] : c \in {1, 2, 3}, l \in {FALSE}}
FixedFull == {[var |-> FALSE, cs |-> c, lay |-> l] : c \in {1, 2, 3, 4}, l \in {FALSE}}
VarQuick == {[var |-> TRUE, cs |-> 2, lay |-> FALSE]}
BothQuick == {[var |-> v, cs |-> 2, lay |-> FALSE] : v \in {TRUE, FALSE}}
BothFull == {[var |-> v, cs |-> c, lay |-> FALSE] : v \in {TRUE, FALSE}, c \in {2, 3}}
Grps == {<<>>, <<0>>, <<1>>, <<2, 0, 3>>, <<0, 1, 1>>}
FewGrps == {<<>>, <<1>>, <<2, 0, 3>>}
WalkFixed == {[var |-> FALSE, cs |-> c, lay |-> FALSE] : c \in {1, 2, 3, 5, 8}}
WalkVar == {[var |-> TRUE, cs |-> 4, lay |-> FALSE]}
WalkBoth == WalkFixed \cup WalkVar
WalkGrps == {<<0>>, <<1>>, <<3>>, <<2, 0, 3>>, <<4, 1>>, <<1, 1, 2>>}
AllKinds == {"seq", "par"}
SeqOnly == {"seq"}
ParOnly == {"par"}
=============================================================================
