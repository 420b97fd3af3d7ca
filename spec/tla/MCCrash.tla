------------------------------ MODULE MCCrash -------------------------------
EXTENDS Crash
FixedSizes == {Fixed(t) : t \in 0..7}
VarSizes == {<<>>, <<1>>, <<2, 1>>, <<1, 3, 2>>, <<4, 1, 1>>}
Keep == 0..7
Add == 0..4
=============================================================================
