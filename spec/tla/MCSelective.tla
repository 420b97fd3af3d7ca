----------------------------- MODULE MCSelective -----------------------------
EXTENDS Selective
F3 == <<"a", "b", "c">>
==============================================================================
