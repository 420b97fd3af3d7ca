------------------------------ MODULE MCRefuse ------------------------------
(* Descriptions of points that something is wrong with: every item list of   *)
(* the format, with one thing changed, for every type of compressor.  TLC    *)
(* enumerates them; RefuseTrace says what each entry point must do.          *)
EXTENDS LazItems, TLC, Json

CONSTANTS ExtraBytes, Comps, BadTypes, BadVersions

Canonical == {ItemsOf(f, v, eb) : f \in 0..5, v \in {1, 2}, eb \in ExtraBytes}
             \cup {ItemsOf(f, v, eb) : f \in 6..10, v \in {3, 4}, eb \in ExtraBytes}

With(l, k, it) == [l EXCEPT ![k] = it]
Without(l, k) == SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, Len(l))
Size(t) == IF SizeOf(t) = 0 THEN 2 ELSE SizeOf(t)

VARIABLES l, comp, what
vars == <<l, comp, what>>

Init == comp \in Comps /\ what = "canonical" /\ l \in Canonical \cup {<<>>}

Change ==
  /\ what = "canonical" /\ UNCHANGED comp
  /\ \/ \E k \in 1..Len(l) :
          \/ /\ what' = "version"
             /\ \E v \in BadVersions : l' = With(l, k, <<l[k][1], l[k][2], v>>)
          \/ /\ what' = "type"
             /\ \E t \in KnownTypes \cup BadTypes : l' = With(l, k, <<t, l[k][2], l[k][3]>>)
          \/ /\ what' = "item"
             /\ \E t \in KnownTypes, v \in 1..4 : l' = With(l, k, <<t, Size(t), v>>)
          \/ /\ what' = "size"
             /\ \E z \in {0, l[k][2] - 1, l[k][2] + 1, 65535} : z >= 0 /\ l' = With(l, k, <<l[k][1], z, l[k][3]>>)
          \/ /\ what' = "less" /\ l' = Without(l, k)
     \/ /\ what' = "more"
        /\ \E t \in KnownTypes, v \in 1..4 : l' = Append(l, <<t, Size(t), v>>)

Next == Change /\ PrintT("SCRIPT " \o ToJson([comp |-> comp', items |-> l', what |-> what']))
First == PrintT("SCRIPT " \o ToJson([comp |-> comp, items |-> l, what |-> "canonical"]))
Spec == Init /\ [][Next]_vars
(* prints the unchanged ones too                                             *)
Told == what = "canonical" => First
=============================================================================
