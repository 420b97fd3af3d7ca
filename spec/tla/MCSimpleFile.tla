----------------------------- MODULE MCSimpleFile -----------------------------
(* Shapes of files and every run of the reader over them.                    *)
EXTENDS SimpleFile, LazItems, TLC, Json

CONSTANTS Emit, Ns

VARIABLES f, got, end
vars == <<f, got, end>>

Minors(fmt) == IF fmt < 4 THEN 0..4 ELSE IF fmt < 6 THEN {3, 4} ELSE {4}
Shapes == {"las", "point-wise", "fixed", "variable"}
ShapesOf(fmt) == IF fmt < 6 THEN Shapes ELSE Shapes \ {"point-wise"}
Cuts == {"whole", "header", "points", "less", "more"}

Psz(fmt) == RecordSize(fmt)
Init == \E fmt \in Formats, n \in Ns, shape \in Shapes, cut \in Cuts, minor \in 0..4 :
          /\ minor \in Minors(fmt) /\ shape \in ShapesOf(fmt)
          /\ cut = "points" => n > 0
          /\ cut = "less" => n > 1
          /\ f = [fmt |-> fmt, minor |-> minor, n |-> n, shape |-> shape, how |-> cut,
                  laz |-> shape # "las", psz |-> Psz(fmt),
                  count |-> CASE cut = "less" -> n - 1 [] cut = "more" -> n + 2 [] OTHER -> n,
                  cap |-> CASE shape = "fixed" -> n + (n % 2) [] shape = "point-wise" -> n + 3 [] OTHER -> n,
                  cut |-> IF cut = "points" THEN 1 ELSE -1,
                  hcut |-> IF cut = "header" THEN 1 ELSE -1,
                  have |-> (n * Psz(fmt)) \div 2, full |-> n * Psz(fmt)]
          /\ got = 0 /\ end = "reading"
          /\ Emit => PrintT("SCRIPT " \o ToJson([fmt |-> fmt, minor |-> minor, n |-> n, shape |-> shape, how |-> cut]))

Next == /\ end = "reading"
        /\ UNCHANGED f
        /\ \E o \in Call(f, got) :
             IF o = "point" THEN got' = got + 1 /\ UNCHANGED end
             ELSE end' = o /\ UNCHANGED got
Spec == Init /\ [][Next]_vars

NeverTooMany == got <= f.count /\ got <= f.cap /\ (f.how # "more" => got <= f.n)
EndIsTheEnd == end = "none" => got = f.count
WholeIsRead == (Whole(f) /\ f.how # "more" /\ end # "reading") => end = "none" /\ got = f.count
MoreIsAnError == (f.how = "more" /\ f.cap < f.count /\ end # "reading") => end = "err" /\ got >= f.n
NothingSkipped == (end = "err") => got < f.count
RunsAgree == end # "reading" => RunOK(f, got, end)
===============================================================================
