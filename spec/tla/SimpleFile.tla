------------------------------ MODULE SimpleFile ------------------------------
(* A LAS or LAZ file and its reader: a header that states a number of points *)
(* (count), and what is left of the points: `whole` says nothing is missing. *)
(*                                                                           *)
(* The reader is a machine: it has given `got` points; each call gives the   *)
(* next point, reports the end once `count` points were given, or an error.  *)
EXTENDS Integers, Sequences

(* points of a file that can still be read: all of them for certain up to    *)
(* Sure, none after Possible. What the last chunk of a LAZ file can hold     *)
(* (cap points in all) but does not is not known to its reader, so a header  *)
(* which states more points than there are (count > n) may be believed there.*)
Whole(f) == f.cut = -1 /\ f.hcut = -1
Sure(f) == IF Whole(f) THEN f.n
           ELSE IF f.hcut # -1 THEN 0
           ELSE IF f.laz THEN (IF f.have >= f.full THEN f.n ELSE 0)
           ELSE LET k == f.have \div f.psz IN IF k < f.n THEN k ELSE f.n
Possible(f) == IF f.hcut # -1 THEN 0 ELSE IF f.laz THEN f.cap ELSE Sure(f)

Min(a, b) == IF a < b THEN a ELSE b

(* May opening fail? Must it succeed?                                        *)
OpenMust(f) == f.hcut = -1 /\ (Whole(f) \/ ~f.laz)

(* outcome of the (got+1)-th call, as a set                                  *)
Call(f, got) == IF got >= f.count THEN {"none"}
                ELSE IF got < Min(f.count, Sure(f)) THEN {"point"}
                ELSE IF got < Min(f.count, Possible(f)) THEN {"point", "err"}
                ELSE {"err"}

(* a whole run: got points, then `end`                                       *)
RunOK(f, got, end) == /\ got <= Min(f.count, Possible(f))
                      /\ \A k \in 0..(got - 1) : "point" \in Call(f, k)
                      /\ end \in Call(f, got)
===============================================================================
