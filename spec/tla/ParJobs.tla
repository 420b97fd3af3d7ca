------------------------------- MODULE ParJobs ------------------------------
(* The jobs of one parallel call: one per chunk, taken by T workers.         *)
(*                                                                           *)
(* Compression: each job compresses its own points into its own buffer; the  *)
(* buffers are written to the destination by the caller, in chunk order,     *)
(* once every job is done; an error of any job is the result of the call.    *)
(* Decompression: each job has its own slice of the input and of the output. *)
(*                                                                           *)
(* TLC explores every interleaving of starts and ends.  The orders in which  *)
(* the jobs look at their input are printed; the harness enforces each of    *)
(* them on the real thread pool.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS K,      \* jobs
          T,      \* workers
          Fail,   \* jobs that fail
          Emit
VARIABLES st,     \* "todo", "run", "end" per job
          buf,    \* what each job has produced (its chunk, 0 = nothing yet)
          out,    \* chunks written to the destination
          res,    \* result of the call: "none", "ok", "err"
          order   \* order in which jobs started
vars == <<st, buf, out, res, order>>
Jobs == 1..K

Init == /\ st = [j \in Jobs |-> "todo"] /\ buf = [j \in Jobs |-> 0]
        /\ out = <<>> /\ res = "none" /\ order = <<>>

Start(j) == /\ st[j] = "todo" /\ Cardinality({i \in Jobs : st[i] = "run"}) < T
            /\ st' = [st EXCEPT ![j] = "run"] /\ order' = Append(order, j)
            /\ UNCHANGED <<buf, out, res>>
End(j) == /\ st[j] = "run"
          /\ st' = [st EXCEPT ![j] = "end"]
          /\ buf' = [buf EXCEPT ![j] = IF j \in Fail THEN -1 ELSE j]
          /\ UNCHANGED <<out, res, order>>
AllEnded == \A j \in Jobs : st[j] = "end"
Write == /\ AllEnded /\ res = "none"
         /\ IF -1 \in {buf[j] : j \in Jobs}
            THEN /\ res' = "err"
                 /\ out' = SubSeq([j \in Jobs |-> buf[j]], 1, (CHOOSE j \in Jobs : buf[j] = -1 /\ \A i \in 1..(j - 1) : buf[i] # -1) - 1)
            ELSE /\ res' = "ok" /\ out' = [j \in Jobs |-> buf[j]]
         /\ Emit => PrintT("ORDER " \o ToJson(order))
         /\ UNCHANGED <<st, buf, order>>
Next == Write \/ \E j \in Jobs : Start(j) \/ End(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* nothing is written before every job has ended; in order, once each, none missing
InOrder == /\ out # <<>> => AllEnded
           /\ \A i \in 1..Len(out) : out[i] = i
           /\ res = "ok" => Len(out) = K
           /\ (res # "none" /\ Fail # {}) => res = "err"
Finishes == <>(res # "none")
=============================================================================
