----------------------------- MODULE HookTrace -----------------------------
(***************************************************************************)
(* The shared library of a network: histories of calls of its hooks.       *)
(* State: the parameters, an array of words for each name, in the order    *)
(* they are declared.  save writes all of them and answers how many bytes; *)
(* copy replaces them by those it is given (in this order too); a batch    *)
(* leaves them, and answers one row per sample.  A case holds what the     *)
(* arrays were first, and the calls with what they did.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, k, params, bad, steps
vars == <<c, k, params, bad, steps>>
Case == Cases[c]
First(n) == IF n <= Len(Cases) THEN Cases[n].params ELSE <<>>
Init == c = 1 /\ k = 1 /\ params = First(1) /\ bad = <<>> /\ steps = 0
E == Case.events[k]
Live == c <= Len(Cases) /\ k <= Len(Case.events)
RECURSIVE Words(_, _)
Words(p, i) == IF i > Len(p) THEN <<>> ELSE p[i].v \o Words(p, i + 1)
If(b, cl) == IF b THEN <<[case |-> Case.id, event |-> k, kind |-> E.k, clause |-> cl]>> ELSE <<>>
Go(b, np) == /\ bad' = bad \o b /\ params' = np /\ k' = k + 1 /\ steps' = steps + 1 /\ c' = c

Save == /\ Live /\ E.k = "save"
        /\ Go(If(E.status # "ok", "failed") \o
              (IF E.status # "ok" THEN <<>> ELSE If(E.words # Words(params, 1), "file") \o If(E.ret # 4 * Len(Words(params, 1)), "answer")), params)
Copy == /\ Live /\ E.k = "copy"
        /\ Go(If(E.status # "ok", "failed"),
              IF E.status # "ok" THEN params ELSE [i \in 1..Len(params) |-> [params[i] EXCEPT !.v = E.new[i]]])
Dump == /\ Live /\ E.k = "dump"
        /\ Go(If(E.words # Words(params, 1), "parameters"), params)
(* every array starts a page                                                *)
Align == /\ Live /\ E.k = "align"
         /\ Go(If(E.status # "ok", "failed") \o If(E.status = "ok" /\ E.rest # [i \in 1..Len(params) |-> 0], "alignment"), params)
\* what the rows hold is judged by the semantics of the network
Batch == /\ Live /\ E.k = "batch"
         /\ Go(If(E.status # "ok", "failed") \o If(E.status = "ok" /\ E.rows # E.n, "rows") \o If(E.beyond # 0, "written beyond the batch"), params)
NextCase == /\ c <= Len(Cases) /\ k > Len(Case.events)
            /\ c' = c + 1 /\ k' = 1 /\ params' = First(c + 1) /\ steps' = steps + 1 /\ bad' = bad
Finish == /\ c = Len(Cases) + 1
          /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
          /\ c' = c + 1 /\ UNCHANGED <<k, params, bad, steps>>
Next == Save \/ Copy \/ Dump \/ Align \/ Batch \/ NextCase \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2)
=============================================================================
