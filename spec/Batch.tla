-------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* Execution of a dataset: samples 0..n-1 (any n up to NMAX) are taken by blocks of M, the    *)
(* samples of a block run concurrently, the i-th of them in context i, and *)
(* the next block starts when all of them are finished.                    *)
(*                                                                         *)
(* busy: context -> the sample being computed in it, or -1.                *)
(* answers: how many times each row of the predictions was written.        *)
(* Begin and End are also the steps with which real executions are         *)
(* replayed (BatchTrace); there the choice of the context is left open.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS NMAX, M, RULE
VARIABLES n, block, begun, busy, answers
vars == <<n, block, begun, busy, answers>>
Samples == 0..(n - 1)
Contexts == 0..(M - 1)
Min(a, b) == IF a < b THEN a ELSE b

\* Number of samples in the block that starts with sample j.
Size(j) == CASE RULE = "design" -> IF j + M > n THEN n % M ELSE M
             [] RULE = "rest" -> Min(M, n % M)          \* wrong for all but the last block
             [] RULE = "nosync" -> IF j + M > n THEN n % M ELSE M
Init == n \in 0..NMAX /\ block = 0 /\ begun = {} /\ busy = [x \in Contexts |-> -1] /\ answers = [s \in Samples |-> 0]

Begin(i) == /\ block < n /\ i < Size(block) /\ block + i \notin begun
            /\ begun' = begun \cup {block + i}
            /\ busy' = [busy EXCEPT ![i] = block + i]
            /\ UNCHANGED <<n, block, answers>>
End(i) == /\ busy[i] # -1
          /\ answers' = [answers EXCEPT ![busy[i]] = @ + 1]
          /\ busy' = [busy EXCEPT ![i] = -1]
          /\ UNCHANGED <<n, block, begun>>
Idle == \A i \in Contexts : busy[i] = -1
NextBlock == /\ block < n
             /\ \A i \in 0..(Size(block) - 1) : block + i \in begun
             /\ RULE = "nosync" \/ Idle
             /\ block' = block + M /\ UNCHANGED <<n, begun, busy, answers>>
Next == NextBlock \/ \E i \in Contexts : Begin(i) \/ End(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* A context is given a sample only when it is free.
Exclusive == [][\A i \in Contexts : (busy[i] # -1 /\ busy'[i] # busy[i]) => busy'[i] = -1]_vars
Once == \A s \in Samples : answers[s] <= 1
Complete == (block >= n /\ Idle) => \A s \in Samples : answers[s] = 1
Terminates == <>(block >= n /\ Idle)
=============================================================================
