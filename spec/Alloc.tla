------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* Assignment of storage to the tensors of a network, over every network   *)
(* of at most N layers: layer k reads one to MAXOPS tensors (possibly the  *)
(* same one twice) among those of layers 0..k-1, where 0 is the input.     *)
(* Networks are built and executed in schedule order, one layer per step,  *)
(* and the slot taken among the free ones is arbitrary, so that the        *)
(* invariants hold for any reuse order.                                    *)
(*                                                                         *)
(* RULE is the condition on which a slot is given back:                    *)
(*   "all"   when every reader of the tensor has been executed (the design)*)
(*   "first", "last"   when the first / last listed reader has been        *)
(*   executed (wrong; negative controls of the check)                      *)
(***************************************************************************)
EXTENDS Storage, TLC

CONSTANTS N, MAXOPS, RULE

VARIABLES ops,      \* sequence: operands of each layer (whole network, chosen first)
          k,        \* layers executed so far, input excluded; -1: nothing yet
          path,     \* slot of each executed layer
          copy,     \* second slot, or ""
          freeP, freeC, nP, nC,
          mem, ok
vars == <<ops, k, path, copy, freeP, freeC, nP, nC, mem, ok>>

Seqs(S, m) == UNION {[1..i -> S] : i \in 1..m}
P(i) == "output_" \o ToString(i)
C(i) == "cst_" \o ToString(i)

Readers(n) == {j \in 1..Len(ops) : n \in RangeOf(ops[j])}
Uses(n) == LET RECURSIVE u(_)
               u(j) == IF j = 0 THEN 0 ELSE Count(ops[j], n) + u(j - 1)
           IN u(Len(ops))
(* readers in the order in which the network lists them: any order is       *)
(* possible, the wrong rules use the two extremes of the schedule           *)
Released(n, j) ==    \* after executing j, may the slot of n be reused?
  CASE RULE = "all" -> \A r \in Readers(n) : r <= j
    [] RULE = "first" -> \E r \in Readers(n) : r <= j
    [] OTHER -> FALSE

RECURSIVE Nets(_)
Nets(n) == IF n = 0 THEN {<<>>}
           ELSE UNION {{Append(q, o) : o \in Seqs(0..(n - 1), MAXOPS)} : q \in Nets(n - 1)}
Init == /\ ops \in UNION {Nets(n) : n \in 1..N}
        /\ k = -1 /\ path = <<>> /\ copy = <<>>
        /\ freeP = {} /\ freeC = {} /\ nP = 0 /\ nC = 0
        /\ mem = <<>> /\ ok = TRUE

Ps(n) == path[n + 1]
Cs(n) == copy[n + 1]

Exec ==
  /\ k < Len(ops)
  /\ LET j == k + 1
         rd == IF j = 0 THEN {} ELSE RangeOf(ops[j])
         fp == freeP \cup {Ps(n) : n \in {n \in rd : Released(n, j)}}
         fc == freeC \cup {Cs(n) : n \in {n \in rd : Cs(n) # "" /\ Released(n, j)}}
         keep == Uses(j) > 1
     IN \E p \in (IF fp = {} THEN {P(nP)} ELSE fp) :
        \E c \in (IF ~keep THEN {""} ELSE IF fc = {} THEN {C(nC)} ELSE fc) :
          /\ ok' = (ok /\ \A n \in rd : Holds(mem, Home(Ps(n), Cs(n)), n))
          /\ path' = Append(path, p) /\ copy' = Append(copy, c)
          /\ freeP' = fp \ {p} /\ freeC' = fc \ {c}
          /\ nP' = IF fp = {} THEN nP + 1 ELSE nP
          /\ nC' = IF keep /\ fc = {} THEN nC + 1 ELSE nC
          /\ mem' = After(mem, j, p, c)
          /\ k' = j
  /\ UNCHANGED ops

Next == Exec
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* every layer read the tensors it is defined on                            *)
ReadsIntact == ok
(* every tensor still to be read is where its readers will look for it      *)
LiveIntact == \A n \in 0..k : (\E r \in Readers(n) : r > k) => Holds(mem, Home(Ps(n), Cs(n)), n)
(* two tensors alive at the same time never share a slot                    *)
LiveApart == \A a, b \in 0..k : (a # b /\ (\E r \in Readers(a) : r > k) /\ (\E r \in Readers(b) : r > k))
                               => Home(Ps(a), Cs(a)) # Home(Ps(b), Cs(b))
(* the result of the last layer is in its slot when execution ends          *)
OutputThere == k = Len(ops) => Holds(mem, Ps(k), k)
(* never more slots than layers                                            *)
Bounded == nP <= k + 1 /\ nC <= k + 1
Terminates == <>(k = Len(ops))
=============================================================================
