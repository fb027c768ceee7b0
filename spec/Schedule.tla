------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* Scheduling of a network: from any listing of its nodes to an execution  *)
(* order.  The design is a depth-first visit: starting from the nodes in   *)
(* the order in which they are listed, a node is put in front of the order *)
(* once all its successors are placed.  Listing order and order of the     *)
(* successors are arbitrary (chosen nondeterministically).                 *)
(*                                                                         *)
(* Every acyclic graph over nodes 1..N is explored: node 1 is the input,   *)
(* the last node is the output; other nodes may be constants (no           *)
(* predecessor).  RULE = "post" is the design; "pre" places a node as soon *)
(* as it is visited (wrong; negative control).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, RULE
Nodes == 1..N
VARIABLES edges, stack, order, visited
vars == <<edges, stack, order, visited>>

RangeOf(q) == {q[i] : i \in 1..Len(q)}
Succ(n) == {m \in Nodes : <<n, m>> \in edges}
Pred(n) == {m \in Nodes : <<m, n>> \in edges}
Pairs == {p \in Nodes \X Nodes : p[1] < p[2]}
(* every node leads to the output                                          *)
Init == /\ edges \in {e \in SUBSET Pairs : \A n \in 1..(N - 1) : \E p \in e : p[1] = n}
        /\ ~ \E p \in edges : p[2] = 1
        /\ stack = <<>> /\ order = <<>> /\ visited = {}

Place(n) == <<n>> \o order
Start == /\ stack = <<>>
         /\ \E n \in Nodes \ visited :
              /\ visited' = visited \cup {n} /\ stack' = <<n>>
              /\ order' = IF RULE = "pre" THEN Append(order, n) ELSE order
         /\ UNCHANGED edges
Top == stack[Len(stack)]
Descend == /\ stack # <<>>
           /\ \E m \in Succ(Top) \ visited :
                /\ visited' = visited \cup {m} /\ stack' = Append(stack, m)
                /\ order' = IF RULE = "pre" THEN Append(order, m) ELSE order
           /\ UNCHANGED edges
Finish == /\ stack # <<>> /\ Succ(Top) \subseteq visited
          /\ order' = IF RULE = "pre" THEN order ELSE Place(Top)
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED <<edges, visited>>
Next == Start \/ Descend \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Pos(n) == CHOOSE i \in 1..Len(order) : order[i] = n
NoRepeat == Cardinality(RangeOf(order)) = Len(order)
(* a placed node has all its successors behind it                          *)
Topological == \A p \in edges : p[1] \in RangeOf(order)
                 => (RULE = "pre" \/ p[2] \in RangeOf(order)) /\ (p[2] \in RangeOf(order) => Pos(p[1]) < Pos(p[2]))
Complete == (visited = Nodes /\ stack = <<>>) => RangeOf(order) = Nodes /\ order[N] = N
(* constants and the input moved to the front: still an order, input first *)
Free == {n \in Nodes : Pred(n) = {}}
Front == SelectSeq(order, LAMBDA n : n = 1) \o SelectSeq(order, LAMBDA n : n # 1 /\ n \in Free)
         \o SelectSeq(order, LAMBDA n : n # 1 /\ ~(n \in Free))
FrontValid == (visited = Nodes /\ stack = <<>>) =>
                /\ Front[1] = 1 /\ Front[N] = N
                /\ \A p \in edges : (CHOOSE i \in 1..N : Front[i] = p[1]) < (CHOOSE i \in 1..N : Front[i] = p[2])
Terminates == <>(visited = Nodes /\ stack = <<>>)
=============================================================================
