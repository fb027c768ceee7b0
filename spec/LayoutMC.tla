------------------------------ MODULE LayoutMC ------------------------------
(* Every network of at most N layers after the input, of any manner.  RULE is "design", or "shapes" (negative control: the *)
(* shape with which a tensor was written is not looked at).                                                               *)
EXTENDS Layout
CONSTANTS N, RULE
VARIABLES net, lay
vars == <<net, lay>>

Init == /\ lay \in {"first", "last"}
        /\ \E f \in BOOLEAN : net = <<[manner |-> "keep", ins |-> {}, same |-> TRUE, free |-> f]>>
Add == /\ Len(net) <= N
       /\ \E m \in {"first", "last", "keep"}, s, f \in BOOLEAN, i \in SUBSET (1..Len(net)) :
            /\ Cardinality(i) \in 1..2
            /\ m = "keep" => s /\ \A j \in i : net[j].free = f
            /\ net' = Append(net, [manner |-> m, ins |-> i, same |-> s, free |-> f])
       /\ UNCHANGED lay
Next == Add
Spec == Init /\ [][Next]_vars

Accepted == IF RULE = "design" THEN Implemented(net, lay)
            ELSE \A k \in 1..Len(net) : Supports([net EXCEPT ![k].same = TRUE], lay, k)
Sound == Accepted => Right(net, lay)
(* the generator is not shy: a network all of whose layers are written for the order is accepted                           *)
Wide == (\A k \in 2..Len(net) : net[k].manner \in {lay, "keep"} /\ net[k].same) => Accepted
=============================================================================
