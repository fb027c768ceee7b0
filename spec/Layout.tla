------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The order in which the values of a tensor are stored.                   *)
(*                                                                         *)
(* A tensor with several channels and several pixels is stored either with *)
(* the channels first or with the channels last; any other tensor is the   *)
(* same in both ("free").  The code of a layer is of one of three manners: *)
(* "first" and "last" are written for tensors in that order, "keep" goes   *)
(* through values one by one and has all its tensors in one order.         *)
(*                                                                         *)
(* Store runs the layers of a network in order and keeps for each tensor   *)
(* the order its values were actually written in, or "junk" from the       *)
(* moment where values were taken for others.  Implemented is the rule by  *)
(* which the generator accepts a network and Right what it must ensure.    *)
(*                                                                         *)
(* A network is a sequence of layers, the first one being the input.       *)
(* Layer k is [manner, ins, same, free]: the layers before it that it      *)
(* reads, whether it reads their tensors with the shape with which they    *)
(* were written (a reshaping has no code), and whether its tensor is free. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AllFree(net, k) == \A i \in net[k].ins \cup {k} : net[i].free

Supports(net, lay, k) ==
  \/ k = 1
  \/ AllFree(net, k)
  \/ net[k].manner = "keep"
  \/ net[k].manner = lay /\ (lay = "last" => net[k].same)
Implemented(net, lay) == \A k \in 1..Len(net) : Supports(net, lay, k)

RECURSIVE Store(_, _, _)
Store(net, lay, done) ==
  LET k == Len(done) + 1
      node == net[k]
      in == {done[i] : i \in {j \in node.ins : ~net[j].free}}   \* orders of the operands for which it matters
      new == IF k = 1 THEN lay
             ELSE IF \E i \in node.ins : done[i] = "junk" THEN "junk"
             ELSE IF AllFree(net, k) THEN "any"
             ELSE IF node.manner = "keep" THEN IF Cardinality(in) = 1 THEN CHOOSE o \in in : TRUE ELSE "junk"
             ELSE IF in \subseteq {node.manner} /\ (in = {} \/ node.same \/ node.manner = "first") THEN node.manner
             ELSE "junk"
  IN IF k > Len(net) THEN done ELSE Store(net, lay, Append(done, new))

\* The output is converted from the order of the generation to that of the model.
Right(net, lay) ==
  LET st == Store(net, lay, <<>>)  n == Len(net)
  IN st[n] # "junk" /\ (net[n].free \/ st[n] = lay)
=============================================================================
