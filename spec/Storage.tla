------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Storage semantics of a generated inference function, shared by the      *)
(* allocation model (Alloc) and by the validation of real allocations      *)
(* (AllocTrace).                                                           *)
(*                                                                         *)
(* Storage is a map from slot names to the tensor a slot currently holds.  *)
(* Executing a layer reads each operand from the slot the operand was left *)
(* in, writes the layer's own slot, and, for a tensor kept for later       *)
(* readers, copies it to a second slot.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Holds(mem, slot, tensor) == slot \in DOMAIN mem /\ mem[slot] = tensor
(* f \cup (k :> v), overriding                                             *)
Put(mem, slot, tensor) == [s \in DOMAIN mem \cup {slot} |-> IF s = slot THEN tensor ELSE mem[s]]
(* the slot later readers of a tensor use                                  *)
Home(path, copy) == IF copy = "" THEN path ELSE copy
After(mem, tensor, path, copy) ==
  IF copy = "" THEN Put(mem, path, tensor) ELSE Put(Put(mem, path, tensor), copy, tensor)
RangeOf(q) == {q[i] : i \in 1..Len(q)}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
=============================================================================
