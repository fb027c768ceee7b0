----------------------------- MODULE AllocTrace -----------------------------
(***************************************************************************)
(* Real schedules and storage assignments, replayed on the storage         *)
(* semantics of module Storage.  A case is the network (tensors and their  *)
(* operands, 0 is the input), the sequence of layers in the order in which *)
(* the tool emits them -- which tensor each produces, which it reads, from *)
(* which slots, into which slots, its size -- and the capacity of slots.   *)
(* Constants of the model kept as layers are listed apart (consts).       *)
(* One step per layer; every clause that fails is recorded.                *)
(***************************************************************************)
EXTENDS Storage, SequencesExt, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, k, mem, done, bad, steps
vars == <<c, k, mem, done, bad, steps>>

Case == Cases[c]
Init == c = 1 /\ k = 1 /\ mem = <<>> /\ done = <<>> /\ bad = <<>> /\ steps = 0

CapOf(cs, s) == LET h == SelectSeq(cs.cap, LAMBDA r : r.slot = s)
                IN IF Len(h) = 0 THEN -1 ELSE h[1].size
Fail(clause, arg) == [case |-> Case.id, layer |-> k, clause |-> clause, arg |-> arg]
Op(cond, clause, arg) == IF cond THEN <<>> ELSE <<Fail(clause, arg)>>

Known(t) == \E i \in 1..Len(Case.net) : Case.net[i].t = t
NetOf(t) == (CHOOSE i \in 1..Len(Case.net) : Case.net[i].t = t)
Clauses(l) ==
  Op(~(l.t \in RangeOf(done)), "executed twice", l.t)
  \o Op(Known(l.t), "unknown tensor", l.t)
  \o (IF Known(l.t) /\ Case.strict = 1
      THEN Op(Case.net[NetOf(l.t)].ops = SelectSeq(l.ops, LAMBDA t : ~(t \in RangeOf(Case.consts))), "operands differ from the network", l.t) ELSE <<>>)
  \o FlattenSeq([i \in 1..Len(l.ops) |->
        Op(l.ops[i] \in RangeOf(done), "operand not computed yet", l.ops[i])
        \o Op(Holds(mem, l.rd[i], l.ops[i]), "operand overwritten", l.ops[i])])
  \o (IF k = 1 THEN Op(Len(l.ops) = 0, "first layer has operands", l.t) ELSE <<>>)
  \o (IF Len(Case.cap) = 0 THEN <<>>
      ELSE Op(l.size <= CapOf(Case, l.path), "slot too small", l.path)
           \o (IF l.copy = "" THEN <<>> ELSE Op(l.size <= CapOf(Case, l.copy), "slot too small", l.copy)))

Step ==
  /\ c <= Len(Cases) /\ k <= Len(Case.layers)
  /\ LET l == Case.layers[k]
     IN /\ bad' = bad \o Clauses(l)
        /\ mem' = After(mem, l.t, l.path, l.copy)
        /\ done' = Append(done, l.t)
  /\ k' = k + 1 /\ steps' = steps + 1 /\ UNCHANGED c

Missing == {Case.net[i].t : i \in 1..Len(Case.net)} \ RangeOf(done)
EndOfCase ==
  /\ c <= Len(Cases) /\ k > Len(Case.layers)
  /\ bad' = bad \o (IF Case.status = "ok" THEN
                       Op(Missing = {}, "layers never executed", ToString(Missing))
                       \o Op(Holds(mem, Case.outslot, Case.out), "output slot does not hold the output", Case.outslot)
                    ELSE <<Fail("no schedule", Case.status)>>)
  /\ c' = c + 1 /\ k' = 1 /\ mem' = <<>> /\ done' = <<>> /\ steps' = steps + 1

Finish ==
  /\ c = Len(Cases) + 1
  /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
  /\ c' = c + 1 /\ UNCHANGED <<k, mem, done, bad, steps>>
Next == Step \/ EndOfCase \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2) /\ steps \in Nat
=============================================================================
