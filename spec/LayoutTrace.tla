----------------------------- MODULE LayoutTrace -----------------------------
(***************************************************************************)
(* Acceptance of networks by the generator, replayed on Layout.  A case is *)
(* [id, lay, net, able, accepted]: the order asked for, the layers the     *)
(* tool makes of a model, with the implementations requested for them,     *)
(* whether each of them accepts its attributes (able), and whether the     *)
(* generator accepted the network.  A layer tells its operands by their    *)
(* position, the shapes [C, H, W] of its operands as they were written     *)
(* (<<>> when flat) and as it reads them, its own shape, its kind and its  *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Layout, SequencesExt, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, bad, steps
vars == <<c, bad, steps>>
Case == Cases[c]
Init == c = 1 /\ bad = <<>> /\ steps = 0

FreeShape(s) == s = <<>> \/ s[1] = 1 \/ s[2] * s[3] = 1
\* The manner of the code of a layer: its kind and its implementation decide.
Manner(l) ==
  CASE l.kind = "act" -> "keep"
    [] l.kind = "elementwise" /\ l.scalar /\ \A i \in 1..Len(l.written) : l.written[i] = l.shape -> "keep"
    [] l.kind \in {"conv", "pool"} /\ l.last -> "last"
    [] OTHER -> "first"
Abs(l) == [manner |-> Manner(l), ins |-> {l.ins[i] : i \in 1..Len(l.ins)}, free |-> FreeShape(l.shape), same |-> l.written = l.read]
Net == TLCEval([k \in 1..Len(Case.net) |-> Abs(Case.net[k])])
Clauses ==
  (IF Case.accepted /\ ~Right(Net, Case.lay) THEN <<[case |-> Case.id, clause |-> "accepted, would take values for others"]>> ELSE <<>>) \o
  (IF ~Case.accepted /\ Case.able /\ Implemented(Net, Case.lay) THEN <<[case |-> Case.id, clause |-> "refused, all layers are implemented"]>> ELSE <<>>)

Judge == /\ c <= Len(Cases) /\ bad' = bad \o Clauses /\ c' = c + 1 /\ steps' = steps + Len(Case.net)
Finish == /\ c = Len(Cases) + 1
          /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
          /\ c' = c + 1 /\ UNCHANGED <<bad, steps>>
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2)
=============================================================================
