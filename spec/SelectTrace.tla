---------------------------- MODULE SelectTrace ----------------------------
(***************************************************************************)
(* Which implementation each layer gets.  State: the layers still to be    *)
(* given one.  A request is a set of keys, a layer index or a layer type,  *)
(* each with the name of a registered implementation; an index has         *)
(* priority over a type, and a layer without a request keeps what it had   *)
(* without any request.  A case holds the layers of a network, what each   *)
(* was emitted with when nothing was requested (base), the request, and    *)
(* what each is emitted with (seen), in the order of emission.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, k, bad, steps
vars == <<c, k, bad, steps>>
Case == Cases[c]
Init == c = 1 /\ k = 1 /\ bad = <<>> /\ steps = 0

Req(key) == {i \in 1..Len(Case.req) : Case.req[i].key = key}
Want(l) ==
  IF Req("#" \o ToString(l.idx)) # {} THEN Case.req[CHOOSE i \in Req("#" \o ToString(l.idx)) : TRUE].name
  ELSE IF Req(l.type) # {} THEN Case.req[CHOOSE i \in Req(l.type) : TRUE].name
  ELSE l.base
Seen(l) == {i \in 1..Len(Case.seen) : Case.seen[i].idx = l.idx}
Clauses(l) ==
  IF Cardinality(Seen(l)) # 1
  THEN <<[case |-> Case.id, clause |-> "emitted " \o ToString(Cardinality(Seen(l))) \o " times", idx |-> l.idx, got |-> "", want |-> Want(l)]>>
  ELSE LET s == Case.seen[CHOOSE i \in Seen(l) : TRUE]
       IN IF s.name = Want(l) THEN <<>>
          ELSE <<[case |-> Case.id, clause |-> "implementation", idx |-> l.idx, got |-> s.name, want |-> Want(l)]>>

Layer == /\ c <= Len(Cases) /\ k <= Len(Case.layers)
         /\ bad' = bad \o Clauses(Case.layers[k])
         /\ k' = k + 1 /\ steps' = steps + 1 /\ c' = c
Close == /\ c <= Len(Cases) /\ k > Len(Case.layers)
         /\ bad' = IF Case.status # "ok" THEN Append(bad, [case |-> Case.id, clause |-> "status", idx |-> 0, got |-> Case.status, want |-> "ok"])
                   ELSE IF Len(Case.seen) # Len(Case.layers)
                   THEN Append(bad, [case |-> Case.id, clause |-> "layers emitted", idx |-> Len(Case.seen), got |-> "", want |-> ""]) ELSE bad
         /\ c' = c + 1 /\ k' = 1 /\ steps' = steps + 1
Finish == /\ c = Len(Cases) + 1
          /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
          /\ c' = c + 1 /\ UNCHANGED <<k, bad, steps>>
Next == Layer \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2)
=============================================================================
