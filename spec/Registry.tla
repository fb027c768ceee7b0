------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry of implementations.  A layer type has a factory (several   *)
(* types may share one), a factory a table of implementations: a name and  *)
(* the function registered under it, which is here the number of the       *)
(* registration (0: one of the tool's own).  A generator takes the         *)
(* functions when it is created; what is registered later is not for it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Emitting, Overwrite    \* Overwrite: a name given again takes the new function (to see that it matters)
Types == {"Conv2D", "Add", "Relu", "Sigmoid", "Mine"}
InNet == Types \ {"Mine"}
Fac(t) == IF t = "Sigmoid" THEN "Relu" ELSE t
Names == {"one", "two", "6loops", "unnamed"}    \* unnamed: the one of the layers nothing is asked for
Slots == IF Emitting THEN {1, 2} ELSE {1}
None == [x \in {} |-> 0]

VARIABLES reg, gen, hist
vars == <<reg, gen, hist>>
view == <<reg, gen>>
Init == /\ reg = [f \in {Fac(t) : t \in InNet} |-> [x \in (IF f = "Conv2D" THEN {"6loops", "unnamed"} ELSE {"unnamed"}) |-> 0]]
        /\ gen = [s \in Slots |-> None] /\ hist = <<>>
Bound == Len(hist) < Depth
Note(r) == hist' = Append(hist, r)
Now == Len(hist) + 1
Known(t) == Fac(t) \in DOMAIN reg
Has(t, n) == Known(t) /\ n \in DOMAIN reg[Fac(t)]

Register(t, n) ==
  /\ Bound /\ Known(t)
  /\ reg' = IF Has(t, n) /\ ~Overwrite THEN reg ELSE [reg EXCEPT ![Fac(t)] = (n :> Now) @@ @]
  /\ gen' = gen /\ Note([k |-> "reg", t |-> t, n |-> n])
NewType(t) ==
  /\ Bound /\ reg' = IF Known(t) THEN reg ELSE (t :> None) @@ reg
  /\ gen' = gen /\ Note([k |-> "fac", t |-> t])
(* a request: a name for one or two layer types of the network             *)
Refused(R) == \E t \in DOMAIN R : ~Has(t, R[t])
Create(s, R, by) ==
  /\ Bound
  /\ gen' = IF Refused(R) THEN gen ELSE [gen EXCEPT ![s] = [t \in InNet |-> reg[Fac(t)][IF t \in DOMAIN R THEN R[t] ELSE "unnamed"]]]
  /\ reg' = reg /\ Note([k |-> "new", slot |-> s, by |-> by, req |-> [t \in DOMAIN R |-> R[t]]])
Generate(s) == /\ Bound /\ gen[s] # None /\ UNCHANGED <<reg, gen>> /\ Note([k |-> "gen", slot |-> s])
Requests == {[t \in {a} |-> n] : a \in InNet, n \in Names \ {"unnamed"}} \cup
            {[t \in {"Relu", b} |-> IF t = "Relu" THEN n ELSE m] : b \in {"Sigmoid", "Conv2D"}, n \in {"one", "two"}, m \in Names \ {"unnamed"}}
Next == \/ \E t \in Types, n \in Names : Register(t, n)
        \/ \E t \in {"Add", "Mine"} : NewType(t)
        \/ \E s \in Slots, R \in Requests, by \in (IF Emitting THEN {"type", "index"} ELSE {"type"}) : Create(s, R, by)
        \/ \E s \in Slots : Generate(s)
Spec == Init /\ [][Next]_vars

(* what is registered stays, under its name                                *)
Kept == [][\A f \in DOMAIN reg : f \in DOMAIN reg' /\ \A n \in DOMAIN reg[f] : n \in DOMAIN reg'[f] /\ reg'[f][n] = reg[f][n]]_vars
(* a generator has functions which are registered, still                   *)
Bound2 == \A s \in Slots : gen[s] # None => \A t \in InNet : gen[s][t] # 0 => \E n \in DOMAIN reg[Fac(t)] : reg[Fac(t)][n] = gen[s][t]
Count(kinds) == Cardinality({i \in DOMAIN hist : hist[i].k \in kinds})
Shape == Count({"reg", "fac"}) <= 6 /\ Count({"fac"}) <= 2 /\ Count({"new"}) <= 4
Used == \E i, j \in DOMAIN hist : i < j /\ hist[i].k = "reg" /\ hist[j].k = "gen"
Emit == ~Emitting \/ Len(hist) < Depth \/ Count({"gen"}) < 1 \/ Count({"new"}) < 2 \/ Count({"reg"}) < 3 \/ ~Used \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
