--------------------------- MODULE RegistryTrace ---------------------------
(***************************************************************************)
(* Histories of the real registry, against Registry: what each call        *)
(* answers, what is listed after it, and which function wrote each layer   *)
(* of a generation (the number of its registration, 0: one of the tool).   *)
(* The tables at the start of a case are those of the tool.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, k, fac, reg, gen, bad, steps
vars == <<c, k, fac, reg, gen, bad, steps>>
Case == Cases[c]
None == [x \in {} |-> 0]
\* the factory of each type, and the tables of the factories
Fac0(n) == IF n > Len(Cases) THEN None ELSE LET l == Cases[n].types IN [t \in {l[i].t : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i].t = t].f]
Reg0(n) == IF n > Len(Cases) THEN None
           ELSE LET l == Cases[n].types
                IN [f \in {l[i].f : i \in 1..Len(l)} |-> LET e == l[CHOOSE i \in 1..Len(l) : l[i].f = f] IN [m \in {e.ns[j] : j \in 1..Len(e.ns)} |-> 0]]
Init == c = 1 /\ k = 1 /\ fac = Fac0(1) /\ reg = Reg0(1) /\ gen = [s \in 1..2 |-> None] /\ bad = <<>> /\ steps = 0
E == Case.events[k]
Live(kind) == c <= Len(Cases) /\ k <= Len(Case.events) /\ E.k = kind
If(b, cl, x) == IF b THEN <<[case |-> Case.id, event |-> k, clause |-> cl, arg |-> x]>> ELSE <<>>
Has(t, n) == t \in DOMAIN fac /\ n \in DOMAIN reg[fac[t]]
Outcome(refuse) == If(E.outcome # (IF refuse THEN "refused" ELSE "ok"), IF refuse THEN "accepted" ELSE "refused", E.msg)
Listed == {E.list[i].t : i \in 1..Len(E.list)}
BadList(F, R) ==
  If(Listed # DOMAIN F, "listed types", ToString((Listed \ DOMAIN F) \cup (DOMAIN F \ Listed)))
  \o FoldLeft(LAMBDA a, e : IF e.t \notin DOMAIN F THEN a
                           ELSE LET S == {e.ns[j] : j \in 1..Len(e.ns)}
                                IN a \o If(S # DOMAIN R[F[e.t]] \ {"unnamed"} \/ Len(e.ns) # Cardinality(S), "listed implementations", e.t), <<>>, E.list)
Go(b, F, R, g) == /\ bad' = bad \o b \o BadList(F, R) /\ fac' = F /\ reg' = R /\ gen' = g /\ k' = k + 1 /\ steps' = steps + 1 /\ c' = c

Register == /\ Live("reg")
            /\ LET R == IF Has(E.t, E.n) THEN reg ELSE [reg EXCEPT ![fac[E.t]] = (E.n :> E.id) @@ @]
               IN Go(Outcome(Has(E.t, E.n)), fac, R, gen)
NewType == /\ Live("fac")
           /\ LET F == IF E.t \in DOMAIN fac THEN fac ELSE (E.t :> E.t) @@ fac
                  R == IF E.t \in DOMAIN fac THEN reg ELSE (E.t :> None) @@ reg
              IN Go(Outcome(E.t \in DOMAIN fac), F, R, gen)
Req == [t \in {E.req[i].t : i \in 1..Len(E.req)} |-> E.req[CHOOSE i \in 1..Len(E.req) : E.req[i].t = t].n]
Create == /\ Live("new")
          /\ LET refuse == \E t \in DOMAIN Req : ~Has(t, Req[t])
             IN Go(Outcome(refuse), fac, reg,
                   IF refuse THEN gen ELSE [gen EXCEPT ![E.slot] = [t \in DOMAIN fac |-> LET n == IF t \in DOMAIN Req THEN Req[t] ELSE "unnamed"
                                                                        IN IF n \in DOMAIN reg[fac[t]] THEN reg[fac[t]][n] ELSE 0]])
Generate == /\ Live("gen") /\ gen[E.slot] # None
            /\ Go(Outcome(FALSE) \o FoldLeft(LAMBDA a, l : a \o If(l.id # gen[E.slot][l.t], "written by another function", l.t), <<>>, E.seen), fac, reg, gen)
\* the generator of this slot couldn't be created, which was said then
Nothing == /\ Live("gen") /\ gen[E.slot] = None /\ Go(<<>>, fac, reg, gen)
NextCase == /\ c <= Len(Cases) /\ k > Len(Case.events)
            /\ c' = c + 1 /\ k' = 1 /\ fac' = Fac0(c + 1) /\ reg' = Reg0(c + 1) /\ gen' = [s \in 1..2 |-> None] /\ steps' = steps + 1 /\ bad' = bad
Finish == /\ c = Len(Cases) + 1
          /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
          /\ c' = c + 1 /\ UNCHANGED <<k, fac, reg, gen, bad, steps>>
Next == Register \/ NewType \/ Create \/ Generate \/ Nothing \/ NextCase \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2)
=============================================================================
