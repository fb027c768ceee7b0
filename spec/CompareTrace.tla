--------------------------- MODULE CompareTrace ---------------------------
(***************************************************************************)
(* Real comparisons against Compare, inference after inference: a case is  *)
(* two files, the number of inferences to compare, and what each way to    *)
(* call the tool reported.  Differences are reported in 1024ths of a unit  *)
(* and relative ones in 65536ths (of one), so that both are integers.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, row, found, phase, bad, steps
vars == <<c, row, found, phase, bad, steps>>
K == INSTANCE Compare WITH COLS <- 0, ROWS <- 0, RULE <- "design", f1 <- <<>>, f2 <- <<>>, n <- 0
Case == Cases[c]
Start == /\ row = 1 /\ found = K!Zero /\ phase = "reading"
Init == c = 1 /\ Start /\ bad = <<>> /\ steps = 0
Live == c <= Len(Cases) /\ phase = "reading"

HasBad(l) == \E j \in 1..Len(l) : l[j].k = "bad"
Apart == IF row > K!MinI(Len(Case.f1), Len(Case.f2)) THEN TRUE
         ELSE Len(Case.f1[row]) # Len(Case.f2[row]) \/ HasBad(Case.f1[row]) \/ HasBad(Case.f2[row])
Refuse == /\ Live /\ row <= Case.n /\ Apart
          /\ phase' = "refused" /\ steps' = steps + 1 /\ UNCHANGED <<c, row, found, bad>>
Row == /\ Live /\ row <= Case.n /\ ~Apart
       /\ found' = K!TakeAll(found, Case.f1[row], Case.f2[row], 1)
       /\ row' = row + 1 /\ steps' = steps + 1 /\ UNCHANGED <<c, phase, bad>>
Done == /\ Live /\ row > Case.n
        /\ phase' = "done" /\ steps' = steps + 1 /\ UNCHANGED <<c, row, found, bad>>

Say(b, h, cl, g) == IF b THEN <<[case |-> Case.id, how |-> h.name, clause |-> cl, got |-> ToString(g)]>> ELSE <<>>
\* an exponent apart, every number is exact up to the last bits of a float
AbsOk(a, w) == IF w.k # "fin" THEN a.k = w.k ELSE a.k = "fin" /\ K!AbsI(a.n - 1024 * w.n) <= 2
RelOk(r, w) == IF w.k = "inf" THEN TRUE
               ELSE IF w.k = "nan" THEN r.k = "nan"
               ELSE IF w.q > 8192 THEN r.k = "fin" /\ K!AbsI(r.n - (65536 * w.p) \div w.q) <= 2
               ELSE r.k = "fin" /\ K!AbsI(r.n * w.q - 65536 * w.p) <= 2 * w.q
Clauses(h) ==
  IF phase = "refused" THEN Say(h.outcome # "refused", h, "not refused", h.outcome)
  ELSE IF h.outcome # "done" THEN Say(TRUE, h, "refused", h.outcome)
  ELSE Say(h.verdict # "none" /\ ~found.open /\ h.verdict # (IF found.same THEN "same" ELSE "differs"), h, "verdict", h.verdict)
       \o Say(~found.open /\ ~AbsOk(h.abs, found.abs), h, "largest absolute difference", h.abs)
       \o Say(~found.open /\ ~RelOk(h.rel, found.rel), h, "largest relative difference", h.rel)
RECURSIVE Judge(_)
Judge(k) == IF k > Len(Case.how) THEN <<>> ELSE Clauses(Case.how[k]) \o Judge(k + 1)
Close == /\ c <= Len(Cases) /\ phase # "reading"
         /\ bad' = bad \o Judge(1)
         /\ c' = c + 1 /\ row' = 1 /\ found' = K!Zero /\ phase' = "reading" /\ steps' = steps + 1
Finish == /\ c = Len(Cases) + 1
          /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
          /\ c' = c + 1 /\ UNCHANGED <<row, found, phase, bad, steps>>
Next == Refuse \/ Row \/ Done \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2)
=============================================================================
