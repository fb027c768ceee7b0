------------------------------ MODULE BatchTrace ------------------------------
(***************************************************************************)
(* Real executions of a generated program, event by event: the calls of    *)
(* the inference as they begin and end, with the context, the row of the   *)
(* inputs and the row of the predictions they use.  A context must be free *)
(* when a call begins in it, exist (M), and every sample must be computed  *)
(* exactly once, into its own row.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, k, busy, done, bad, steps
vars == <<c, k, busy, done, bad, steps>>
Case == Cases[c]
Init == c = 1 /\ k = 1 /\ busy = <<>> /\ done = {} /\ bad = <<>> /\ steps = 0
Say(cl, x) == <<[case |-> Case.id, clause |-> cl, event |-> k, arg |-> x]>>
E == Case.events[k]

Begin == /\ c <= Len(Cases) /\ k <= Len(Case.events) /\ E.k = "begin"
         /\ bad' = bad \o
              (IF E.ctx \in DOMAIN busy THEN Say("context already used", E.ctx) ELSE <<>>) \o
              (IF ~(E.ctx \in 0..(Case.max - 1)) THEN Say("no such context", E.ctx) ELSE <<>>) \o
              (IF ~(E.in \in 0..(Case.n - 1)) THEN Say("no such sample", E.in) ELSE <<>>) \o
              (IF E.in # E.out THEN Say("answer in the row of another sample", E.out) ELSE <<>>) \o
              (IF E.in \in done \/ \E x \in DOMAIN busy : busy[x] = E.in THEN Say("sample computed again", E.in) ELSE <<>>)
         /\ busy' = (E.ctx :> E.in) @@ busy
         /\ done' = done /\ k' = k + 1 /\ c' = c /\ steps' = steps + 1
End == /\ c <= Len(Cases) /\ k <= Len(Case.events) /\ E.k = "end"
       /\ busy' = [x \in (DOMAIN busy \ {E.ctx}) |-> busy[x]]
       /\ done' = done \cup {E.in} /\ k' = k + 1 /\ c' = c /\ steps' = steps + 1 /\ bad' = bad
Close == /\ c <= Len(Cases) /\ k > Len(Case.events)
         /\ bad' = bad \o (IF Case.status # "ok" THEN Say("status " \o Case.status, 0) ELSE
              (IF done # 0..(Case.n - 1) THEN Say("samples computed", Cardinality(done)) ELSE <<>>) \o
              (IF Case.lines # Case.n THEN Say("lines of the output", Case.lines) ELSE <<>>))
         /\ c' = c + 1 /\ k' = 1 /\ busy' = <<>> /\ done' = {} /\ steps' = steps + 1
Finish == /\ c = Len(Cases) + 1
          /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
          /\ c' = c + 1 /\ UNCHANGED <<k, busy, done, bad, steps>>
Next == Begin \/ End \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2)
=============================================================================
