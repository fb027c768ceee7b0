------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Runs of the command line against Cli, word after word.  A case holds    *)
(* the words, what the run left (the digest of the generated files, or     *)
(* that it failed and left none), and what the library generates with      *)
(* several settings: the run must leave what the library does with the     *)
(* settings read here.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, words, settings, met, status, bad, steps
vars == <<c, words, settings, met, status, bad, steps>>
C == INSTANCE Cli WITH WORDS <- {}, MAXLEN <- 0, VALUE <- "word"
Case == Cases[c]
Words(k) == IF k <= Len(Cases) THEN Cases[k].words ELSE <<>>
Init == c = 1 /\ C!Begin(Words(1)) /\ bad = <<>> /\ steps = 0

Word == c <= Len(Cases) /\ (C!ReadOption \/ C!Finish) /\ steps' = steps + 1 /\ UNCHANGED <<c, bad>>
Say(cl, g, w) == <<[case |-> Case.id, clause |-> cl, got |-> g, want |-> w]>>
Like == {k \in 1..Len(Case.lib) : \A o \in DOMAIN settings : Case.lib[k].settings[o] = settings[o]}
Clauses ==
  IF status = "error" THEN IF Case.cli.outcome = "failed" /\ Case.cli.files = 0 THEN <<>> ELSE Say("wrong command line not refused", Case.cli.outcome, "failed")
  ELSE IF Like = {} THEN Say("no reference", "", ToString(settings))
  ELSE LET l == Case.lib[CHOOSE k \in Like : TRUE]
       IN IF l.outcome = Case.cli.outcome THEN <<>> ELSE Say("another generation", Case.cli.outcome, l.outcome)
Close == /\ c <= Len(Cases) /\ status # "reading"
         /\ bad' = bad \o Clauses
         /\ c' = c + 1 /\ words' = Words(c + 1) /\ settings' = C!Default /\ met' = {} /\ status' = "reading" /\ steps' = steps + 1
Finish == /\ c = Len(Cases) + 1
          /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
          /\ c' = c + 1 /\ UNCHANGED <<words, settings, met, status, bad, steps>>
Next == Word \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2)
=============================================================================
