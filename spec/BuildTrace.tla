----------------------------- MODULE BuildTrace -----------------------------
(***************************************************************************)
(* Histories of real builds against Build.  The compiler is a stand-in     *)
(* which records how it is called and writes, as its product, the list of  *)
(* what it was made of.  State: the version of each file, the content of   *)
(* each product, and the goals nothing was changed since.                  *)
(***************************************************************************)
EXTENDS Build, SequencesExt, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, k, now, made, settled, bad, steps
vars == <<c, k, now, made, settled, bad, steps>>
Case == Cases[c]
O == Case.o
None == [x \in {} |-> ""]
ToFun(l) == [n \in {l[i].n : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i].n = n].d]
Contents(l) == [n \in {l[i].n : i \in 1..Len(l)} |-> LET of == l[CHOOSE i \in 1..Len(l) : l[i].n = n].of IN {<<of[i][1], of[i][2]>> : i \in 1..Len(of)}]
FirstFiles(n) == IF n <= Len(Cases) THEN ToFun(Cases[n].files) ELSE None
Init == c = 1 /\ k = 0 /\ now = FirstFiles(1) /\ made = None /\ settled = {} /\ bad = <<>> /\ steps = 0
E == Case.events[k]
Live(kind) == c <= Len(Cases) /\ k >= 1 /\ k <= Len(Case.events) /\ E.k = kind
Some(S) == IF S = {} THEN "" ELSE CHOOSE x \in S : TRUE
If(b, cl, x) == IF b THEN <<[case |-> Case.id, event |-> k, clause |-> cl, arg |-> x]>> ELSE <<>>
Go(b, n, m, s) == /\ bad' = bad \o b /\ now' = n /\ made' = m /\ settled' = s /\ k' = k + 1 /\ steps' = steps + 1 /\ c' = c
inc == [s \in Sources(O) |-> IF s \in {Case.inc[i].n : i \in 1..Len(Case.inc)}
                            THEN LET i == CHOOSE i \in 1..Len(Case.inc) : Case.inc[i].n = s IN {Case.inc[i].hs[j] : j \in 1..Len(Case.inc[i].hs)} \cap Headers(O)
                            ELSE {}]
(* the files of the generation                                             *)
Start == /\ c <= Len(Cases) /\ k = 0
         /\ LET F == Sources(O) \cup Headers(O) \cup {"Makefile"}
            IN Go(If(Case.status # "ok", "generation failed", Case.status)
                  \o (IF Case.status # "ok" THEN <<>> ELSE If(~(F \subseteq DOMAIN now), "missing file", Some(F \ DOMAIN now)))
                  \o If(~Case.caller, "an object of the caller was modified", ""), now, made, settled)
Edit == Live("edit") /\ Go(<<>>, [now EXCEPT ![E.f] = E.d], made, {})
Drop == Live("drop") /\ Go(<<>>, now, [x \in DOMAIN made \ {E.f} |-> made[x]], {})
Goal == IF E.goal = "" THEN "all" ELSE E.goal
Covers(g) == IF g = "all" THEN {"all", "exe", "so"} ELSE {g}
\* a call: tool, out, comp / shared / pic (1 or 0), flags in their order, tail: those after the last input
IsBlob(p) == \E n \in {"parameters", "test_dataset"} : Blob(n) \in Units(O) /\ p = n \o ".o"
BadCall(x) ==
  IF IsBlob(x.out) THEN If(x.tool # "objcopy", "tool", x.out)
  ELSE If(x.tool # Compiler(O), "compiler", x.out \o " by " \o x.tool)
       \o (IF x.out \in Objects(O)
           THEN If(x.comp # 1 \/ x.shared # 0, "kind of call", x.out) \o If(x.flags # CFlags(O), "flags of the compiler", x.out)
           ELSE If(x.comp # 0 \/ (x.shared = 1) # (x.out = Lib(O)) \/ (x.out = Lib(O) /\ x.pic # 1), "kind of call", x.out)
                \o If(x.flags # CFlags(O) \o LFlags(O), "flags of the link", x.out)
                \o If(~IsSuffix(LFlags(O), x.tail), "libraries before the objects", x.out))
RECURSIVE BadCalls(_)
BadCalls(i) == IF i > Len(E.calls) THEN <<>> ELSE BadCall(E.calls[i]) \o BadCalls(i + 1)
Outs == {E.calls[i].out : i \in 1..Len(E.calls)}
Same(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
Make == /\ Live("make") /\ E.goal # "clean"
        /\ LET G == Goals(O, Goal) pr == Contents(E.prods)
               stale == {p \in G : p \notin DOMAIN pr \/ pr[p] # Want(O, inc, now, p)}
               other == {p \in (DOMAIN pr \cup DOMAIN made) \ G : ~(p \in DOMAIN pr /\ p \in DOMAIN made /\ pr[p] = made[p])}
           IN Go(If(E.outcome # "ok", "make failed", E.outcome)
                 \o If(stale # {}, "product not up to date", Some(stale))
                 \o If(other # {}, "another product touched", Some(other))
                 \o If(~Same(ToFun(E.after), now), "a file is changed", "")
                 \o If(~(Outs \subseteq G), "another product made", Some(Outs \ G))
                 \o If(Len(E.calls) # Cardinality(Outs), "made twice", "")
                 \o If(Goal \in settled /\ E.calls # <<>>, "made again", Some(Outs))
                 \o BadCalls(1), now, pr, settled \cup Covers(Goal))
Clean == /\ Live("make") /\ E.goal = "clean"
         /\ Go(If(E.outcome # "ok", "clean failed", E.outcome) \o If(E.prods # <<>>, "left by clean", E.prods[1].n)
               \o If(~Same(ToFun(E.after), now), "a file is changed", "") \o If(E.calls # <<>>, "made by clean", Some(Outs)), now, None, {})
NextCase == /\ c <= Len(Cases) /\ k > Len(Case.events)
            /\ c' = c + 1 /\ k' = 0 /\ now' = FirstFiles(c + 1) /\ made' = None /\ settled' = {} /\ steps' = steps + 1 /\ bad' = bad
Finish == /\ c = Len(Cases) + 1
          /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
          /\ c' = c + 1 /\ UNCHANGED <<k, now, made, settled, bad, steps>>
Next == Start \/ Edit \/ Drop \/ Make \/ Clean \/ NextCase \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2)
=============================================================================
