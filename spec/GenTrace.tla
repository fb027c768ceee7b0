------------------------------ MODULE GenTrace ------------------------------
(***************************************************************************)
(* Histories of real generators against Generation.  A case is a set of    *)
(* histories over the same configurations, run in several processes; seen  *)
(* keeps, for each configuration, the content every file had the first     *)
(* time: it must be the same ever after.                                   *)
(***************************************************************************)
EXTENDS Generation, Integers, Sequences, SequencesExt, Json, IOUtils, TLC, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, r, k, slot, disk, seen, bad, steps
vars == <<c, r, k, slot, disk, seen, bad, steps>>
Case == Cases[c]
None == [x \in {} |-> ""]
Fresh == [d \in 1..2 |-> None]
Init == /\ c = 1 /\ r = 1 /\ k = 1 /\ slot = <<0, 0>> /\ disk = Fresh /\ seen = None /\ bad = <<>> /\ steps = 0
Run == Case.runs[r]
E == Run.events[k]
Say(cl, x) == <<[case |-> Case.id, run |-> r, event |-> k, clause |-> cl, arg |-> x]>>
If(b, cl, x) == IF b THEN Say(cl, x) ELSE <<>>
Live == c <= Len(Cases) /\ r <= Len(Case.runs) /\ k <= Len(Run.events)

ToMap(l) == [n \in {l[i].n : i \in 1..Len(l)} |-> (CHOOSE i \in 1..Len(l) : l[i].n = n)]
After(l) == LET m == ToMap(l) IN [n \in DOMAIN m |-> l[m[n]].d]
Some(S) == IF S = {} THEN "" ELSE CHOOSE x \in S : TRUE

(* what is common to all the events                                        *)
Common(now) ==
  If(E.caller # Case.caller, "an object of the caller was modified", E.k)
Others(d, now, F) == {f \in (DOMAIN disk[d] \cup DOMAIN now) \ F :
                        ~(f \in DOMAIN disk[d] /\ f \in DOMAIN now /\ now[f] = disk[d][f])}
Differ(g, now, F) == {f \in F \cap DOMAIN now : <<g, f>> \in DOMAIN seen /\ seen[<<g, f>>] # now[f]}
Learn(g, now, F) == [x \in {<<g, f>> : f \in F \cap DOMAIN now} |-> now[x[2]]]

Step(b, nseen, ndisk, nslot) ==
  /\ bad' = bad \o b /\ seen' = nseen /\ disk' = ndisk /\ slot' = nslot
  /\ IF k < Len(Run.events) THEN k' = k + 1 /\ r' = r ELSE k' = 1 /\ r' = r + 1
  /\ c' = c /\ steps' = steps + 1
Reset(nd, ns) == IF k < Len(Run.events) THEN <<nd, ns>> ELSE <<Fresh, <<0, 0>>>>
Go(b, nseen, nd, ns) == LET x == Reset(nd, ns) IN Step(b, nseen, x[1], x[2])

New == /\ Live /\ E.k = "new"
       /\ Go(Common(0) \o If(E.outcome # "ok", "creation failed", E.outcome), seen, disk, [slot EXCEPT ![E.slot] = E.cfg])
Gen == /\ Live /\ E.k = "gen"
       /\ LET g == slot[E.slot] o == Case.opts[g] F == Files(o) now == After(E.after) d == E.dir
              there == F \cap DOMAIN disk[d]
              fx == After(Case.fixed[g])
          IN Go(Common(now) \o
               (IF there # {}
                THEN If(E.outcome # "FileExistsError", "existing file not refused", Some(there) \o " " \o E.outcome)
                     \o If(now # disk[d], "refused generation changed the directory", Some(Others(d, now, {})))
                ELSE If(E.outcome # "ok", "generation failed", E.outcome)
                     \o If(~(F \subseteq DOMAIN now), "missing file", Some(F \ DOMAIN now))
                     \o If(Others(d, now, F) # {}, "other file touched", Some(Others(d, now, F)))
                     \o If(Differ(g, now, F) # {}, "content differs from another generation", Some(Differ(g, now, F)))
                     \o LET w == {f \in DOMAIN fx : f \in DOMAIN now /\ now[f] # fx[f]}
                        IN If(w # {}, "custom file", Some(w))),
               IF there = {} THEN seen @@ Learn(g, now, F) ELSE seen, [disk EXCEPT ![d] = now], slot)
Infer == /\ Live /\ E.k = "infer"
         /\ LET g == slot[E.slot] now == After(E.after) d == E.dir F == {"output_python.txt"}
                \* what the same data gave
                w == ToString(E.data)
                ret == [x \in {"#return " \o w} |-> E.ret]
                txt == [x \in {"#text " \o w} |-> IF "output_python.txt" \in DOMAIN now THEN now["output_python.txt"] ELSE ""]
            IN Go(Common(now) \o If(E.outcome # "ok", "inference failed", E.outcome)
                  \o If(~(F \subseteq DOMAIN now), "missing file", "output_python.txt")
                  \o If(Others(d, now, F) # {}, "other file touched", Some(Others(d, now, F)))
                  \o If(Differ(g, txt, DOMAIN txt) # {}, "inference differs from another", "file")
                  \o If(Differ(g, ret, DOMAIN ret) # {}, "inference differs from another", "return"),
                  seen @@ Learn(g, txt, DOMAIN txt) @@ Learn(g, ret, DOMAIN ret), [disk EXCEPT ![d] = now], slot)
Build == /\ Live /\ E.k = "build"
         /\ LET ret == [x \in {"#run"} |-> E.ret]
            IN Go(Common(0) \o If(E.outcome # "ok", "make failed", E.outcome)
                  \o If(Differ(E.cfg, ret, {"#run"}) # {}, "program differs from another", ""),
                  seen @@ Learn(E.cfg, ret, {"#run"}), disk, slot)
(* what the user does to the directories is taken as it is                 *)
User == /\ Live /\ E.k \in {"put", "del", "clear"}
        /\ Go(Common(0), seen, [disk EXCEPT ![E.dir] = After(E.after)], slot)
NextCase == /\ c <= Len(Cases) /\ r > Len(Case.runs)
            /\ c' = c + 1 /\ r' = 1 /\ k' = 1 /\ seen' = None /\ disk' = Fresh /\ slot' = <<0, 0>>
            /\ steps' = steps + 1 /\ bad' = bad
Finish == /\ c = Len(Cases) + 1
          /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
          /\ c' = c + 1 /\ UNCHANGED <<r, k, slot, disk, seen, bad, steps>>
Next == New \/ Gen \/ Infer \/ Build \/ User \/ NextCase \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2)
=============================================================================
