----------------------------- MODULE GenHistory -----------------------------
(***************************************************************************)
(* Histories of a user of the generator: generators are created, used and  *)
(* reused in any order, into directories that may hold files already,      *)
(* the user's own or those of another generation.                          *)
(***************************************************************************)
EXTENDS Generation, Integers, Sequences, TLC, Json

CONSTANTS Depth, Emitting
Slots == {1, 2}
Dirs == {1, 2}
Opt == << [ext |-> FALSE, bin |-> FALSE, custom |-> "none"],
          [ext |-> FALSE, bin |-> TRUE,  custom |-> "none"],
          [ext |-> TRUE,  bin |-> FALSE, custom |-> "none"],
          [ext |-> FALSE, bin |-> FALSE, custom |-> "extra"],
          [ext |-> FALSE, bin |-> FALSE, custom |-> "nomain"],
          [ext |-> FALSE, bin |-> FALSE, custom |-> "makefile"],
          [ext |-> FALSE, bin |-> FALSE, custom |-> "none"],
          [ext |-> FALSE, bin |-> TRUE,  custom |-> "extra"] >>
Cfgs == DOMAIN Opt
UserNames == {"main.c", "parameters.dat", "test_dataset.dat", "parameters.c", "notes.txt", "readme.txt", "Makefile"}

VARIABLES slot, disk, mine, hist
vars == <<slot, disk, mine, hist>>
view == <<slot, disk, mine>>
None == [x \in {} |-> 0]

Init == /\ slot = [s \in Slots |-> 0] /\ disk = [d \in Dirs |-> None]
        /\ mine = [d \in Dirs |-> {}] /\ hist = <<>>
Note(r) == hist' = Append(hist, r)
Bound == Len(hist) < Depth

New(s, g) == /\ Bound /\ slot' = [slot EXCEPT ![s] = g] /\ UNCHANGED <<disk, mine>>
             /\ Note([k |-> "new", slot |-> s, cfg |-> g])
(* all or nothing: no file that exists is touched                          *)
Gen(s, d) ==
  /\ Bound /\ slot[s] # 0
  /\ LET F == Files(Opt[slot[s]])
     IN IF F \cap DOMAIN disk[d] # {} THEN UNCHANGED disk
        ELSE disk' = [disk EXCEPT ![d] = [f \in F |-> <<slot[s], f>>] @@ @]
  /\ UNCHANGED <<slot, mine>>
  /\ Note([k |-> "gen", slot |-> s, dir |-> d])
(* v: 0 on the data of the generator; 1, 2: on other data (read at run     *)
(* time by the program), of another length, given as an array or a file    *)
Infer(s, d, v) ==
               /\ Bound /\ slot[s] # 0 /\ (v = 0 \/ Opt[slot[s]].ext)
               /\ disk' = [disk EXCEPT ![d] = ("output_python.txt" :> <<slot[s], "output_python.txt">>) @@ @]
               /\ UNCHANGED <<slot, mine>>
               /\ Note([k |-> "infer", slot |-> s, dir |-> d, data |-> v])
Put(d, f) == /\ Bound /\ f \notin DOMAIN disk[d]
             /\ disk' = [disk EXCEPT ![d] = (f :> <<0, f>>) @@ @]
             /\ mine' = [mine EXCEPT ![d] = @ \cup {f}] /\ slot' = slot
             /\ Note([k |-> "put", dir |-> d, name |-> f])
Del(d, f) == /\ Bound /\ f \in DOMAIN disk[d]
             /\ disk' = [disk EXCEPT ![d] = [x \in DOMAIN @ \ {f} |-> @[x]]]
             /\ mine' = [mine EXCEPT ![d] = @ \ {f}] /\ slot' = slot
             /\ Note([k |-> "del", dir |-> d, name |-> f])
Built(d, g) == /\ Complete(Opt[g]) /\ Files(Opt[g]) \subseteq DOMAIN disk[d]
               /\ \A f \in Files(Opt[g]) : disk[d][f] = <<g, f>>
Build(d, g) == Bound /\ Built(d, g) /\ UNCHANGED <<slot, disk, mine>> /\ Note([k |-> "build", dir |-> d, cfg |-> g])

(* clearing a directory                                                    *)
Clear(d) == /\ Bound /\ disk[d] # None /\ disk' = [disk EXCEPT ![d] = None]
            /\ mine' = [mine EXCEPT ![d] = {}] /\ slot' = slot /\ Note([k |-> "clear", dir |-> d])

Next == \/ \E s \in Slots, g \in Cfgs : New(s, g)
        \/ \E s \in Slots, d \in Dirs : Gen(s, d) \/ \E v \in 0..2 : Infer(s, d, v)
        \/ \E d \in Dirs : Clear(d) \/ \E f \in UserNames : Put(d, f) \/ Del(d, f)
        \/ \E d \in Dirs, g \in Cfgs : Build(d, g)
Spec == Init /\ [][Next]_vars

(* the files of the user stay as they are                                  *)
NoOverwrite == \A d \in Dirs : \A f \in mine[d] : f \in DOMAIN disk[d] /\ disk[d][f] = <<0, f>>
(* a file that is not the user's is whole and in its place                 *)
Origin == \A d \in Dirs : \A f \in DOMAIN disk[d] \ mine[d] : disk[d][f][1] # 0 /\ disk[d][f][2] = f
(* a refused generation leaves the directory as it was                     *)
Untouched == [][\A s \in Slots, d \in Dirs : (hist' # hist /\ hist'[Len(hist')].k \in {"gen"} /\ disk'[d] # disk[d])
                 => \A f \in DOMAIN disk[d] : disk'[d][f] = disk[d][f]]_vars
(* histories worth replaying: several generations, a reused generator      *)
Count(kinds) == Cardinality({i \in DOMAIN hist : hist[i].k \in kinds})
Shape == Count({"put", "del", "clear"}) <= 3 /\ Count({"new"}) <= 4 /\ Count({"build"}) <= 1 /\ Count({"infer"}) <= 3
Useful == Count({"gen"}) >= 3
Emit == ~Emitting \/ ~Useful \/ Len(hist) < Depth \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
