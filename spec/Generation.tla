----------------------------- MODULE Generation -----------------------------
(***************************************************************************)
(* What a generation writes.  The options of a generator decide the set of *)
(* its files; the content of each is a function of the model, the data and *)
(* the options only.                                                       *)
(***************************************************************************)
EXTENDS FiniteSets

(* o.ext: inputs read at run time; o.bin: parameters and data in binary    *)
(* files; o.custom: the generation functions given by the user             *)
Files(o) ==
  (IF o.custom = "nomain" THEN {} ELSE {"main.c", "test_dataset.h"})
  \cup {"inference.c", "inference.h", "global_vars.c", "train_hook.c", "Makefile"}
  \cup (IF o.bin THEN {"parameters.dat"} ELSE {"parameters.c"})
  \cup (IF o.ext THEN {} ELSE IF o.bin THEN {"test_dataset.dat"} ELSE {"test_dataset.c"})
  \cup (IF o.custom = "extra" THEN {"notes.txt"} ELSE {})

(* what make can build and run without anything else                       *)
Complete(o) == ~o.ext /\ o.custom \in {"none", "extra"}
=============================================================================
