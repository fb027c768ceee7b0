------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* What the Makefile of a generation builds: which files are compiled,     *)
(* with which compiler and flags, and what the products are made of.  The  *)
(* content of a product is a set of pairs <<file, version>>.               *)
(***************************************************************************)
EXTENDS Generation, Sequences, Integers

(* A unit of the program: a source and its object                          *)
Unit(n) == [src |-> n \o ".c", obj |-> n \o ".o"]
Blob(n) == [src |-> n \o ".dat", obj |-> n \o ".o"]
(* o as in Generation, with o.target (a target file) and o.custom:         *)
(* "helper" adds a source, a header and files which are neither            *)
Units(o) ==
  (IF o.custom = "nomain" THEN {} ELSE {Unit("main")})
  \cup {Unit("inference"), Unit("global_vars"), Unit("train_hook")}
  \cup {IF o.bin THEN Blob("parameters") ELSE Unit("parameters")}
  \cup (IF o.ext THEN {} ELSE {IF o.bin THEN Blob("test_dataset") ELSE Unit("test_dataset")})
  \cup (IF o.target THEN {Unit("target")} ELSE {})
  \cup (IF o.custom = "helper" THEN {Unit("helper")} ELSE {})
Sources(o) == {u.src : u \in Units(o)}
Objects(o) == {u.obj : u \in Units(o)}
Headers(o) == {"inference.h"} \cup (IF o.custom = "nomain" THEN {} ELSE {"test_dataset.h"})
              \cup (IF o.target THEN {"target.h"} ELSE {}) \cup (IF o.custom = "helper" THEN {"helper.h"} ELSE {})
(* what the shared library holds                                           *)
LibUnits(o) == {u \in Units(o) : u.obj \in {"inference.o", "parameters.o", "train_hook.o", "global_vars.o"}}
Exe(o) == o.name
Lib(o) == o.name \o ".so"
Products(o) == Objects(o) \cup {Exe(o), Lib(o)}

(* inc[s]: the headers a source includes; now[f]: the version of a file    *)
Parts(us, inc) == {u.src : u \in us} \cup UNION {inc[u.src] : u \in us}
Current(us, inc, now) == {<<f, now[f]>> : f \in Parts(us, inc)}
Made(o, p) == IF p = Exe(o) THEN Units(o) ELSE IF p = Lib(o) THEN LibUnits(o) ELSE {u \in Units(o) : u.obj = p}
Want(o, inc, now, p) == Current(Made(o, p), inc, now)
(* the products a goal brings up to date                                   *)
Goals(o, g) == CASE g = "exe" -> {Exe(o)} \cup Objects(o)
                 [] g = "so" -> {Lib(o), "parameters.o"}
                 [] OTHER -> Products(o)

(* The caller may give a compiler, flags of the compiler and of the        *)
(* linker; a target description adds its flags, and has the last word on   *)
(* the compiler.  <<>> where nothing is given: has.* tells.                *)
Compiler(o) == IF o.tcc # "" THEN o.tcc ELSE IF o.cc # "" THEN o.cc ELSE "gcc"
CFlags(o) == (IF o.hascf THEN o.cf ELSE <<"-g", "-w">>) \o o.tcf
LFlags(o) == (IF o.haslf THEN o.lf ELSE <<"-lm">>) \o o.tlf
=============================================================================
