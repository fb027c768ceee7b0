---------------------------- MODULE BuildHistory ----------------------------
(***************************************************************************)
(* A user of the generated files edits them, builds, cleans and builds     *)
(* again.  make rebuilds what is missing or older than what it depends on, *)
(* according to Depends; the specification shows that this is enough for   *)
(* the products to be made of the current files.                           *)
(***************************************************************************)
EXTENDS Build, TLC, Json

CONSTANTS Depth, Emitting, Forget    \* Forget: the headers are not in Depends (to see that they are needed)
Opts == << [ext |-> FALSE, bin |-> FALSE, custom |-> "none", target |-> FALSE, name |-> "exe"],
           [ext |-> FALSE, bin |-> TRUE, custom |-> "helper", target |-> FALSE, name |-> "exe"] >>
VARIABLES o, time, ver, built, hist
vars == <<o, time, ver, built, hist>>
view == <<o, ver, built>>
Files0 == Sources(o) \cup Headers(o)
Inc(s) == IF s \in {"main.c"} THEN {"inference.h", "test_dataset.h"} ELSE IF s \in {"inference.c", "train_hook.c"} THEN {"inference.h"}
          ELSE IF s = "helper.c" THEN {"helper.h"} ELSE IF s = "test_dataset.c" THEN {"test_dataset.h"} ELSE {}
inc == [s \in Sources(o) |-> Inc(s)]
Src(q) == (CHOOSE u \in Units(o) : u.obj = q).src
Depends(p) ==
  IF p = Exe(o) THEN Objects(o)
  ELSE IF p = Lib(o) THEN (Sources(o) \cap {"inference.c", "train_hook.c", "global_vars.c"}) \cup {"parameters.o"} \cup (IF Forget THEN {} ELSE Headers(o))
  ELSE {Src(p)} \cup (IF Forget THEN {} ELSE Headers(o))

Init == /\ o \in {Opts[i] : i \in DOMAIN Opts} /\ time = 1 /\ hist = <<>>
        /\ ver = [f \in Files0 |-> 1] /\ built = [x \in {} |-> 0]
Bound == Len(hist) < Depth
Note(r) == hist' = Append(hist, r)
Edit(f) == /\ Bound /\ time' = time + 1 /\ ver' = [ver EXCEPT ![f] = time + 1]
           /\ UNCHANGED <<o, built>> /\ Note([k |-> "edit", f |-> f])
(* built[p]: when, and of what; the objects come before what is made of    *)
(* them                                                                    *)
Age(b, f) == IF f \in DOMAIN ver THEN ver[f] ELSE IF f \in DOMAIN b THEN b[f].at ELSE 0
Stale(b, p) == p \notin DOMAIN b \/ \E d \in Depends(p) : Age(b, d) > b[p].at
Body(b, p) == IF p \in Objects(o) THEN Current({u \in Units(o) : u.obj = p}, inc, ver)
              ELSE UNION {IF d \in DOMAIN b THEN b[d].of ELSE IF d \in Sources(o) THEN Current({u \in Units(o) : u.src = d}, inc, ver) ELSE {} : d \in Depends(p)}
Layer(b, S, t) == LET N == {p \in S : Stale(b, p)} IN [p \in N |-> [at |-> t, of |-> Body(b, p)]] @@ b
Make(g) == /\ Bound /\ time' = time + 2
           /\ LET G == Goals(o, g)
                  b1 == Layer(built, G \cap Objects(o), time + 1)
              IN built' = Layer(b1, G \ Objects(o), time + 2)
           /\ UNCHANGED <<o, ver>> /\ Note([k |-> "make", goal |-> g])
Clean == /\ Bound /\ built # [x \in {} |-> 0] /\ built' = [x \in {} |-> 0] /\ UNCHANGED <<o, time, ver>> /\ Note([k |-> "make", goal |-> "clean"])
Drop(p) == /\ Bound /\ p \in DOMAIN built /\ built' = [x \in DOMAIN built \ {p} |-> built[x]]
           /\ UNCHANGED <<o, time, ver>> /\ Note([k |-> "drop", f |-> p])
Next == (\E f \in Files0 : Edit(f)) \/ (\E g \in {"all", "exe", "so"} : Make(g)) \/ Clean \/ (\E p \in Products(o) : Drop(p))
Spec == Init /\ [][Next]_vars

(* after make, the products of the goal are made of the current files      *)
UpToDate == hist # <<>> /\ hist[Len(hist)].k = "make" /\ hist[Len(hist)].goal # "clean"
            => \A p \in Goals(o, hist[Len(hist)].goal) : p \in DOMAIN built /\ built[p].of = Want(o, inc, ver, p)
(* and a second make has nothing to do                                     *)
Settled == UpToDate /\ (hist # <<>> /\ hist[Len(hist)].k = "make" /\ hist[Len(hist)].goal # "clean"
            => \A p \in Goals(o, hist[Len(hist)].goal) : ~Stale(built, p))
Count(kinds) == Cardinality({i \in DOMAIN hist : hist[i].k \in kinds})
Shape == Count({"drop"}) <= 2 /\ Count({"edit"}) <= 4
Emit == ~Emitting \/ Len(hist) < Depth \/ Count({"make"}) < 3 \/ PrintT("HIST " \o ToJson([bin |-> o.bin, h |-> hist]))
=============================================================================
