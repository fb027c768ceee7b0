-------------------------------- MODULE Fuse --------------------------------
(***************************************************************************)
(* The rewriting of networks.  A network is built node by node, then       *)
(* rewritten in any order until nothing applies:                           *)
(*   an activation is taken in by the layer before it,                     *)
(*   a normalization by the convolution before it,                         *)
(*   x * sigmoid(x) becomes silu(x).                                       *)
(* What the network computes is a term over the input, in which the        *)
(* convolutions and normalizations keep their number (their parameters).   *)
(* No rewriting may change it.  Free: the guard that is left out, to see   *)
(* that it matters.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Emitting, Free
Unary == {"Conv", "Norm", "Relu", "Sig"}
Binary == {"Mul", "Add"}
Acts == {"Relu", "Sig", "Silu"}
None == "none"

VARIABLES g, out, want, phase
vars == <<g, out, want, phase>>
Alive == {i \in DOMAIN g : g[i].k # None}
(* a node: kind, operands (0: the input), the normalizations it took in, its activation *)
Node(k, in) == [k |-> k, in |-> in, norms |-> <<>>, act |-> None]
Reads(i) == {j \in Alive : \E o \in DOMAIN g[j].in : g[j].in[o] = i}

App(f, t) == CASE f = None -> t [] f = "Silu" -> <<"Mul", {<<"Sig", t>>, t}>> [] OTHER -> <<f, t>>
RECURSIVE Normed(_, _)
Normed(ns, t) == IF ns = <<>> THEN t ELSE Normed(Tail(ns), <<"Norm", Head(ns), t>>)
RECURSIVE Term(_, _)
Term(G, i) ==
  IF i = 0 THEN <<"x">>
  ELSE LET n == G[i]
           t == [o \in DOMAIN n.in |-> Term(G, n.in[o])]
           v == CASE n.k \in {"Conv", "Norm"} -> <<n.k, i, t[1]>>
                  [] n.k \in Binary -> <<n.k, {t[1], t[2]}>>
                  [] OTHER -> App(n.k, t[1])
       IN App(n.act, Normed(n.norms, v))

Init == g = <<>> /\ out = 0 /\ want = <<"x">> /\ phase = "build"
Add(k, in) == g' = Append(g, Node(k, in)) /\ UNCHANGED <<out, want, phase>>
Build == /\ phase = "build" /\ Len(g) < N
         /\ \/ \E k \in Unary, a \in 0..Len(g) : Add(k, <<a>>)
            \/ \E k \in Binary, a, b \in 0..Len(g) : Add(k, <<a, b>>)
(* one output, and nothing without an effect on it                         *)
Start == /\ phase = "build" /\ Len(g) = N /\ \A i \in 1..(N - 1) : Reads(i) # {}
         /\ phase' = "rewrite" /\ out' = N /\ want' = Term(g, N) /\ g' = g

IsAct(i) == g[i].k \in Acts
Single(p, i) == Reads(p) = {i} /\ Cardinality({o \in DOMAIN g[i].in : g[i].in[o] = p}) = 1
Redirect(G, a, b) == [i \in DOMAIN G |-> [G[i] EXCEPT !.in = [o \in DOMAIN @ |-> IF @[o] = a THEN b ELSE @[o]]]]
Gone(G, a) == [G EXCEPT ![a].k = None, ![a].in = <<>>]
TakeAct(a) ==
  /\ a \in Alive /\ IsAct(a)
  /\ LET p == g[a].in[1]
     IN /\ p # 0 /\ ~IsAct(p)
        /\ Free = "linear" \/ g[p].act = None
        /\ Free = "single" \/ Single(p, a)
        /\ g' = Redirect(Gone([g EXCEPT ![p].act = g[a].k], a), a, p)
        /\ out' = IF out = a THEN p ELSE out
TakeNorm(b) ==
  /\ b \in Alive /\ g[b].k = "Norm"
  /\ LET p == g[b].in[1]
     IN /\ p # 0 /\ g[p].k = "Conv"
        /\ Free = "linear norm" \/ g[p].act = None
        /\ Free = "single norm" \/ Single(p, b)
        /\ g' = Redirect(Gone([g EXCEPT ![p].norms = Append(@, b), ![p].act = IF Free = "forget" THEN @ ELSE g[b].act], b), b, p)
        /\ out' = IF out = b THEN p ELSE out
\* a multiplication whose operands are a sigmoid, read by nothing else, and what the sigmoid reads
MakeSilu(s) ==
  /\ s \in Alive /\ g[s].k = "Sig"
  /\ \E m \in Alive :
       LET p == g[s].in[1]
       IN /\ g[m].k = "Mul" /\ Single(s, m) /\ p # 0
          /\ Free = "other" \/ \A o \in DOMAIN g[m].in : g[m].in[o] \in {s, p}
          /\ Free = "activated" \/ g[m].act = None
          /\ g' = Redirect(Gone([g EXCEPT ![s].k = "Silu"], m), m, s)
          /\ out' = IF out = m THEN s ELSE out
Rewrite == /\ phase = "rewrite" /\ (\E i \in Alive : TakeAct(i) \/ TakeNorm(i) \/ MakeSilu(i))
           /\ UNCHANGED <<want, phase>>
Next == Build \/ Start \/ Rewrite
Spec == Init /\ [][Next]_vars

Same == phase = "rewrite" => Term(g, out) = want
(* what is read is there, the numbers of the others stay                   *)
Whole == \A i \in Alive : \A o \in DOMAIN g[i].in : g[i].in[o] = 0 \/ g[i].in[o] \in Alive
Smaller == [][phase = "rewrite" => Cardinality({i \in DOMAIN g' : g'[i].k # None}) < Cardinality(Alive)]_vars

(* the networks that are given to the tool: some rewriting applies, or nearly so *)
Pairs == {<<i, j>> \in (1..N) \X (1..N) : \E o \in DOMAIN g[j].in : g[j].in[o] = i}
Tempting == \E e \in Pairs : LET p == g[e[1]].k
                                q == g[e[2]].k
                            IN (q \in {"Relu", "Sig"} /\ p \notin {"Relu", "Sig"}) \/ (p = "Conv" /\ q = "Norm") \/ (p = "Sig" /\ q = "Mul")
Shown == phase = "rewrite" /\ Cardinality(Alive) = N /\ \A i \in Alive : g[i].act = None /\ g[i].k # "Silu"
Emit == ~Emitting \/ ~Shown \/ ~Tempting \/ PrintT("NET " \o ToJson([i \in DOMAIN g |-> [k |-> g[i].k, in |-> g[i].in]]))
=============================================================================
