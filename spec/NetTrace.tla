------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Denotational machine of a feed-forward network, and its trace binding.  *)
(*                                                                         *)
(* A case is a network in dataflow form plus one or more recorded runs of  *)
(* the real tool chain on it.  The machine evaluates one node per step     *)
(* (action Eval), in the order of the case's node list, exactly as the     *)
(* model's author wrote it; when the last node is evaluated (action        *)
(* Observe) each recorded output channel (the Python reference's output    *)
(* file, the compiled C program's output file, a line of the debug file,   *)
(* ...) must equal the value of the node it shows (the output node if it   *)
(* names none).  Verdicts are total: a mismatch is recorded in bad         *)
(* with the clause that fails and the next case is examined.               *)
(***************************************************************************)
EXTENDS OpsExt, Json, IOUtils, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
FINE == 16                 \* observed values are recorded in 1/(FINE*SC)
CAP == 4096                \* an error bound that large says nothing any more
BIG == 1073741823          \* marks NaN, inf or out of range in a recording

VARIABLES c, smp, vals, bad, steps
vars == <<c, smp, vals, bad, steps>>

Case == Cases[c]
Tens(r) == T(r.s, r.d, 0)
InitVals(k, i) == <<T(Cases[k].ishape, Cases[k].samples[i], 0)>> \o [j \in 1..Len(Cases[k].inits) |-> Tens(Cases[k].inits[j])]

Init == /\ c = 1 /\ smp = 1 /\ bad = <<>> /\ steps = 0
        /\ vals = IF Len(Cases) = 0 THEN <<>> ELSE InitVals(1, 1)

NBase == 1 + Len(Case.inits)
Done == Len(vals) = NBase + Len(Case.nodes)

Eval ==
  /\ c <= Len(Cases) /\ ~Done
  /\ LET n == Case.nodes[Len(vals) - NBase + 1]
         x == [k \in 1..Len(n.ins) |-> vals[n.ins[k]]]
         v == OpValX(n.op, n.a, x, Case.sc)
     IN vals' = Append(vals, IF v.e > CAP THEN T(v.s, v.d, CAP) ELSE v)
  /\ steps' = steps + 1
  /\ UNCHANGED <<c, smp, bad>>

(* layout of the recorded output: "as_is" or channels moved last            *)
OutSeq(t, lay) == IF lay = "hwc" /\ Len(t.s) = 4
                  THEN TransposeT([perm |-> <<0, 2, 3, 1>>], <<t>>).d ELSE t.d

Tol(t, i) == t.e * FINE + Case.tol + (IF Case.sc = 1 /\ t.e = 0 THEN 0 ELSE Abs(t.d[i]) \div 4096)
Match(o, i, t, w) == t.e >= CAP \/ (o # BIG
                     /\ Abs(o - w * FINE) <= Tol(t, i))
(* the value a channel shows: an intermediate one (debug), or the network's *)
Shown(ch) == vals[IF ch.at = 0 THEN Case.outv ELSE ch.at]
Clause(ch) ==
  LET obs == ch.out[smp]
      t == Shown(ch)
      want == OutSeq(t, ch.lay)
  IN IF ch.status = "import" /\ Case.refuse >= 1 THEN <<>>     \* not supported, and said so
     ELSE IF Case.refuse = 2 /\ ch.status = "ok" THEN <<"accepted", "without a meaning", 0, 0>>
     ELSE IF ch.status # "ok" THEN <<"status", ch.status, 0, 0>>
     ELSE IF Len(obs) # Len(want) THEN <<"length", ToString(Len(obs)), Len(want), 0>>
     ELSE LET wrong == {i \in 1..Len(want) : ~Match(obs[i], i, t, want[i])}
          IN IF wrong = {} THEN <<>>
             ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j
                  IN <<"value", ToString(i), obs[i], want[i] * FINE>>

Observe ==
  /\ c <= Len(Cases) /\ Done
  /\ LET f == [k \in 1..Len(Case.channels) |-> Clause(Case.channels[k])]
         new == {k \in 1..Len(Case.channels) : f[k] # <<>>}
     IN bad' = bad \o SetToSeq({[case |-> Case.id, sample |-> smp, channel |-> Case.channels[k].name,
                                  clause |-> f[k][1], arg |-> f[k][2], got |-> f[k][3], want |-> f[k][4],
                                  err |-> Shown(Case.channels[k]).e] : k \in new})
  /\ IF smp < Len(Case.samples)
     THEN smp' = smp + 1 /\ c' = c /\ vals' = InitVals(c, smp + 1)
     ELSE /\ smp' = 1 /\ c' = c + 1
          /\ vals' = IF c + 1 <= Len(Cases) THEN InitVals(c + 1, 1) ELSE <<>>
  /\ steps' = steps + 1

Finish ==
  /\ c = Len(Cases) + 1
  /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
  /\ c' = c + 1
  /\ UNCHANGED <<smp, vals, bad, steps>>

Next == Eval \/ Observe \/ Finish
Spec == Init /\ [][Next]_vars

(* every recorded case was examined to its end                             *)
TypeOK == c \in 1..(Len(Cases) + 2) /\ steps \in Nat
=============================================================================
