----------------------------- MODULE ValueTrace -----------------------------
(***************************************************************************)
(* Exact passage of values from the model and the test inputs to the       *)
(* program.                                                                *)
(*                                                                         *)
(* Values are opaque: a value is the name of a bit pattern ("3f800000"),   *)
(* all NaN patterns being one value.  A network of this specification only *)
(* moves values, or combines them with the neutral values 0, -0 and 1 for  *)
(* which floating-point arithmetic is exact; it is thus an observation of  *)
(* every bit of the parameters and of the inputs, whatever form (text in   *)
(* hexadecimal or decimal, binary, run-time file) carries them.            *)
(*                                                                         *)
(* Evaluation as in NetTrace: one node per step, then every recorded       *)
(* channel must hold exactly the values of the output.                     *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils, TLCExt

Cases == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE).cases)
OutFile == IOEnv.OUT_FILE
VARIABLES c, smp, vals, bad, steps
vars == <<c, smp, vals, bad, steps>>
Case == Cases[c]
Tok == Case.tok       \* the neutral values in the type of the case: zero, nzero (-0), one, none (-1), inf, ninf

\* What can be told without arithmetic is told; anything else is "?".
All(t, v) == \A i \in 1..Len(t.d) : t.d[i] = v
Bcast(x, k) == LET s == BShape(x) IN Build(s, LAMBDA ix : BAt(x[k], ix, Len(s)), 0)
Unknown(s) == Build(s, LAMBDA ix : "?", 0)
\* The position of the one in a one-hot tensor, or 0.
Hot(t) == LET h == {i \in 1..Len(t.d) : t.d[i] = Tok.one}
          IN IF Cardinality(h) = 1 /\ \A i \in 1..Len(t.d) : i \in h \/ t.d[i] = Tok.zero
             THEN CHOOSE i \in h : TRUE ELSE 0

\* -0 + v = v, for every v.
AddV(x) == IF All(x[1], Tok.nzero) THEN Bcast(x, 2) ELSE IF All(x[2], Tok.nzero) THEN Bcast(x, 1) ELSE Unknown(BShape(x))
\* 1 * v = v, v / 1 = v, max(-inf, v) = v, min(+inf, v) = v.
Neutral(x, e) == IF All(x[1], e) THEN Bcast(x, 2) ELSE IF All(x[2], e) THEN Bcast(x, 1) ELSE Unknown(BShape(x))
\* v - 0 = v
SubV(x) == IF All(x[2], Tok.zero) THEN Bcast(x, 1) ELSE Unknown(BShape(x))
\* One-hot row times matrix: a row of the matrix; the null row gives the bias.
RowV(x, tB) ==
  LET W == x[2]  n == IF tB = 1 THEN W.s[1] ELSE W.s[2]  k == IF tB = 1 THEN W.s[2] ELSE W.s[1]  h == Hot(x[1])
      w(j) == IF tB = 1 THEN W.d[j * k + h] ELSE W.d[(h - 1) * n + j + 1]
      b(ix) == IF Len(x) = 3 THEN BAt(x[3], ix, 2) ELSE Tok.zero
  IN Build(<<1, n>>, LAMBDA ix : IF h # 0 /\ b(ix) = Tok.zero THEN w(ix[2])
                                 ELSE IF All(x[1], Tok.zero) THEN b(ix) ELSE "?", 0)
\* A unit pixel, fully padded: the kernels of its channel, upside down; a black pixel: the bias.
ImpulseV(x) ==
  LET W == x[2]  KH == W.s[3]  KW == W.s[4]  G == W.s[2]  h == Hot(x[1])
      b(ix) == IF Len(x) = 3 THEN x[3].d[ix[2] + 1] ELSE Tok.zero
  IN Build(<<1, W.s[1], KH, KW>>,
           LAMBDA ix : IF h # 0 /\ b(ix) = Tok.zero
                       THEN W.d[((ix[2] * G + h - 1) * KH + KH - 1 - ix[3]) * KW + KW - ix[4]]
                       ELSE IF All(x[1], Tok.zero) THEN b(ix) ELSE "?", 0)
\* scale * (x - mean) / sqrt(var + eps) + bias with mean 0, var + eps = 1: the bias for x = 0, the scale for x = 1 and bias 0.
NormV(x) ==
  LET inner == Size(x[1].s) \div x[1].s[2]  ch(i) == ((i - 1) \div inner) + 1
  IN T(x[1].s, [i \in 1..Len(x[1].d) |->
        IF x[4].d[ch(i)] # Tok.zero \/ x[5].d[ch(i)] # Tok.one THEN "?"
        ELSE IF x[1].d[i] = Tok.zero THEN x[3].d[ch(i)]
        ELSE IF x[1].d[i] = Tok.one /\ x[3].d[ch(i)] = Tok.zero THEN x[2].d[ch(i)] ELSE "?"], 0)

ValV(op, a, x) ==
  CASE op = "Add" -> AddV(x)
    [] op = "Sub" -> SubV(x)
    [] op = "Mul" -> Neutral(x, Tok.one)
    [] op = "Max" -> Neutral(x, Tok.ninf)
    [] op = "Min" -> Neutral(x, Tok.inf)
    [] op = "Gemm" -> RowV(x, a.tB)
    [] op = "MatMul" -> RowV(x, 0)
    [] op = "Conv" -> ImpulseV(x)
    [] op = "BatchNormalization" -> NormV(x)
    [] op = "Clip" -> MapT(x[1], LAMBDA v : IF v = Tok.inf THEN a.hi ELSE IF v = Tok.ninf THEN a.lo ELSE "?", 0)
    [] op = "LeakyRelu" -> MapT(x[1], LAMBDA v : IF v = Tok.none THEN a.neg ELSE IF v = Tok.one THEN v ELSE "?", 0)
    [] OTHER -> OpVal(op, a, x, 1)

Tens(r) == T(r.s, r.d, 0)
InitVals(k, i) == <<T(Cases[k].ishape, Cases[k].samples[i], 0)>> \o [j \in 1..Len(Cases[k].inits) |-> Tens(Cases[k].inits[j])]
Init == /\ c = 1 /\ smp = 1 /\ bad = <<>> /\ steps = 0
        /\ vals = IF Len(Cases) = 0 THEN <<>> ELSE InitVals(1, 1)
NBase == 1 + Len(Case.inits)
Done == Len(vals) = NBase + Len(Case.nodes)
Eval ==
  /\ c <= Len(Cases) /\ ~Done
  /\ LET n == Case.nodes[Len(vals) - NBase + 1]
     IN vals' = Append(vals, ValV(n.op, n.a, [k \in 1..Len(n.ins) |-> vals[n.ins[k]]]))
  /\ steps' = steps + 1 /\ UNCHANGED <<c, smp, bad>>

Clause(ch, want) ==
  LET obs == ch.out[smp]
  IN IF ch.status # "ok" THEN <<"status", ch.status, "", "">>
     ELSE IF ch.count # Len(Case.samples) THEN <<"samples", ToString(ch.count), "", "">>
     ELSE IF Len(obs) # Len(want) THEN <<"length", ToString(Len(obs)), "", "">>
     ELSE LET wrong == {i \in 1..Len(want) : want[i] # "?" /\ obs[i] # want[i]}
          IN IF wrong = {} THEN <<>>
             ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j
                  IN <<"value", ToString(i), obs[i], want[i]>>
Observe ==
  /\ c <= Len(Cases) /\ Done
  /\ LET want == vals[Case.outv].d
         told == Cardinality({i \in 1..Len(want) : want[i] # "?"})
         f == [k \in 1..Len(Case.channels) |-> Clause(Case.channels[k], want)]
         new == {k \in 1..Len(Case.channels) : f[k] # <<>>}
     IN bad' = bad \o SetToSeq({[case |-> Case.id, sample |-> smp, channel |-> Case.channels[k].name,
                                 clause |-> f[k][1], arg |-> f[k][2], got |-> f[k][3], want |-> f[k][4]] : k \in new})
                   \o (IF told = 0 THEN <<[case |-> Case.id, sample |-> smp, channel |-> "", clause |-> "idle", arg |-> "", got |-> "", want |-> ""]>>
                       ELSE <<>>)
  /\ IF smp < Len(Case.samples)
     THEN smp' = smp + 1 /\ c' = c /\ vals' = InitVals(c, smp + 1)
     ELSE smp' = 1 /\ c' = c + 1 /\ vals' = IF c + 1 <= Len(Cases) THEN InitVals(c + 1, 1) ELSE <<>>
  /\ steps' = steps + 1
Finish ==
  /\ c = Len(Cases) + 1
  /\ JsonSerialize(OutFile, [consumed |-> Len(Cases), steps |-> steps, bad |-> bad])
  /\ c' = c + 1 /\ UNCHANGED <<smp, vals, bad, steps>>
Next == Eval \/ Observe \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == c \in 1..(Len(Cases) + 2)
=============================================================================
