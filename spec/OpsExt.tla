------------------------------- MODULE OpsExt -------------------------------
(***************************************************************************)
(* Denotation of operators of the ONNX standard (and of the other front    *)
(* ends) that ACETONE does not list as implemented.  A tool that accepts   *)
(* one of them nevertheless must give it this meaning (property C15).      *)
(***************************************************************************)
EXTENDS Ops

Scalar(op, a, v, SC) ==
  CASE op = "Abs" -> Abs(v)
    [] op = "Neg" -> -v
    [] op = "Sign" -> IF v > 0 THEN SC ELSE IF v < 0 THEN -SC ELSE 0
    [] op = "Floor" -> (v \div SC) * SC
    [] op = "Ceil" -> -((-v) \div SC) * SC
    [] op = "Sqrt" -> ISqrt(v * SC)
    [] op = "Reciprocal" -> DivRound(SC * SC, v)
    [] op = "Elu" -> IF v >= 0 THEN v ELSE DivRound((ExpS(v, SC) - SC) * a.an, a.ad)
    [] op = "Softplus" -> LogS(SC + ExpS(v, SC), SC)
    [] op = "HardSigmoidA" -> Max2(0, Min2(SC, DivRound(v * a.an, a.ad) + a.beta))
    [] op = "HardSwish" -> MulS(v, Max2(0, Min2(SC, DivRound(v, 6) + SC \div 2)), SC)
    [] op = "Softsign" -> DivRound(v * SC, SC + Abs(v))
    [] op = "ThresholdedRelu" -> IF v > a.th THEN v ELSE 0
    [] op = "Square" -> MulS(v, v, SC)
    [] op = "Selu" -> IF v >= 0 THEN DivRound(v * 1051, 1000) ELSE DivRound((ExpS(v, SC) - SC) * 1758, 1000)
    [] op = "Gelu" -> MulS(v, SigmoidS(DivRound(v * 1702, 1000), SC), SC)
SCALARS == {"Abs", "Neg", "Sign", "Floor", "Ceil", "Sqrt", "Reciprocal", "Elu", "Softplus", "HardSigmoidA", "HardSwish",
            "Softsign", "ThresholdedRelu", "Square", "Selu", "Gelu"}
EXACT == {"Abs", "Neg", "Sign", "Floor", "Ceil", "ThresholdedRelu"}
ScalarT(op, a, t, SC) ==
  LET m == AbsMaxSeq(t.d)
      err == IF op \in EXACT THEN t.e
             ELSE IF op = "Square" THEN (IF SC = 1 THEN 0 ELSE 2 + (2 * m * t.e) \div SC)
             ELSE IF op = "Reciprocal" THEN 2 + t.e * 4
             ELSE IF op = "Gelu" THEN 24 + m \div 32      \* the sigmoid approximation of the normal law
             ELSE 6 + 2 * t.e + m \div 256
  IN MapT(t, LAMBDA v : Scalar(op, a, v, SC), err)

(* PRelu: the slope is a broadcast tensor                                  *)
PReluT(x, SC) == Elementwise(x, LAMBDA v : IF v[1] < 0 THEN MulS(v[1], v[2], SC) ELSE v[1],
                             x[1].e * (1 + AbsMaxSeq(x[2].d) \div SC) + Err1(SC))

(* starts, ends (exclusive, already clipped), steps > 0, one per axis        *)
SliceT(a, x) ==
  LET X == x[1]  r == Len(X.s)
      s == [k \in 1..r |-> (a.en[k] - a.st[k] + a.by[k] - 1) \div a.by[k]]
  IN Build(s, LAMBDA ix : At(X, [k \in 1..r |-> a.st[k] + ix[k] * a.by[k]]), X.e)

ExpandT(a, x) == LET s == BShape2(x[1].s, a.shape)
                 IN Build(s, LAMBDA ix : BAt(x[1], ix, Len(s)), x[1].e)

(* per pixel over the channels: x / (bias + alpha/size * sum of squares), the standard's beta = 1 *)
LrnT(a, x, SC) ==
  LET X == x[1]  C == X.s[2]
      f(ix) == LET lo == Max2(0, ix[2] - (a.size - 1) \div 2)
                   hi == Min2(C - 1, ix[2] + a.size \div 2)
                   sq == SumSeq([k \in 1..(hi - lo + 1) |-> LET v == At(X, [ix EXCEPT ![2] = lo + k - 1]) IN MulS(v, v, SC)])
               IN DivS(At(X, ix), a.bias + DivRound(sq * a.an, a.ad * a.size), SC)
  IN Build(X.s, f, 6 + 4 * X.e)

DepthToSpaceT(a, x) ==      \* mode DCR
  LET X == x[1]  b == a.b  C == X.s[2] \div (b * b)
      f(ix) == At(X, <<ix[1], ((ix[3] % b) * b + (ix[4] % b)) * C + ix[2], ix[3] \div b, ix[4] \div b>>)
  IN Build(<<X.s[1], C, X.s[3] * b, X.s[4] * b>>, f, X.e)
SpaceToDepthT(a, x) ==
  LET X == x[1]  b == a.b  C == X.s[2]
      f(ix) == LET q == ix[2] \div C
               IN At(X, <<ix[1], ix[2] % C, ix[3] * b + q \div b, ix[4] * b + (q % b)>>)
  IN Build(<<X.s[1], C * b * b, X.s[3] \div b, X.s[4] \div b>>, f, X.e)

ReduceExt(op, a, x, SC) ==
  LET sq(t) == ScalarT("Square", a, t, SC)
      ab(t) == ScalarT("Abs", a, t, SC)
  IN CASE op = "ReduceL1" -> ReduceT("ReduceSum", a, <<ab(x[1])>>, SC)
       [] op = "ReduceSumSquare" -> ReduceT("ReduceSum", a, <<sq(x[1])>>, SC)
       [] op = "ReduceL2" -> ScalarT("Sqrt", a, ReduceT("ReduceSum", a, <<sq(x[1])>>, SC), SC)
(* index of the largest value along an axis (the first one), kept as an axis of size 1 *)
ArgMaxT(a, x, SC) ==
  LET X == x[1]  r == Len(X.s)  ax == AxisPos(a.axis, r)  n == X.s[ax]
      f(ix) == LET row == [t \in 1..n |-> At(X, [ix EXCEPT ![ax] = t - 1])]
                   i == CHOOSE t \in 1..n : row[t] = MaxSeq(row) /\ \A q \in 1..(t - 1) : row[q] # row[t]
               IN (i - 1) * SC
  IN Build([X.s EXCEPT ![ax] = 1], f, 0)

(* softmax of the operator sets before 13: the axes from `axis` on are one   *)
SoftmaxFlatT(a, x, SC) ==
  LET X == x[1]  ax == AxisPos(a.axis, Len(X.s))
      n == Size(SubSeq(X.s, 1, ax - 1))
      v == SoftmaxT([axis |-> 1], <<T(<<n, Size(X.s) \div n>>, X.d, X.e)>>, SC)
  IN T(X.s, v.d, v.e)
LogSoftmaxT(a, x, SC) ==
  LET v == SoftmaxT(a, x, SC) IN T(v.s, [i \in 1..Len(v.d) |-> LogS(Max2(1, v.d[i]), SC)],
                                   2 + (v.e * SC) \div Max2(1, MinSeq(v.d) - v.e))

(* normalisation over the spatial axes, per channel                        *)
InstanceNormT(a, x, SC) ==
  LET X == x[1]  C == X.s[2]  n == X.s[3] * X.s[4]
      mean == [c \in 1..C |-> DivRound(SumSeq(SubSeq(X.d, (c - 1) * n + 1, c * n)), n)]
      var == [c \in 1..C |-> DivRound(SumSeq([i \in 1..n |-> LET d == X.d[(c - 1) * n + i] - mean[c] IN MulS(d, d, SC)]), n)]
      std == [c \in 1..C |-> ISqrt((var[c] + a.eps) * SC)]
      f(ix) == LET c == ix[2] + 1 IN DivRound((At(X, ix) - mean[c]) * x[2].d[c], Max2(1, std[c])) + x[3].d[c]
      err == FoldLeft(LAMBDA m, c : Max2(m, 6 + (40 * SC) \div Max2(1, std[c])), 0, [c \in 1..C |-> c])
  IN Build(X.s, f, err)

(***************************************************************************)
(* Fixed point (property C17).  Tensors hold the stored integers of a type *)
(* of a.bits bits; a value of format Qn.m stands for integer / 2^m.        *)
(***************************************************************************)
Pow2(n) == 2 ^ n
(* the stored integer of a value that does not fit loses its high bits      *)
WrapBits(v, bits) == IF bits >= 31 THEN v
                     ELSE ((v + Pow2(bits - 1)) % Pow2(bits)) - Pow2(bits - 1)
(* nearest integer of v / 2^k, ties to even                                *)
RoundShift(v, k) ==
  IF k = 0 THEN v
  ELSE LET q == v \div Pow2(k)  r == v % Pow2(k)  h == Pow2(k - 1)
       IN IF r < h THEN q ELSE IF r > h THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
(* a parameter v / 2^k of the model, stored with a.m fraction bits          *)
QuantizeT(a, x) ==
  MapT(x[1], LAMBDA v : WrapBits(IF a.m >= a.k THEN v * Pow2(a.m - a.k) ELSE RoundShift(v, a.k - a.m), a.bits), 0)
(* an accumulator of a.min + a.mpar fraction bits brought to a.mout of them  *)
ShiftT(a, x) ==
  LET s == Max2(0, a.min + a.mpar - a.mout)
  IN MapT(x[1], LAMBDA v : WrapBits(v \div Pow2(s), a.bits), 0)
WrapT(a, x) == MapT(x[1], LAMBDA v : WrapBits(v, a.bits), 0)

OpValX(op, a, x, SC) ==
  CASE op = "Quantize" -> QuantizeT(a, x)
    [] op = "Shift" -> ShiftT(a, x)
    [] op = "Wrap" -> WrapT(a, x)
    [] op \in SCALARS -> ScalarT(op, a, x[1], SC)
    [] op = "PRelu" -> PReluT(x, SC)
    [] op = "Slice" -> SliceT(a, x)
    [] op = "Expand" -> ExpandT(a, x)
    [] op = "LRN" -> LrnT(a, x, SC)
    [] op = "DepthToSpace" -> DepthToSpaceT(a, x)
    [] op = "SpaceToDepth" -> SpaceToDepthT(a, x)
    [] op \in {"ReduceL1", "ReduceSumSquare", "ReduceL2"} -> ReduceExt(op, a, x, SC)
    [] op = "ArgMax" -> ArgMaxT(a, x, SC)
    [] op = "SoftmaxFlat" -> SoftmaxFlatT(a, x, SC)
    [] op = "LogSoftmax" -> LogSoftmaxT(a, x, SC)
    [] op = "InstanceNorm" -> InstanceNormT(a, x, SC)
    [] op = "Unknown" -> x[1]                      \* no meaning: only a refusal is right
    [] OTHER -> OpVal(op, a, x, SC)
=============================================================================
