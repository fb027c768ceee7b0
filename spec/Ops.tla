-------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* Denotation of every operator ACETONE imports, as the ONNX standard      *)
(* defines it, over the fixed-point tensors of module Tensor.              *)
(*                                                                         *)
(* OpVal(op, a, x, SC) is the value of operator op with attributes a on    *)
(* the sequence of operand tensors x, all scaled by SC.                    *)
(***************************************************************************)
EXTENDS Tensor

---------------------------------------------------------------------------
(* Scaled arithmetic.                                                      *)
MulS(a, b, SC) == IF SC = 1 THEN a * b ELSE DivRound(a * b, SC)
DivS(a, b, SC) == DivRound(a * SC, b)
Err1(SC) == IF SC = 1 THEN 0 ELSE 1

RECURSIVE ISqrtR(_, _)
ISqrtR(n, r) == LET q == (r + n \div r) \div 2 IN IF q >= r THEN r ELSE ISqrtR(n, q)
ISqrt(n) == IF n <= 1 THEN n ELSE ISqrtR(n, Min2(n, 46340))

---------------------------------------------------------------------------
(* Transcendental functions, in fixed point with 14 fractional bits.       *)
P14 == 16384
RECURSIVE TaylorR(_, _, _, _)
TaylorR(r, k, term, acc) ==
  IF k > 9 \/ term = 0 THEN acc
  ELSE LET t == DivRound(term * r, P14 * k) IN TaylorR(r, k + 1, t, acc + t)
ExpNeg14 == <<6027, 2217, 816, 300, 110, 41, 15, 5, 2, 1>>     \* exp(-n), 14 bits
ExpPos8  == <<696, 1892, 5142, 13977, 37994>>                  \* exp(n), 8 bits
(* exp(x/SC) with 14 fractional bits, for x <= 0                           *)
Exp14(x, SC) ==
  LET n == FloorDiv(x, SC)
      r == DivRound((x - n * SC) * P14, SC)
      er == TaylorR(r, 1, P14, P14)
  IN IF n = 0 THEN er
     ELSE IF n < -10 THEN 0 ELSE DivRound(er * ExpNeg14[-n], P14)
ExpS(x, SC) ==
  LET n == FloorDiv(x, SC)
      r == DivRound((x - n * SC) * P14, SC)
      er == TaylorR(r, 1, P14, P14)
      y == DivRound(er * SC, P14)
  IN IF n = 0 THEN y
     ELSE IF n < 0 THEN DivRound(Exp14(x, SC) * SC, P14)
     ELSE DivRound(y * ExpPos8[n], 256)
Sig14(x, SC) ==
  IF x >= 0 THEN (P14 * P14) \div (P14 + Exp14(-x, SC))
  ELSE P14 - (P14 * P14) \div (P14 + Exp14(x, SC))
SigmoidS(x, SC) == DivRound(Sig14(x, SC) * SC, P14)
TanhS(x, SC) == DivRound(Sig14(2 * x, SC) * 2 * SC, P14) - SC
RECURSIVE Log14R(_, _)
Log14R(m, k) == IF m >= 2 * P14 THEN Log14R(m \div 2, k + 1)
                ELSE IF m < P14 THEN Log14R(2 * m, k - 1)
                ELSE LET z == DivRound((m - P14) * P14, m + P14)
                         z2 == DivRound(z * z, P14)
                         z3 == DivRound(z * z2, P14)
                         z5 == DivRound(z3 * z2, P14)
                         z7 == DivRound(z5 * z2, P14)
                     IN k * 11357 + 2 * (z + z3 \div 3 + z5 \div 5 + z7 \div 7)
LogS(x, SC) == DivRound(Log14R(x * (P14 \div SC), 0) * SC, P14)

(* Activations as scalar functions.                                        *)
ActVal(op, a, v, SC) ==
  CASE op = "Relu" -> Max2(0, v)
    [] op = "LeakyRelu" -> IF v < 0 THEN DivRound(v * a.an, a.ad) ELSE v
    [] op = "Clip" -> LET u == IF a.haslo = 1 THEN Max2(v, a.lo) ELSE v
                      IN IF a.hashi = 1 THEN Min2(u, a.hi) ELSE u
    [] op = "Sigmoid" -> SigmoidS(v, SC)
    [] op = "Silu" -> MulS(v, SigmoidS(v, SC), SC)
    [] op = "Tanh" -> TanhS(v, SC)
    [] op = "Exp" -> ExpS(v, SC)
    [] op = "Log" -> LogS(v, SC)
    [] op = "HardSigmoid" -> Max2(0, Min2(SC, DivRound(v, 6) + SC \div 2))
    [] op = "Linear" -> v
ActErr(op, t, SC) ==
  CASE op \in {"Relu", "Clip", "Linear"} -> t.e
    [] op = "LeakyRelu" -> t.e + Err1(SC)
    [] op = "Exp" -> LET m == MaxSeq(t.d) IN
          3 + (ExpS(Max2(m, 0), SC) * (t.e + 1)) \div SC + ExpS(Max2(m, 0), SC) \div 512
    [] op = "Log" -> 3 + (t.e * SC) \div Max2(1, MinSeq(t.d) - t.e)
    [] op = "Silu" -> 4 + 2 * t.e + AbsMaxSeq(t.d) \div 512
    [] OTHER -> t.e + 3
Activation(op, a, t, SC) == MapT(t, LAMBDA v : ActVal(op, a, v, SC), ActErr(op, t, SC))

---------------------------------------------------------------------------
(* Element-wise n-ary operators with broadcasting.                         *)
SeqErr(x) == SumSeq([k \in 1..Len(x) |-> x[k].e])
Elementwise(x, f(_), err) ==
  LET s == BShape(x)
      r == Len(s)
  IN Build(s, LAMBDA ix : f([k \in 1..Len(x) |-> BAt(x[k], ix, r)]), err)

AddT(x, SC) == Elementwise(x, SumSeq, SeqErr(x))
SubT(x, SC) == Elementwise(x, LAMBDA v : v[1] - v[2], SeqErr(x))
MulErr(x, SC) == IF SC = 1 /\ SeqErr(x) = 0 THEN 0
                 ELSE 3 + (x[1].e * AbsMaxSeq(x[2].d)) \div SC + (x[2].e * AbsMaxSeq(x[1].d)) \div SC + (x[1].e * x[2].e) \div SC
MulT(x, SC) == Elementwise(x, LAMBDA v : MulS(v[1], v[2], SC), MulErr(x, SC))
(* the generator keeps divisors away from zero and exact (err 0)            *)
DivT(x, SC) == LET m == FoldLeft(LAMBDA a, b : Min2(a, Abs(b)), Abs(x[2].d[1]), x[2].d)
               IN Elementwise(x, LAMBDA v : DivS(v[1], v[2], SC),
                              1 + (x[1].e * SC) \div m)
MaxT(x, SC) == Elementwise(x, MaxSeq, SeqErr(x))
MinT(x, SC) == Elementwise(x, MinSeq, SeqErr(x))
MeanT(x, SC) == Elementwise(x, LAMBDA v : DivRound(SumSeq(v), Len(v)), SeqErr(x) + 1)

---------------------------------------------------------------------------
(* Convolution and pooling, NCHW.                                          *)
SamePad(in, k, st, auto) ==
  LET out == (in + st - 1) \div st
      tot == Max2(0, (out - 1) * st + k - in)
  IN IF auto = "SAME_UPPER" THEN <<tot \div 2, tot - tot \div 2>>
     ELSE <<tot - tot \div 2, tot \div 2>>
(* <<top, left, bottom, right>>                                            *)
Pads(a, ih, iw, ekh, ekw) ==
  CASE a.auto = "NOTSET" -> a.pads
    [] a.auto = "VALID" -> <<0, 0, 0, 0>>
    [] OTHER -> LET v == SamePad(ih, ekh, a.sh, a.auto)
                    h == SamePad(iw, ekw, a.sw, a.auto)
                IN <<v[1], h[1], v[2], h[2]>>
OutDim(in, pb, pe, ek, st) == (in + pb + pe - ek) \div st + 1

ConvT(a, x, SC) ==
  LET X == x[1]  W == x[2]
      IC == X.s[2]  IH == X.s[3]  IW == X.s[4]
      OC == W.s[1]  G == W.s[2]  KH == W.s[3]  KW == W.s[4]
      ekh == (KH - 1) * a.dh + 1
      ekw == (KW - 1) * a.dw + 1
      p == Pads(a, IH, IW, ekh, ekw)
      OH == OutDim(IH, p[1], p[3], ekh, a.sh)
      OW == OutDim(IW, p[2], p[4], ekw, a.sw)
      ocg == OC \div a.group
      Taps == [t \in 1..(G * KH * KW) |-> Unravel(t - 1, <<G, KH, KW>>)]
      hasB == Len(x) = 3
      f(ix) ==
        LET oc == ix[2]
            c0 == (oc \div ocg) * G
            Step(acc, t) ==
              LET hh == ix[3] * a.sh + t[2] * a.dh - p[1]
                  ww == ix[4] * a.sw + t[3] * a.dw - p[2]
              IN IF hh < 0 \/ hh >= IH \/ ww < 0 \/ ww >= IW THEN acc
                 ELSE acc + MulS(X.d[((ix[1] * IC + c0 + t[1]) * IH + hh) * IW + ww + 1],
                                 W.d[((oc * G + t[1]) * KH + t[2]) * KW + t[3] + 1], SC)
        IN FoldLeft(Step, IF hasB THEN x[3].d[oc + 1] ELSE 0, Taps)
      K == G * KH * KW
      err == IF SC = 1 /\ X.e = 0 THEN 0
             ELSE K + K * ((X.e * AbsMaxSeq(W.d)) \div SC + 1) + 1
  IN Build(<<X.s[1], OC, OH, OW>>, f, err)

(* optional attributes: dilations dh, dw and ceil_mode (0 when absent)      *)
Fld(a, f, d) == IF f \in DOMAIN a THEN a[f] ELSE d
OutDimC(in, pb, pe, ek, st, ceil) ==
  IF ceil = 0 THEN OutDim(in, pb, pe, ek, st)
  ELSE LET o == (in + pb + pe - ek + st - 1) \div st + 1
       IN IF (o - 1) * st >= in + pb THEN o - 1 ELSE o      \* no window starts in the end padding
PoolT(a, x, SC, isMax) ==
  LET X == x[1]
      C == X.s[2]  IH == X.s[3]  IW == X.s[4]
      dh == Fld(a, "dh", 1)  dw == Fld(a, "dw", 1)  ceil == Fld(a, "ceil", 0)
      ekh == (a.kh - 1) * dh + 1
      ekw == (a.kw - 1) * dw + 1
      p == Pads(a, IH, IW, ekh, ekw)
      OH == OutDimC(IH, p[1], p[3], ekh, a.sh, ceil)
      OW == OutDimC(IW, p[2], p[4], ekw, a.sw, ceil)
      f(ix) ==
        LET th == SelectSeq([k \in 1..a.kh |-> ix[3] * a.sh - p[1] + (k - 1) * dh], LAMBDA h : h >= 0 /\ h < IH)
            tw == SelectSeq([k \in 1..a.kw |-> ix[4] * a.sw - p[2] + (k - 1) * dw], LAMBDA w : w >= 0 /\ w < IW)
            nw == Len(tw)
            base == ix[1] * C + ix[2]
            vals == [t \in 1..(Len(th) * nw) |->
                       X.d[(base * IH + th[((t - 1) \div nw) + 1]) * IW + tw[((t - 1) % nw) + 1] + 1]]
        IN IF isMax THEN MaxSeq(vals)
           ELSE DivRound(SumSeq(vals), IF a.cip = 1 THEN a.kh * a.kw ELSE Len(vals))
  IN Build(<<X.s[1], C, OH, OW>>, f, IF isMax THEN X.e ELSE X.e + 1)

GlobalAvgT(x, SC) ==
  LET X == x[1]  n == X.s[3] * X.s[4]
      base(ix) == ix[1] * X.s[2] + ix[2]
  IN Build(<<X.s[1], X.s[2], 1, 1>>,
           LAMBDA ix : DivRound(SumSeq(SubSeq(X.d, base(ix) * n + 1, (base(ix) + 1) * n)), n), X.e + 1)

---------------------------------------------------------------------------
(* Matrix products.                                                        *)
DotErr(A, B, K, SC) == IF SC = 1 /\ A.e + B.e = 0 THEN 0
                       ELSE K + K * ((A.e * AbsMaxSeq(B.d)) \div SC + (B.e * AbsMaxSeq(A.d)) \div SC + 2) + 1
RECURSIVE DotR(_, _, _, _, _, _, _, _, _)
DotR(da, a0, as, db, b0, bs, n, SC, acc) ==
  IF n = 0 THEN acc
  ELSE DotR(da, a0 + as, as, db, b0 + bs, bs, n - 1, SC, acc + MulS(da[a0], db[b0], SC))

GemmT(a, x, SC) ==
  LET A == x[1]  B == x[2]
      M == IF a.tA = 1 THEN A.s[2] ELSE A.s[1]
      K == IF a.tA = 1 THEN A.s[1] ELSE A.s[2]
      N == IF a.tB = 1 THEN B.s[1] ELSE B.s[2]
      f(ix) ==
        LET d == DotR(A.d, IF a.tA = 1 THEN ix[1] + 1 ELSE ix[1] * K + 1, IF a.tA = 1 THEN M ELSE 1,
                      B.d, IF a.tB = 1 THEN ix[2] * K + 1 ELSE ix[2] + 1, IF a.tB = 1 THEN 1 ELSE N,
                      K, SC, 0)
            c == IF Len(x) = 3 THEN DivRound(BAt(x[3], ix, 2) * a.bn, a.bd) ELSE 0
        IN DivRound(d * a.an, a.ad) + c
      exact == SC = 1 /\ A.e = 0 /\ a.ad = 1 /\ a.bd = 1
  IN Build(<<M, N>>, f, IF exact THEN 0 ELSE 2 + DotErr(A, B, K, SC) * (1 + Abs(a.an) \div a.ad))

(* numpy matmul for rank >= 2 operands; leading dims broadcast.            *)
MatMulT(x, SC) ==
  LET A == IF Len(x[1].s) = 1 THEN T(<<1, x[1].s[1]>>, x[1].d, x[1].e) ELSE x[1]
      B == IF Len(x[2].s) = 1 THEN T(<<x[2].s[1], 1>>, x[2].d, x[2].e) ELSE x[2]
      ra == Len(A.s)  rb == Len(B.s)
      M == A.s[ra - 1]  K == A.s[ra]  N == B.s[rb]
      la == SubSeq(A.s, 1, ra - 2)  lb == SubSeq(B.s, 1, rb - 2)
      ls == BShape2(la, lb)
      rl == Len(ls)
      off(ix, l) == Ravel([k \in 1..rl |-> IF PadShape(l, rl)[k] = 1 THEN 0 ELSE ix[k]], PadShape(l, rl))
      shape == ls \o <<M, N>>
      f(ix) == DotR(A.d, (off(ix, la) * M + ix[rl + 1]) * K + 1, 1,
                    B.d, off(ix, lb) * K * N + ix[rl + 2] + 1, N, K, SC, 0)
      fin == IF Len(x[1].s) = 1 THEN ls \o <<N>> ELSE IF Len(x[2].s) = 1 THEN ls \o <<M>> ELSE shape
      r == Build(shape, f, DotErr(A, B, K, SC))
  IN T(fin, r.d, r.e)

(* Dense layer of the JSON / NNET formats: x (flattened) . W + b.          *)
DenseT(a, x, SC) ==
  LET W == x[2]  K == W.s[1]  N == W.s[2]
  IN Build(<<1, N>>,
           LAMBDA ix : DotR(x[1].d, 1, 1, W.d, ix[2] + 1, N, K, SC, 0)
                       + (IF Len(x) = 3 THEN x[3].d[ix[2] + 1] ELSE 0),
           DotErr(x[1], W, K, SC))

BatchNormT(a, x, SC) ==
  LET X == x[1]
      C == X.s[2]
      inner == Size(X.s) \div (X.s[1] * C)
      std == [c \in 1..C |-> ISqrt((x[5].d[c] + a.eps) * SC)]
      err == IF SC = 1 THEN 0
             ELSE FoldLeft(LAMBDA m, c :
                     LET dm == MaxSeq([n \in 1..X.s[1] |-> AbsMaxSeq(SubSeq(X.d, ((n - 1) * C + c - 1) * inner + 1, ((n - 1) * C + c) * inner))])
                                + Abs(x[4].d[c])
                         g == Abs(DivS(x[2].d[c], std[c], SC)) + 1
                     IN Max2(m, 3 + (X.e * g) \div SC + ((dm * g) \div SC) \div Max2(1, std[c])
                                 + dm \div (2 * SC)), 0, [c \in 1..C |-> c])
      f(i) == LET c == (((i - 1) \div inner) % C) + 1
                  d == X.d[i] - x[4].d[c]
              IN DivRound(d * x[2].d[c], std[c]) + x[3].d[c]
  IN TLCEval(T(X.s, [i \in 1..Len(X.d) |-> f(i)], err))

---------------------------------------------------------------------------
(* Shape and data movement.                                                *)
ConcatT(a, x) ==
  LET r == Len(x[1].s)
      ax == AxisPos(a.axis, r)
      offs == [k \in 1..Len(x) |-> SumSeq([j \in 1..(k - 1) |-> x[j].s[ax]])]
      tot == SumSeq([k \in 1..Len(x) |-> x[k].s[ax]])
      s == [x[1].s EXCEPT ![ax] = tot]
      f(ix) == LET k == CHOOSE k \in 1..Len(x) : offs[k] <= ix[ax] /\ ix[ax] < offs[k] + x[k].s[ax]
               IN At(x[k], [ix EXCEPT ![ax] = @ - offs[k]])
  IN Build(s, f, FoldLeft(LAMBDA m, t : Max2(m, t.e), 0, x))

PadT(a, x) ==
  LET X == x[1]  r == Len(X.s)
      s == [k \in 1..r |-> X.s[k] + a.pads[k] + a.pads[k + r]]
      src(k, i) ==          \* source coordinate on axis k, or -1 for the constant
        LET n == X.s[k]  j == i - a.pads[k]
        IN CASE a.mode = "constant" -> IF j < 0 \/ j >= n THEN -1 ELSE j
             [] a.mode = "edge" -> Max2(0, Min2(n - 1, j))
             [] a.mode = "wrap" -> FloorMod(j, n)
             [] a.mode = "reflect" -> IF n = 1 THEN 0
                                      ELSE LET q == FloorMod(j, 2 * (n - 1))
                                           IN IF q < n THEN q ELSE 2 * (n - 1) - q
      f(ix) == LET c == [k \in 1..r |-> src(k, ix[k])]
               IN IF \E k \in 1..r : c[k] = -1 THEN a.value ELSE At(X, c)
  IN Build(s, f, X.e)

TransposeT(a, x) ==
  LET X == x[1]  r == Len(X.s)
      s == [k \in 1..r |-> X.s[a.perm[k] + 1]]
      f(ix) == At(X, [k \in 1..r |-> ix[CHOOSE j \in 1..r : a.perm[j] + 1 = k]])
  IN Build(s, f, X.e)

TileT(a, x) ==
  LET X == x[1]  r == Len(X.s)
  IN Build([k \in 1..r |-> X.s[k] * a.reps[k]],
           LAMBDA ix : At(X, [k \in 1..r |-> ix[k] % X.s[k]]), X.e)

(* a.ind = flat indices, a.ishape = their shape                            *)
GatherT(a, x) ==
  LET X == x[1]  r == Len(X.s)  q == Len(a.ishape)
      ax == AxisPos(a.axis, r)
      s == SubSeq(X.s, 1, ax - 1) \o a.ishape \o SubSeq(X.s, ax + 1, r)
      f(ix) == LET i == a.ind[Ravel(SubSeq(ix, ax, ax + q - 1), a.ishape) + 1]
                   j == IF i < 0 THEN i + X.s[ax] ELSE i
               IN At(X, SubSeq(ix, 1, ax - 1) \o <<j>> \o SubSeq(ix, ax + q, r + q - 1))
  IN Build(s, f, X.e)
GatherElementsT(a, x) ==
  LET X == x[1]  r == Len(X.s)
      ax == AxisPos(a.axis, r)
      f(ix) == LET i == a.ind[Ravel(ix, a.ishape) + 1]
                   j == IF i < 0 THEN i + X.s[ax] ELSE i
               IN At(X, [ix EXCEPT ![ax] = j])
  IN Build(a.ishape, f, X.e)

ReshapeT(a, x) == T(a.shape, x[1].d, x[1].e)

---------------------------------------------------------------------------
(* Reductions over a set of axes; keepdims.                                *)
RECURSIVE PowI(_, _)
PowI(b, n) == IF n = 0 THEN 1 ELSE b * PowI(b, n - 1)
ReduceT(op, a, x, SC) ==
  LET X == x[1]  r == Len(X.s)
      axes == IF Len(a.axes) = 0 THEN (IF a.noop = 1 THEN {} ELSE 1..r)
              ELSE {AxisPos(a.axes[k], r) : k \in 1..Len(a.axes)}
      rs == [k \in 1..r |-> IF k \in axes THEN X.s[k] ELSE 1]      \* reduced block
      ks == [k \in 1..r |-> IF k \in axes THEN 1 ELSE X.s[k]]
      n == Size(rs)
      f(ix) ==
        LET vals == [t \in 1..n |-> LET u == Unravel(t - 1, rs)
                                    IN At(X, [k \in 1..r |-> ix[k] + u[k]])]
        IN CASE op = "ReduceSum" -> SumSeq(vals)
             [] op = "ReduceMax" -> MaxSeq(vals)
             [] op = "ReduceMin" -> MinSeq(vals)
             [] op = "ReduceMean" -> DivRound(SumSeq(vals), n)
             [] op = "ReduceProd" -> FoldLeft(LAMBDA p, v : MulS(p, v, SC), SC, vals)
      err == CASE op = "ReduceSum" -> n * X.e
               [] op = "ReduceMean" -> X.e + 1
               [] op = "ReduceProd" -> IF SC = 1 /\ X.e = 0 THEN 0
                                       ELSE n * (X.e + 1) * PowI(1 + (AbsMaxSeq(X.d) + X.e) \div SC, Max2(n - 1, 0))
               [] OTHER -> X.e
      v == Build(ks, f, err)
      keep == SelectSeq([k \in 1..r |-> IF k \in axes THEN 0 ELSE X.s[k]], LAMBDA d : d # 0)
  IN IF axes = {} THEN X
     ELSE IF a.keep = 1 THEN v ELSE T(keep, v.d, v.e)

SoftmaxT(a, x, SC) ==
  LET X == x[1]  r == Len(X.s)
      ax == AxisPos(a.axis, r)
      n == X.s[ax]
      f(ix) ==
        LET row == [t \in 1..n |-> At(X, [ix EXCEPT ![ax] = t - 1])]
            m == MaxSeq(row)
            es == [t \in 1..n |-> Exp14(row[t] - m, SC)]
        IN DivRound(DivRound(es[ix[ax] + 1] * P14, SumSeq(es)) * SC, P14)
  IN Build(X.s, f, 2 * X.e + 3)

---------------------------------------------------------------------------
(* Resize of the two spatial axes of an NCHW tensor (other axes untouched). *)
(* Coordinates are exact rationals num/den with a common denominator.      *)
(* Per axis: in, out, and mode of coordinate transformation; scale is      *)
(* scn/scd.                                                                *)
Coord(m, i, in, out, scn, scd) ==     \* <<num, den>>
  CASE m = "half_pixel" -> <<(2 * i + 1) * scd - scn, 2 * scn>>
    [] m = "pytorch_half_pixel" -> IF out > 1 THEN <<(2 * i + 1) * scd - scn, 2 * scn>> ELSE <<0, 1>>
    [] m = "half_pixel_symmetric" -> <<in * scn - out * scd + (2 * i + 1) * scd - scn, 2 * scn>>
    [] m = "asymmetric" -> <<i * scd, scn>>
    [] m = "align_corners" -> IF out = 1 THEN <<0, 1>> ELSE <<i * (in - 1), out - 1>>
Floor(q) == FloorDiv(q[1], q[2])
Ceil(q) == -FloorDiv(-q[1], q[2])
RoundPF(q) == Ceil(<<2 * q[1] - q[2], 2 * q[2]>>)      \* ties to floor
RoundPC(q) == Floor(<<2 * q[1] + q[2], 2 * q[2]>>)     \* ties to ceil
NearIx(nm, q, in) ==
  LET v == CASE nm = "round_prefer_floor" -> RoundPF(q)
             [] nm = "round_prefer_ceil" -> RoundPC(q)
             [] nm = "floor" -> Floor(q)
             [] nm = "ceil" -> Ceil(q)
  IN Max2(0, Min2(in - 1, v))
(* Interpolation weights of one axis: sequence of <<index, weight>> with   *)
(* weights in 1/4096.                                                      *)
P12 == 4096
LinTaps(q, in) ==
  LET cq == IF q[1] < 0 THEN <<0, 1>> ELSE IF q[1] > (in - 1) * q[2] THEN <<in - 1, 1>> ELSE q
      i0 == Floor(cq)
      fr == DivRound((cq[1] - i0 * cq[2]) * P12, cq[2])
  IN <<<<Min2(i0, in - 1), P12 - fr>>, <<Min2(i0 + 1, in - 1), fr>>>>
(* Keys kernel with coefficient A = an/ad (in 1/4096: A12), t in 1/4096     *)
Cub(A12, t) ==
  LET t2 == DivRound(t * t, P12)  t3 == DivRound(t2 * t, P12)
  IN IF t <= P12 THEN DivRound((A12 + 2 * P12) * t3, P12) - DivRound((A12 + 3 * P12) * t2, P12) + P12
     ELSE DivRound(A12 * t3, P12) - DivRound(5 * A12 * t2, P12) + DivRound(8 * A12 * t, P12) - 4 * A12
CubTaps(q, in, A12, excl) ==
  LET i0 == Floor(q)
      fr == DivRound((q[1] - i0 * q[2]) * P12, q[2])
      w == <<Cub(A12, P12 + fr), Cub(A12, fr), Cub(A12, P12 - fr), Cub(A12, 2 * P12 - fr)>>
      out(k) == i0 - 2 + k < 0 \/ i0 - 2 + k > in - 1
      we == [k \in 1..4 |-> IF excl = 1 /\ out(k) THEN 0 ELSE w[k]]
      sw == SumSeq(we)
      wn == IF excl = 1 THEN [k \in 1..4 |-> DivRound(we[k] * P12, sw)] ELSE we
  IN [k \in 1..4 |-> <<Max2(0, Min2(in - 1, i0 - 2 + k)), wn[k]>>]
ResizeT(a, x, SC) ==
  LET X == x[1]
      IH == X.s[3]  IW == X.s[4]
      qh(i) == Coord(a.ctm, i, IH, a.oh, a.hn, a.hd)
      qw(j) == Coord(a.ctm, j, IW, a.ow, a.wn, a.wd)
      tapsH == [i \in 1..a.oh |->
                 CASE a.mode = "nearest" -> <<<<NearIx(a.nm, qh(i - 1), IH), P12>>>>
                   [] a.mode = "linear" -> LinTaps(qh(i - 1), IH)
                   [] a.mode = "cubic" -> CubTaps(qh(i - 1), IH, a.A12, a.excl)]
      tapsW == [j \in 1..a.ow |->
                 CASE a.mode = "nearest" -> <<<<NearIx(a.nm, qw(j - 1), IW), P12>>>>
                   [] a.mode = "linear" -> LinTaps(qw(j - 1), IW)
                   [] a.mode = "cubic" -> CubTaps(qw(j - 1), IW, a.A12, a.excl)]
      row(c, h, tw) == IF Len(tw) = 1 THEN X.d[(c * IH + h) * IW + tw[1][1] + 1]
                       ELSE DivRound(FoldLeft(LAMBDA s, t : s + X.d[(c * IH + h) * IW + t[1] + 1] * t[2], 0, tw), P12)
      f(ix) == LET th == tapsH[ix[3] + 1]  tw == tapsW[ix[4] + 1]
               IN IF Len(th) = 1 THEN row(ix[2], th[1][1], tw)
                  ELSE DivRound(FoldLeft(LAMBDA s, t : s + row(ix[2], t[1], tw) * t[2], 0, th), P12)
      err == IF a.mode = "nearest" THEN X.e ELSE 2 * X.e + 4 + AbsMaxSeq(X.d) \div 256
  IN Build(<<1, X.s[2], a.oh, a.ow>>, f, err)

---------------------------------------------------------------------------
OpVal(op, a, x, SC) ==
  CASE op \in {"Relu", "LeakyRelu", "Clip", "Sigmoid", "Silu", "Tanh", "Exp", "Log", "Linear", "HardSigmoid"}
          -> Activation(op, a, x[1], SC)
    [] op = "Add" -> AddT(x, SC)
    [] op = "Sub" -> SubT(x, SC)
    [] op = "Mul" -> MulT(x, SC)
    [] op = "Div" -> DivT(x, SC)
    [] op = "Max" -> MaxT(x, SC)
    [] op = "Min" -> MinT(x, SC)
    [] op = "Mean" -> MeanT(x, SC)
    [] op = "Conv" -> ConvT(a, x, SC)
    [] op = "MaxPool" -> PoolT(a, x, SC, TRUE)
    [] op = "AveragePool" -> PoolT(a, x, SC, FALSE)
    [] op = "GlobalAveragePool" -> GlobalAvgT(x, SC)
    [] op = "Gemm" -> GemmT(a, x, SC)
    [] op = "MatMul" -> MatMulT(x, SC)
    [] op = "Dense" -> DenseT(a, x, SC)
    [] op = "BatchNormalization" -> BatchNormT(a, x, SC)
    [] op = "Concat" -> ConcatT(a, x)
    [] op = "Pad" -> PadT(a, x)
    [] op = "Transpose" -> TransposeT(a, x)
    [] op = "Tile" -> TileT(a, x)
    [] op = "Gather" -> GatherT(a, x)
    [] op = "GatherElements" -> GatherElementsT(a, x)
    [] op \in {"Reshape", "Flatten", "Unsqueeze"} -> ReshapeT(a, x)
    [] op \in {"Dropout", "Identity"} -> x[1]
    [] op \in {"ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd"} -> ReduceT(op, a, x, SC)
    [] op = "Softmax" -> SoftmaxT(a, x, SC)
    [] op = "Resize" -> ResizeT(a, x, SC)
=============================================================================
