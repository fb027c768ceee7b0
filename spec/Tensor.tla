------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Tensors over bounded fixed-point integers.                              *)
(*                                                                         *)
(* A tensor is a record  [s |-> shape, d |-> data, e |-> err]  where shape *)
(* is a sequence of dimensions (rank 0..4+), data the row-major sequence   *)
(* of elements, and err a bound on how far each element may be from the    *)
(* exact real value, both in units of 1/SC for the scale SC of the case.   *)
(* SC = 1 and err = 0 is exact integer arithmetic.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Range0(n) == 0..(n-1)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
ProdSeq(q) == FoldLeft(LAMBDA a, b : a * b, 1, q)
MaxSeq(q) == FoldLeft(Max2, q[1], q)
MinSeq(q) == FoldLeft(Min2, q[1], q)
AbsMaxSeq(q) == FoldLeft(LAMBDA a, b : Max2(a, Abs(b)), 0, q)

(* Floor division and modulo, well defined for negative numerators, d > 0. *)
FloorDiv(n, d) == n \div d
FloorMod(n, d) == n % d
(* Division rounded to nearest; d # 0 of either sign.                      *)
DivRound(n, d) == IF d < 0 THEN (2 * (-n) + (-d)) \div (2 * (-d))
                  ELSE (2 * n + d) \div (2 * d)

Size(s) == ProdSeq(s)
T(shape, data, err) == [s |-> shape, d |-> data, e |-> err]

(* Row-major unravel / ravel of 0-based flat indices.                      *)
RECURSIVE UnravelR(_, _, _)
UnravelR(i, s, k) == IF k = 0 THEN <<>>
                     ELSE Append(UnravelR(i \div s[k], s, k - 1), i % s[k])
Unravel(i, s) == UnravelR(i, s, Len(s))
RECURSIVE RavelR(_, _, _, _)
RavelR(ix, s, k, acc) == IF k > Len(s) THEN acc
                         ELSE RavelR(ix, s, k + 1, acc * s[k] + ix[k])
Ravel(ix, s) == RavelR(ix, s, 1, 0)

At(t, ix) == t.d[Ravel(ix, t.s) + 1]

(* Build a tensor element by element from a function of the index tuple.   *)
Build(s, f(_), err) == TLCEval(T(s, [i \in 1..Size(s) |-> f(Unravel(i - 1, s))], err))
MapT(t, f(_), err) == TLCEval(T(t.s, [i \in 1..Len(t.d) |-> f(t.d[i])], err))

(* numpy-style broadcasting, shapes right aligned.                         *)
PadShape(s, r) == [k \in 1..r |-> IF k <= r - Len(s) THEN 1 ELSE s[k - (r - Len(s))]]
BShape2(a, b) == LET r == Max2(Len(a), Len(b))
                     pa == PadShape(a, r)
                     pb == PadShape(b, r)
                 IN [k \in 1..r |-> Max2(pa[k], pb[k])]
BAt(t, ix, r) == LET p == PadShape(t.s, r)
                 IN t.d[Ravel([k \in 1..r |-> IF p[k] = 1 THEN 0 ELSE ix[k]], p) + 1]
BShape(ts) == FoldLeft(LAMBDA a, t : BShape2(a, t.s), <<>>, ts)

(* Axis normalisation, 1-based position from an ONNX axis.                  *)
AxisPos(ax, r) == IF ax < 0 THEN ax + r + 1 ELSE ax + 1
=============================================================================
