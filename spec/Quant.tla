------------------------------- MODULE Quant -------------------------------
(***************************************************************************)
(* Fixed-point evaluation of one product w.x + b (two terms), step by step:*)
(* the parameters are rounded to their formats, the exact accumulator is   *)
(* shifted to the result's format, the constant is added.  A history       *)
(* variable keeps the real value (scaled to an integer); the invariants    *)
(* bound its distance to what is stored, and say that nothing is lost when *)
(* the formats are wide enough.                                            *)
(***************************************************************************)
EXTENDS OpsExt

CONSTANTS BITS, EXTRA           \* width of the stored type, extra fraction bits of the model's parameters
VARIABLES pc, x, w, b, fx, fw, fo, qw, qb, acc, y
vars == <<pc, x, w, b, fx, fw, fo, qw, qb, acc, y>>

Stored == -Pow2(BITS - 1) .. (Pow2(BITS - 1) - 1)
Real == -Pow2(BITS - 2 + EXTRA) .. (Pow2(BITS - 2 + EXTRA) - 1)
Fr == 0..(BITS - 1)
\* everything over the denominator 2^(fx+fw+EXTRA)
Init == /\ pc = "round" /\ x \in [1..2 -> Stored] /\ w \in [1..2 -> Real] /\ b \in {-3, 0, 1, 2}
        /\ fx \in Fr /\ fw \in Fr /\ fo \in 0..BITS
        /\ qw = <<0, 0>> /\ qb = 0 /\ acc = 0 /\ y = 0
        /\ x[1] <= x[2]          \* the sum is symmetric
One(v) == T(<<1>>, <<v>>, 0)
Round == /\ pc = "round" /\ pc' = "sum"
         /\ qw' = [i \in 1..2 |-> QuantizeT([m |-> fw, k |-> fw + EXTRA, bits |-> BITS], <<One(w[i])>>).d[1]]
         /\ qb' = b              \* the constant is exact in the format of the result
         /\ UNCHANGED <<x, w, b, fx, fw, fo, acc, y>>
Sum == /\ pc = "sum" /\ pc' = "shift"
       /\ acc' = qw[1] * x[1] + qw[2] * x[2]
       /\ UNCHANGED <<x, w, b, fx, fw, fo, qw, qb, y>>
S == Max2(0, fx + fw - fo)
Rescale == /\ pc = "shift" /\ pc' = "add"
           /\ y' = acc \div Pow2(S)
           /\ UNCHANGED <<x, w, b, fx, fw, fo, qw, qb, acc>>
AddB == /\ pc = "add" /\ pc' = "done" /\ y' = y + qb
        /\ UNCHANGED <<x, w, b, fx, fw, fo, qw, qb, acc>>
Stop == pc = "done" /\ UNCHANGED vars
Next == Round \/ Sum \/ Rescale \/ AddB \/ Stop
Spec == Init /\ [][Next]_vars

(* negative control: parameters cut instead of rounded                     *)
CutShift(v, k) == v \div Pow2(k)
(* the parameters are the nearest stored integers                           *)
Nearest == pc # "round" => \A i \in 1..2 : Abs(2 * (qw[i] * Pow2(EXTRA) - w[i])) <= Pow2(EXTRA)
(* real value of the product over 2^(fx+fw+EXTRA)                           *)
Exact == w[1] * x[1] + w[2] * x[2]
(* the result's unit, over the same denominator: fraction bits fx+fw-S      *)
Unit == Pow2(S + EXTRA)
(* error: half a unit of the parameter per term, plus less than a unit of the result *)
Bounded == pc = "done" =>
             LET d == (y - qb) * Unit - Exact
             IN /\ d <= Pow2(EXTRA - 1) * (Abs(x[1]) + Abs(x[2]))
                /\ -d < Unit + Pow2(EXTRA - 1) * (Abs(x[1]) + Abs(x[2]))
(* parameters with no more fraction bits than their format, a result with as many as the accumulator: no error *)
Lossless == pc = "done" /\ S = 0 /\ (\A i \in 1..2 : w[i] % Pow2(EXTRA) = 0) => (y - qb) * Unit = Exact
(* what fits is stored as it is, what does not loses exactly its high bits  *)
Wraps == \A v \in {acc, y} : /\ WrapBits(v, BITS) \in Stored
                             /\ v \in Stored => WrapBits(v, BITS) = v
                             /\ (WrapBits(v, BITS) - v) % Pow2(BITS) = 0
(* wrapping is a ring homomorphism: sums may be wrapped once at the end     *)
Ring == \A v \in {acc, y, qb} : WrapBits(WrapBits(v, BITS) + WrapBits(y, BITS), BITS) = WrapBits(v + y, BITS)
=============================================================================
