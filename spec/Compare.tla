------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* The comparison of two result files, value after value.  A value is a    *)
(* finite number (n units), an infinity or not a number; a file is a       *)
(* sequence of inferences, an inference a sequence of values.  What is     *)
(* found so far: whether all values agree, the largest absolute and the    *)
(* largest relative difference.  Not a number absorbs everything; two      *)
(* values which are both not numbers may be taken as equal or not (open).  *)
(* The comparison is refused when one of the files holds fewer inferences  *)
(* than asked for, or the compared ones don't have as many values.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fin(n) == [k |-> "fin", n |-> n]
PInf == [k |-> "inf", n |-> 0]
MInf == [k |-> "-inf", n |-> 0]
NaN == [k |-> "nan", n |-> 0]
AbsI(n) == IF n < 0 THEN 0 - n ELSE n
MinI(a, b) == IF a < b THEN a ELSE b

Equal(a, b) == a = b /\ a.k # "nan"
AbsDiff(a, b) == IF a.k = "nan" \/ b.k = "nan" THEN NaN
                 ELSE IF a = b THEN Fin(0)
                 ELSE IF a.k = "fin" /\ b.k = "fin" THEN Fin(AbsI(a.n - b.n)) ELSE PInf
\* relative to the mean of the magnitudes: a rational p / q
RelDiff(a, b) == IF a.k = "nan" \/ b.k = "nan" THEN [k |-> "nan", p |-> 0, q |-> 1]
                 ELSE IF a = b THEN [k |-> "fin", p |-> 0, q |-> 1]
                 ELSE IF a.k = "fin" /\ b.k = "fin" THEN [k |-> "fin", p |-> 2 * AbsI(a.n - b.n), q |-> AbsI(a.n) + AbsI(b.n)]
                 ELSE [k |-> "inf", p |-> 0, q |-> 1]
MaxAbs(x, y) == IF x.k = "nan" \/ y.k = "nan" THEN NaN
                ELSE IF x.k = "inf" \/ y.k = "inf" THEN PInf
                ELSE IF x.n > y.n THEN x ELSE y
MaxRel(x, y) == IF x.k = "nan" THEN x ELSE IF y.k = "nan" THEN y
                ELSE IF x.k = "inf" THEN x ELSE IF y.k = "inf" THEN y
                ELSE IF x.p * y.q > y.p * x.q THEN x ELSE y

Zero == [same |-> TRUE, abs |-> Fin(0), rel |-> [k |-> "fin", p |-> 0, q |-> 1], open |-> FALSE]
Take(f, a, b) == [same |-> f.same /\ Equal(a, b), abs |-> MaxAbs(f.abs, AbsDiff(a, b)), rel |-> MaxRel(f.rel, RelDiff(a, b)),
                  open |-> f.open \/ (a.k = "nan" /\ b.k = "nan")]
RECURSIVE TakeAll(_, _, _, _)
TakeAll(f, x, y, j) == IF j > Len(x) THEN f ELSE TakeAll(Take(f, x[j], y[j]), x, y, j + 1)

CONSTANTS COLS, ROWS, RULE
VARIABLES f1, f2, n, row, found, phase
vars == <<f1, f2, n, row, found, phase>>

Vals == {Fin(0), Fin(1), Fin(-2), PInf, NaN}
Files == UNION {[1..r -> UNION {[1..c -> Vals] : c \in 0..COLS}] : r \in 0..ROWS}
Init == f1 \in Files /\ f2 \in Files /\ n \in 0..ROWS /\ row = 1 /\ found = Zero /\ phase = "reading"

Refuse == /\ phase = "reading" /\ row <= n
          /\ IF row > MinI(Len(f1), Len(f2)) THEN TRUE ELSE Len(f1[row]) # Len(f2[row])
          /\ phase' = "refused" /\ UNCHANGED <<f1, f2, n, row, found>>
Row == /\ phase = "reading" /\ row <= n /\ row <= MinI(Len(f1), Len(f2))
       /\ IF RULE = "design" THEN Len(f1[row]) = Len(f2[row]) ELSE Len(f1[row]) <= Len(f2[row])
       /\ found' = TakeAll(found, f1[row], f2[row], 1)
       /\ row' = row + 1 /\ UNCHANGED <<f1, f2, n, phase>>
Report == /\ phase = "reading" /\ row > n
          /\ phase' = "done" /\ UNCHANGED <<f1, f2, n, row, found>>
Next == Refuse \/ Row \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Cells == {<<i, j>> \in (1..n) \X (1..COLS) : i <= Len(f1) /\ j <= Len(f1[i])}
\* no agreement is reported between files which differ in what was asked for
Agree == phase = "done" /\ found.same =>
           /\ Len(f1) >= n /\ Len(f2) >= n
           /\ \A i \in 1..n : f1[i] = f2[i]
\* the largest difference: as large as every one, and one of them
Largest == phase = "done" =>
             /\ \A x \in Cells : MaxAbs(found.abs, AbsDiff(f1[x[1]][x[2]], f2[x[1]][x[2]])) = found.abs
             /\ \A x \in Cells : MaxRel(RelDiff(f1[x[1]][x[2]], f2[x[1]][x[2]]), found.rel) = found.rel
             /\ found.abs = Fin(0) \/ \E x \in Cells : AbsDiff(f1[x[1]][x[2]], f2[x[1]][x[2]]) = found.abs
             /\ (found.abs = Fin(0)) => found.same
             /\ found.same => found.abs = Fin(0) /\ found.rel.k = "fin" /\ found.rel.p = 0
             /\ found.rel.k = "fin" => found.rel.p <= 2 * found.rel.q
Ends == <>(phase # "reading")
=============================================================================
