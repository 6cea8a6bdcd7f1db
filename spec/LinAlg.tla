------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Vectors and square matrices of doubles.  A vector is a sequence of      *)
(* doubles (see F64), a matrix a sequence of rows.                         *)
(* The definitions below are the meaning; for speed TLC evaluates the same *)
(* names with the Java class LinAlg.  LinAlgCheck.tla checks that both     *)
(* agree.                                                                  *)
(***************************************************************************)
EXTENDS F64, Naturals, Sequences

RECURSIVE FSumSeq(_)
FSumSeq(v) == IF v = <<>> THEN "0.0" ELSE FAdd(FSumSeq(SubSeq(v, 1, Len(v) - 1)), v[Len(v)])
RECURSIVE FMaxSeq(_)
FMaxSeq(v) == IF v = <<>> THEN "0.0" ELSE FMax(FMaxSeq(SubSeq(v, 1, Len(v) - 1)), v[Len(v)])

VAdd(u, v)   == [i \in 1..Len(u) |-> FAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> FSub(u[i], v[i])]
VScale(a, v) == [i \in 1..Len(v) |-> FMul(a, v[i])]
VNeg(v)      == [i \in 1..Len(v) |-> FNeg(v[i])]
VAbs(v)      == [i \in 1..Len(v) |-> FAbs(v[i])]
Dot(u, v)    == FSumSeq([i \in 1..Len(u) |-> FMul(u[i], v[i])])
AbsDot(u, v) == FSumSeq([i \in 1..Len(u) |-> FAbs(FMul(u[i], v[i]))])
VNorm(v)     == FMaxSeq([i \in 1..Len(v) |-> FAbs(v[i])])          \* max norm, NaN entries ignored
VFinite(v)   == \A i \in 1..Len(v) : FIsFinite(v[i])
VHasNaN(v)   == \E i \in 1..Len(v) : FIsNaN(v[i])
VSame(u, v)  == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FSame(u[i], v[i])

MV(m, v)     == [i \in 1..Len(m) |-> Dot(m[i], v)]                 \* m v
TMV(m, v)    == [j \in 1..Len(m) |-> FSumSeq([i \in 1..Len(m) |-> FMul(m[i][j], v[i])])]   \* transpose(m) v
AbsMV(m, v)  == [i \in 1..Len(m) |-> AbsDot(m[i], v)]              \* |m| |v|
MSub(m, k)   == [i \in 1..Len(m) |-> VSub(m[i], k[i])]
MScale(a, m) == [i \in 1..Len(m) |-> VScale(a, m[i])]
Outer(u, v)  == [i \in 1..Len(u) |-> [j \in 1..Len(v) |-> FMul(u[i], v[j])]]
MNorm(m)     == FMaxSeq([i \in 1..Len(m) |-> FSumSeq(VAbs(m[i]))])  \* infinity norm
MFinite(m)   == \A i \in 1..Len(m) : VFinite(m[i])
FromCols(cs) == [i \in 1..Len(cs) |-> [j \in 1..Len(cs) |-> cs[j][i]]]
MMul(m, k)   == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> FSumSeq([l \in 1..Len(m) |-> FMul(m[i][l], k[l][j])])]]
Ident(n)     == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1.0" ELSE "0.0"]]

(* Gauss-Jordan elimination with partial pivoting on the rows of [m | b]. *)
RECURSIVE Eliminate(_, _, _)
Eliminate(m, b, k) ==
  LET n == Len(m) IN
  IF k > n THEN b ELSE
  LET p  == CHOOSE i \in k..n : \A j \in k..n : ~FLt(FAbs(m[i][k]), FAbs(m[j][k]))
      sw(a)  == [i \in 1..n |-> IF i = k THEN a[p] ELSE IF i = p THEN a[k] ELSE a[i]]
      m1 == sw(m)
      b1 == sw(b)
      row(a, i) == IF i = k THEN [j \in 1..n |-> FDiv(a[k][j], m1[k][k])]
                   ELSE [j \in 1..n |-> FSub(a[i][j], FMul(FDiv(m1[i][k], m1[k][k]), a[k][j]))]
  IN  IF FEq(m1[k][k], "0.0") THEN <<>>
      ELSE Eliminate([i \in 1..n |-> row(m1, i)], [i \in 1..n |-> row(b1, i)], k + 1)

(* The inverse, or <<>> when a pivot is exactly zero. *)
Inverse(m) == Eliminate(m, Ident(Len(m)), 1)

(* A matrix that every elimination, in floating point as well, finds singular: *)
(* it has a row or a column of zeros.                                          *)
PlainlySingular(m) ==
  LET n == Len(m)
  IN \E i \in 1..n : (\A j \in 1..n : FEq(m[i][j], "0.0")) \/ (\A j \in 1..n : FEq(m[j][i], "0.0"))
=============================================================================
