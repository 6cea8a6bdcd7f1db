------------------------------ MODULE Problems ------------------------------
(***************************************************************************)
(* The benchmark problems of the crate util: the functions of Broyden 1965 *)
(* (cases 5 to 10) and the polynomials, with their derivatives.            *)
(* Terms are kept apart, so that the sum of their magnitudes bounds what   *)
(* rounding may change: a function is a sequence of sequences of terms, a  *)
(* jacobian a sequence of sequences of sequences of terms.                 *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences

CONSTANT Quirks

RECURSIVE Sum(_)
Sum(t) == IF t = <<>> THEN "0.0" ELSE FAdd(Sum(SubSeq(t, 1, Len(t) - 1)), t[Len(t)])
Mag(t) == Sum([k \in 1..Len(t) |-> FAbs(t[k])])
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN "1.0" ELSE FMul(x, Pow(x, n - 1))
M2(a, b) == FMul(a, b)
M3(a, b, c) == FMul(a, FMul(b, c))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

(* dimension (0: any), parameter of cases 5 to 8, start and branch of the solution *)
Cases == {"case5", "case6", "case7", "case8"}
Dim(p) == CASE p \in {"case5", "case6"} -> 5 [] p = "case7" -> 10 [] p = "case8" -> 20 [] p \in {"case9", "case10"} -> 2 [] OTHER -> 1
Alpha(p) == IF p = "case5" THEN "-0.1" ELSE "-0.5"
Beta == "1.0"
Begin(p) == CASE p \in Cases -> [k \in 1..Dim(p) |-> "-1.0"] [] p = "case9" -> <<"-1.2", "1.0">> [] p = "case10" -> <<"15.0", "-2.0">>
(* the solution: of each unknown, an interval that holds one root only *)
Where(p) == CASE p \in Cases -> [k \in 1..Dim(p) |-> <<"-1.0", "0.0">>] [] p = "case9" -> <<<<"0.99", "1.01">>, <<"0.99", "1.01">>>>
            [] p = "case10" -> <<<<"4.99", "5.01">>, <<"3.99", "4.01">>>>

---------------------------------------------------------------------------
(* cases 5 to 8: equation i is the sum of the terms G(x, k), k <= i *)
G(x, k, a) == <<FMul("-3.0", x[k]), FNeg(M3(a, x[k], x[k]))>> \o (IF k < Len(x) THEN <<FMul("2.0", x[k + 1])>> ELSE <<>>) \o <<FNeg(Beta)>>
DG(x, k, j, a) == IF j = k THEN <<"-3.0", IF "once" \in Quirks THEN FNeg(FMul(a, x[k])) ELSE FNeg(M3("2.0", a, x[k]))>>
                  ELSE IF j = k + 1 THEN <<"2.0">> ELSE <<>>
Terms(p, x) ==
  CASE p \in Cases -> [i \in 1..Len(x) |-> Concat([k \in 1..i |-> G(x, k, Alpha(p))])]
    [] p = "case9" -> <<<<FMul("10.0", x[2]), FNeg(M3("10.0", x[1], x[1]))>>, <<"1.0", FNeg(x[1])>>>>
    [] p = "case10" -> <<<<"-13.0", x[1], FNeg(Pow(x[2], 3)), FMul("5.0", Pow(x[2], 2)), FMul("-2.0", x[2])>>,
                         <<"-29.0", x[1], Pow(x[2], 3), Pow(x[2], 2), FMul("-14.0", x[2])>>>>
    [] p = "square2" -> <<<<Pow(x[1], 2), "-2.0">>>>
    [] p = "high" -> <<<<FMul("1.0E9", Pow(x[1], 9)), "-1.0">>>>
DTerms(p, x) ==
  CASE p \in Cases -> [i \in 1..Len(x) |-> [j \in 1..Len(x) |->
                         IF "row" \in Quirks THEN DG(x, i, j, Alpha(p)) ELSE Concat([k \in 1..i |-> DG(x, k, j, Alpha(p))])]]
    [] p = "case9" -> <<<<<<FMul("-20.0", x[1])>>, <<"10.0">>>>, <<<<"-1.0">>, <<>>>>>>
    [] p = "case10" -> <<<<<<"1.0">>, <<"-2.0", FMul("10.0", x[2]), FMul("-3.0", Pow(x[2], 2))>>>>,
                         <<<<"1.0">>, <<"-14.0", FMul(IF "sign" \in Quirks THEN "-2.0" ELSE "2.0", x[2]), FMul("3.0", Pow(x[2], 2))>>>>>>
    [] p = "square2" -> <<<<<<FMul("2.0", x[1])>>>>>>
    [] p = "high" -> <<<<<<FMul("9.0E9", Pow(x[1], 8))>>>>>>
Value(p, x) == LET t == Terms(p, x) IN [i \in 1..Len(t) |-> Sum(t[i])]
=============================================================================
