----------------------------- MODULE MCProblems -----------------------------
(***************************************************************************)
(* On a grid: the derivatives of the specification are the derivatives of  *)
(* its functions.  Differences of polynomials with the stencil of order 10 *)
(* (steps 1 to 5) are exact up to degree 10, but for rounding.             *)
(***************************************************************************)
EXTENDS Problems, IOUtils, Json, TLC

Size == IOEnv.SIZE
MyQuirks == IF IOEnv.QUIRK = "none" THEN {} ELSE {IOEnv.QUIRK}
Grid == IF Size = "fine" THEN {"-3.0", "-1.5", "-0.5", "0.0", "0.25", "1.0", "2.0"} ELSE {"-1.5", "0.0", "2.0"}
(* the dimensions of cases 5 to 8 do not matter to the derivatives *)
Points == {<<p, <<a, b, d>>>> : p \in {"case5", "case6"}, a \in Grid, b \in Grid, d \in Grid}
          \cup {<<p, <<a, b>>>> : p \in {"case9", "case10"}, a \in Grid, b \in Grid}
          \cup {<<p, <<a>>>> : p \in {"square2", "high"}, a \in Grid}

VARIABLES pt, seen
MInit == pt \in Points /\ seen = FALSE
MNext == ~seen /\ seen' = TRUE /\ UNCHANGED pt
MSpec == MInit /\ [][MNext]_<<pt, seen>>

P == pt[1]
X == pt[2]
Shift(j, h) == [k \in 1..Len(X) |-> IF k = j THEN FAdd(X[k], h) ELSE X[k]]
(* central differences, weights of the 11 point stencil *)
W == <<<<"1.0", FDiv("5.0", "6.0")>>, <<"2.0", FDiv("-5.0", "21.0")>>, <<"3.0", FDiv("5.0", "84.0")>>, <<"4.0", FDiv("-5.0", "504.0")>>, <<"5.0", FDiv("1.0", "1260.0")>>>>
Diffs(i, j) == [w \in 1..5 |-> FMul(W[w][2], FSub(Value(P, Shift(j, W[w][1]))[i], Value(P, Shift(j, FNeg(W[w][1])))[i]))]
Sizes(i, j) == [w \in 1..5 |-> FAdd(FAbs(Value(P, Shift(j, W[w][1]))[i]), FAbs(Value(P, Shift(j, FNeg(W[w][1])))[i]))]
C27 == \A i \in 1..Len(X), j \in 1..Len(X) :
         FClose(Sum(DTerms(P, X)[i][j]), Sum(Diffs(i, j)), "0.0", FMul("1.0E-13", FAdd(Sum(Sizes(i, j)), "1.0")))
Export == seen => PrintT("HIST " \o ToJson([problem |-> P, x |-> X]))
=============================================================================
