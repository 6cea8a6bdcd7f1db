---------------------------- MODULE ProblemTrace ----------------------------
(***************************************************************************)
(* The benchmark problems of the implementation against Problems:          *)
(* [id, name, at, x, f, j, got]: point, function and jacobian there.       *)
(* at: "x" a point given, "init" and "solution" the ones of the problem.   *)
(***************************************************************************)
EXTENDS Problems, Json, IOUtils, FiniteSets, TLC

CONSTANT Prop
Runs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
R == Runs[tid]
P == R.name
If(c, m) == IF c THEN {[p |-> "C27", at |-> 1, m |-> m \o " of " \o P]} ELSE {}
N == Len(R.x)

(* rounding of the terms and of their sum, in any order *)
Near(v, t) == FClose(v, Sum(t), "0.0", FMul("4.0E-15", Mag(t)))
Sized == N = Len(R.f) /\ N = Len(R.j) /\ \A k \in 1..N : Len(R.j[k]) = N
Function == LET t == Terms(P, R.x) IN \A k \in 1..N : Near(R.f[k], t[k])
Jacobian == LET t == DTerms(P, R.x) IN \A k \in 1..N, l \in 1..N : Near(R.j[k][l], t[k][l])
Solves == /\ \A k \in 1..N : FLe(Where(P)[k][1], R.x[k]) /\ FLe(R.x[k], Where(P)[k][2])
          /\ LET t == Terms(P, R.x) IN \A k \in 1..N : FClose(Sum(t[k]), "0.0", "0.0", FMul("1.0E-13", Mag(t[k])))
Starts == N = Dim(P) /\ \A k \in 1..N : FEq(R.x[k], Begin(P)[k])

Verdict ==
  IF R.got # "ok" THEN If(TRUE, "does not return: a value")
  ELSE IF ~Sized THEN If(TRUE, "sizes")
  ELSE If(~Function, "function") \cup If(~Jacobian, "jacobian")
       \cup If(R.at = "init" /\ ~Starts, "start") \cup If(R.at = "solution" /\ (N # Dim(P) \/ ~Solves), "solution")

Init == tid \in 1..Len(Runs) /\ i = 0 /\ bad = {}
Step == i = 0 /\ i' = 1 /\ bad' = Verdict /\ UNCHANGED tid
End == /\ i = 1
       /\ PrintT(<<"VERDICT", R.id, bad, {R.name \o " " \o R.at}, [known |-> 1, open |-> 0], i>>)
       /\ i' = 2 /\ UNCHANGED <<tid, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Holds == \A b \in bad : Prop # "ALL" /\ b.p # Prop
=============================================================================
