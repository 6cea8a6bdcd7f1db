----------------------------- MODULE OneDimTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the one-dimensional solver against Newton1D:           *)
(* [id, call, ev, got, ret], ev the calls [e, x, v] of the function and of *)
(* its derivative, in order.  The specification follows the run: what is   *)
(* asked next is compared, with the rounding another order of the same     *)
(* operations may give, and the run's own point is taken from there on.    *)
(***************************************************************************)
EXTENDS Newton1D, Json, IOUtils, FiniteSets, TLC

CONSTANT Prop
Runs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, s, unc, bad
vars == <<tid, i, s, unc, bad>>

T == Runs[tid]
C == T.call
E == T.ev[i]
B(m) == {[p |-> "C26", at |-> i, m |-> m]}
Eps == "2.3E-16"

(* the bound on what rounding does to the point after a slope was answered v *)
Unc(v) ==
  LET d == Slope(C, s, v)
      step == FDiv(s.f, d)
      amp == IF C.fd THEN FDiv(FDiv(FAdd(FAbs(v), FAbs(s.f)), FAbs(C.dx)), FAbs(d)) ELSE "0.0"
  IN FMul(FMul("8.0", Eps), FAdd(FAbs(s.x), FMul(FAbs(step), FAdd("1.0", amp))))
(* without bound where the difference that stands for the slope vanishes or overflows *)
Loose(u) == C.fd /\ ~FIsFinite(u)
Same(x, e) == FClose(x, e, "0.0", "0.0") \/ FSame(x, e)
Fits(x, e) == Same(x, e) \/ (s.ph = "value" /\ (Loose(unc) \/ FClose(x, e, "0.0", unc)))
Question1(q) == IF q.e = E.e /\ Fits(E.x, q.x) THEN {} ELSE B("asks for " \o E.e \o " at " \o E.x \o " instead of " \o q.e \o " at " \o q.x)

Init == tid \in 1..Len(Runs) /\ i = 1 /\ s = Start(Runs[tid].call) /\ unc = "0.0" /\ bad = {}

Step ==
  /\ i >= 1 /\ i <= Len(T.ev) /\ bad = {}
  /\ IF s.ph = "done" THEN bad' = B("goes on: " \o E.e \o " at " \o E.x) /\ UNCHANGED <<s, unc>>
     ELSE /\ bad' = Question1(Question(C, s))
          /\ LET here == IF s.ph = "value" THEN [s EXCEPT !.x = E.x] ELSE s
             IN s' = Answer(C, here, E.v)
          /\ unc' = IF s.ph = "slope" THEN Unc(E.v) ELSE "0.0"
  /\ i' = i + 1
  /\ UNCHANGED tid

Finish ==
  /\ i >= 1 /\ (i > Len(T.ev) \/ bad # {})
  /\ bad' = IF bad # {} THEN bad
            ELSE IF T.got # "ok" THEN B("does not return: " \o T.got)
            ELSE IF s.ph # "done" THEN B("ends early, " \o s.ph \o " due")
            ELSE IF ~Same(T.ret, Returned(s)) THEN B("returns " \o T.ret \o " instead of " \o Returned(s))
            ELSE {}
  /\ i' = -1
  /\ UNCHANGED <<tid, s, unc>>

End == /\ i = -1
       /\ PrintT(<<"VERDICT", T.id, bad, {IF C.fd THEN "differences" ELSE "derivative",
                   IF FLe(FAbs(s.f), C.tol) THEN "converged" ELSE IF s.k = C.maxiter THEN "budget spent" ELSE "not a number"},
                   [known |-> Len(T.ev), open |-> 0], i>>)
       /\ i' = -2
       /\ UNCHANGED <<tid, s, unc, bad>>
Next == Step \/ Finish \/ End
Spec == Init /\ [][Next]_vars
Holds == \A b \in bad : Prop # "ALL" /\ b.p # Prop
=============================================================================
