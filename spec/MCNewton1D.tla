----------------------------- MODULE MCNewton1D -----------------------------
(***************************************************************************)
(* The one-dimensional solver with any answers of the function and of the  *)
(* derivative out of finite sets.  The invariants speak about the history  *)
(* of questions and answers only.                                          *)
(***************************************************************************)
EXTENDS Newton1D, IOUtils, Json, TLC

Size == IOEnv.SIZE
MyQuirks == IF IOEnv.QUIRK = "none" THEN {} ELSE {IOEnv.QUIRK}
Budgets == CASE Size = "three" -> {0, 1, 2, 3} [] Size = "four" -> {1, 4} [] OTHER -> {0, 1, 2}
Configs == {[fd |-> q, guess |-> g, tol |-> t, maxiter |-> k, dx |-> "0.25"] :
              q \in {TRUE, FALSE}, g \in {"1.5", "-2.0"}, t \in {"0.5", "0.0", "NaN"}, k \in Budgets}
Values == IF Size = "four" THEN {"0.5", "-2.0", "1.5"} ELSE {"0.5", "-0.5", "0.0", "-2.0", "3.0", "NaN", "Infinity"}
Slopes == IF Size = "four" THEN {"2.0", "-1.0"} ELSE {"2.0", "-0.5", "0.0", "NaN"}

VARIABLES c, s, hist
mvars == <<c, s, hist>>

MInit == c \in Configs /\ s = Start(c) /\ hist = <<>>
Ask == /\ s.ph # "done"
       /\ \E v \in (IF s.ph = "slope" /\ ~c.fd THEN Slopes ELSE Values) :
            /\ s' = Answer(c, s, v)
            /\ hist' = Append(hist, [e |-> Question(c, s).e, x |-> Question(c, s).x, v |-> v])
       /\ UNCHANGED c
MSpec == MInit /\ [][Ask]_mvars /\ WF_mvars(Ask)

---------------------------------------------------------------------------
(* value j (from 1) is the (2j - 1)-th answer, slope j the 2j-th *)
V(j) == hist[2 * j - 1]
D(j) == hist[2 * j]
NV == (Len(hist) + 1) \div 2
ND == Len(hist) \div 2
SlopeOf(j) == IF c.fd THEN FDiv(FSub(D(j).v, V(j).v), c.dx) ELSE D(j).v
Close(a, b) == FClose(a, b, "1.0E-15", "0.0")

Asked == /\ NV > 0 => Close(V(1).x, c.guess)
         /\ \A j \in 1..NV : V(j).e = "f"
         /\ \A j \in 1..ND : IF c.fd THEN D(j).e = "f" /\ Close(D(j).x, FAdd(V(j).x, c.dx)) ELSE D(j).e = "d" /\ Close(D(j).x, V(j).x)
Moves == \A j \in 2..NV : Close(V(j).x, FSub(V(j - 1).x, FDiv(V(j - 1).v, SlopeOf(j - 1))))
GoesOn == \A j \in 1..ND : FLt(c.tol, FAbs(V(j).v)) /\ j <= c.maxiter
Stops == s.ph = "done" => /\ Len(hist) = 2 * NV - 1
                          /\ Close(Returned(s), V(NV).x)
                          /\ ~FLt(c.tol, FAbs(V(NV).v)) \/ NV = c.maxiter + 1
C26 == Asked /\ Moves /\ GoesOn /\ Stops
Ends == <>(s.ph = "done")
Export == s.ph = "done" => PrintT("HIST " \o ToJson([one |-> c, hist |-> hist]))
=============================================================================
