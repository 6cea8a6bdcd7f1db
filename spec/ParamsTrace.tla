----------------------------- MODULE ParamsTrace -----------------------------
(* Constructor calls of the implementation: [id, call, got, back]. *)
EXTENDS Params, Json, IOUtils, Integers

CONSTANT Prop
Calls == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
C == Calls[tid]

B(m) == {[p |-> "C22", at |-> 1, m |-> m]}
Verdict ==
  IF Accepted(C.call)
  THEN IF C.got # "ok" THEN B("refused: " \o C.call.fn)
       ELSE IF ~ReadBack(C.call, C.back) THEN B("not read back: " \o C.call.fn) ELSE {}
  ELSE IF C.got = "refused" THEN {} ELSE B("not refused: " \o C.call.fn)

Init == tid \in 1..Len(Calls) /\ i = 0 /\ bad = {}
Step == i = 0 /\ i' = 1 /\ bad' = Verdict /\ UNCHANGED tid
End == /\ i = 1
       /\ PrintT(<<"VERDICT", C.id, bad, {C.call.fn \o " " \o C.got}, [known |-> 1, open |-> 0], i>>)
       /\ i' = 2 /\ UNCHANGED <<tid, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Holds == \A b \in bad : Prop # "ALL" /\ b.p # Prop
=============================================================================
