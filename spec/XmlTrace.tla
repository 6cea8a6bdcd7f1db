------------------------------ MODULE XmlTrace ------------------------------
(***************************************************************************)
(* Documents read by the implementation: [id, mode, doc, got, conf], got   *)
(* "ok" with the configuration returned, "refused", or something else      *)
(* (it did not return).                                                    *)
(***************************************************************************)
EXTENDS XmlConf, Json, IOUtils, Integers, FiniteSets

CONSTANT Prop
Docs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
D == Docs[tid]

Verdict ==
  IF Open(D.doc) THEN {}
  ELSE IF Valid(D.doc, D.mode)
  THEN IF D.got # "ok" THEN {[p |-> "C20", at |-> 1, m |-> "a valid document is not read: " \o D.got]}
       ELSE IF ~SameConf(D.conf, Meaning(D.doc, D.mode)) THEN {[p |-> "C20", at |-> 1, m |-> "not the configuration of the document"]}
       ELSE {}
  ELSE IF D.got = "refused" THEN {} ELSE {[p |-> "C21", at |-> 1, m |-> "an invalid document is not refused: " \o D.got]}

Init == tid \in 1..Len(Docs) /\ i = 0 /\ bad = {}
Step == i = 0 /\ i' = 1 /\ bad' = Verdict /\ UNCHANGED tid
End == /\ i = 1
       /\ PrintT(<<"VERDICT", D.id, bad,
                   {D.mode, IF Valid(D.doc, D.mode) THEN "valid" ELSE "invalid", D.got, "method " \o D.conf.method}
                     \cup {"size " \o ToString(D.conf.n)},
                   [known |-> 1, open |-> IF Open(D.doc) THEN 1 ELSE 0], i>>)
       /\ i' = 2 /\ UNCHANGED <<tid, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Holds == \A b \in bad : Prop # "ALL" /\ b.p # Prop
=============================================================================
