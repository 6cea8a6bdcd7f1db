------------------------------ MODULE PairTrace ------------------------------
(***************************************************************************)
(* Two recorded runs of the real code that have to be the same resolution, *)
(* in lockstep:                                                            *)
(*   C16  a call to solve on a used solver / on a fresh one                *)
(*   C17  with / without the debug log                                     *)
(*   C23  through an adapter / through a hand-written model, statically /  *)
(*        dynamically sized                                                *)
(*   C10  with / without values flagged as inaccurate                      *)
(*   C25  configured explicitly / from a file or by the default functions    *)
(* A pair is [id, prop, mode, tol, stop, a, b]: mode "same" asks for the   *)
(* same data bit for bit; "close" allows rounding (only used on well       *)
(* conditioned problems): the points agree to Rel, and the runs may part   *)
(* where the residuals are within Rel of the tolerance; "flags" asks for   *)
(* the same data whatever the evaluations reported, Final standing for Ok. *)
(***************************************************************************)
EXTENDS Formulas, Json, IOUtils, Integers

CONSTANT Prop
Pairs == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, going, bad
vars == <<tid, i, going, bad>>

P == Pairs[tid]
At(s, k) == IF k <= Len(s) THEN s[k] ELSE [e |-> "none"]
A == At(P.a, i)
B == At(P.b, i)
Exact == P.mode \in {"same", "flags"}
Flags == P.mode = "flags"

Rel == "1.0E-6"
Vals(u, v) == IF Exact THEN VSame(u, v)
              ELSE Len(u) = Len(v) /\ \A k \in 1..Len(u) : FClose(u[k], v[k], Rel, Rel)
(* rounding has been amplified already: what follows may part *)
Tight == "1.0E-12"
Drift(u, v) == \E k \in 1..Len(u) : ~FClose(u[k], v[k], Tight, Tight)
Drifted == \E j \in 1..(i - 1) : /\ At(P.a, j).e = "eval"
                                 /\ \/ Drift(At(P.a, j).x, At(P.b, j).x)
                                    \/ Drift(At(P.a, j).l, At(P.b, j).l)
                                    \/ Drift(At(P.a, j).r, At(P.b, j).r)
Rows(m, n) == Len(m) = Len(n) /\ \A k \in 1..Len(m) : Vals(m[k], n[k])

Agree(e, f) ==
  /\ e.e = f.e
  /\ CASE e.e = "begin" -> VSame(e.mem, f.mem)
       [] e.e = "eval" -> Vals(e.x, f.x) /\ Vals(e.l, f.l) /\ Vals(e.r, f.r) /\ (Flags \/ (e.out = f.out /\ e.err = f.err)) /\ Vals(e.mb, f.mb) /\ Vals(e.ma, f.ma)
       [] e.e = "jac" -> Vals(e.x, f.x) /\ Rows(e.dl, f.dl) /\ Rows(e.dr, f.dr) /\ e.out = f.out /\ e.err = f.err
       [] e.e = "ret" -> ((Flags /\ {e.kind, f.kind} \subseteq {"Ok", "Final"}) \/ (e.kind = f.kind /\ e.err = f.err)) /\ Vals(e.x, f.x) /\ Vals(e.l, f.l) /\ Vals(e.r, f.r) /\ e.dirty = f.dirty
       [] e.e \in {"crash", "overrun"} -> Vals(e.x, f.x)
       [] e.e = "text" -> e.params = f.params
       [] OTHER -> e.e # "hang"

(* both runs are where rounding may decide about convergence or about growth *)
LastEval(s) == LET S == {j \in 1..(i - 1) : At(s, j).e = "eval"}
               IN IF S = {} THEN [e |-> "none"] ELSE At(s, CHOOSE j \in S : \A m \in S : m <= j)
Hesitates(s) ==
  LET e == LastEval(s)
      E == VNorm(StoppingResiduals(e.l, e.r, P.stop))
  IN e.e = "eval" /\ FClose(E, P.tol, "1.0E-3", "1.0E-14")
(* with an error at the level of rounding the steps mean nothing *)
Tiny(s) == LET e == LastEval(s) IN e.e = "eval" /\ FLt(VNorm(StoppingResiduals(e.l, e.r, P.stop)), "1.0E-9")

(* a resolution that moves away amplifies rounding *)
Wild(s) == LET b == CHOOSE j \in 1..Len(s) : s[j].e = "eval" /\ \A m \in 1..(j - 1) : s[m].e # "eval"
               e == LastEval(s)
           IN e.e = "eval" /\ ~FLt(VNorm(StoppingResiduals(e.l, e.r, P.stop)), FMul("1.5", VNorm(StoppingResiduals(s[b].l, s[b].r, P.stop))))

Init == tid \in 1..Len(Pairs) /\ i = 1 /\ going = TRUE /\ bad = {}

Step ==
  /\ going
  /\ ~(A.e = "none" /\ B.e = "none")
  /\ i' = i + 1
  /\ IF Agree(A, B) THEN going' = TRUE /\ bad' = bad
     ELSE IF ~Exact /\ (Hesitates(P.a) \/ Hesitates(P.b) \/ Drifted \/ Tiny(P.a) \/ Tiny(P.b) \/ Wild(P.a) \/ Wild(P.b)) THEN going' = FALSE /\ bad' = bad
     ELSE going' = FALSE /\ bad' = bad \cup {[p |-> P.prop, at |-> i, m |-> A.e \o " / " \o B.e]}
  /\ UNCHANGED tid

Finish ==
  /\ going /\ A.e = "none" /\ B.e = "none"
  /\ going' = FALSE
  /\ UNCHANGED <<tid, i, bad>>

End ==
  /\ ~going /\ i >= 0
  /\ PrintT(<<"VERDICT", P.id, bad, {P.prop, P.mode}, [known |-> i, open |-> 0], i>>)
  /\ i' = -1
  /\ UNCHANGED <<tid, going, bad>>

Next == Step \/ Finish \/ End
Spec == Init /\ [][Next]_vars
Holds == \A b \in bad : Prop # "ALL" /\ b.p # Prop
=============================================================================
