------------------------------- MODULE Newton -------------------------------
(***************************************************************************)
(* One resolution: RootFinder::solve (solver/rootfinder.rs) talking to a   *)
(* user Model.  The model is the environment: it answers each evaluation   *)
(* and each request for its jacobian with arbitrary members and outcomes.  *)
(*                                                                         *)
(* Requests of the solver and their actions:                               *)
(*   pc = "init"    evaluate at the initial guess     EvalInitial          *)
(*   pc = "column"  evaluate at a perturbed point     EvalColumn           *)
(*   pc = "ask"     get_jacobian                      AskJacobian          *)
(*   pc = "step"    evaluate at the proposed point    EvalStep             *)
(*   pc = "damp"    evaluate at the damped point      EvalDamped           *)
(* and its own decisions:                                                  *)
(*   pc = "head"    stop, or start an iteration       Stop, StartIteration *)
(*   pc = "matrix"  which jacobian to use    NeedJacobian, KeepJacobian,   *)
(*                                           UpdateJacobian                *)
(*   pc = "built"   the true jacobian is known        UseJacobian          *)
(*   pc = "propose" the limited step                  Propose              *)
(*   pc = "moved"   did the error grow?  Accept, Refuse, Damp              *)
(*   pc = "done"    result in res                                          *)
(*                                                                         *)
(* Decisions that depend on the last bits of a computation (converged,     *)
(* grown, singular) are parameters of the actions, constrained by the      *)
(* operators May...: both values are allowed only inside the rounding band.*)
(* Evaluation points are parameters as well (the proposed point is p, the  *)
(* evaluated one px): the model checking configuration takes px = p, trace *)
(* validation takes the observed point and compares it with p.             *)
(***************************************************************************)
EXTENDS Formulas, Integers, FiniteSets

CONSTANT Quirks      \* deliberate deviations, {} for the specification itself

VARIABLES
  cfg,      \* configuration of the solver
  pc,
  iter,     \* iterations started
  pt,       \* the point the model was last evaluated at: [x, l, r, F, E, acc]
  base,     \* the point the current iteration started from
  jac,      \* jacobian in use: [m, inv, uncm, unc, known, shown]
  due,      \* the true jacobian has to be evaluated
  approx,   \* the jacobian in use is an approximation
  cols,     \* finite-difference columns so far: sequence of update residuals
  prop,     \* proposed iteratives
  delta,    \* [s, y, f]: last change of the iteratives, of the residuals; residuals
  res       \* result: [kind, err]

vars == <<cfg, pc, iter, pt, base, jac, due, approx, cols, prop, delta, res>>

---------------------------------------------------------------------------
N == cfg.n
NoJac == [m |-> <<>>, inv |-> <<>>, uncm |-> "0.0", unc |-> "0.0", known |-> FALSE, shown |-> "none"]
NoDelta == [s |-> <<>>, y |-> <<>>, f |-> <<>>, x |-> <<>>]
NoRes == [kind |-> "none", err |-> ""]
NoPoint == [x |-> <<>>, l |-> <<>>, r |-> <<>>, F |-> <<>>, E |-> <<>>, acc |-> TRUE]

(* The point reached by an evaluation at x answered by rep *)
Point(x, rep) ==
  [x |-> x, l |-> rep.l, r |-> rep.r,
   F |-> NormalizeAll(rep.l, rep.r, cfg.upd),
   E |-> StoppingResiduals(rep.l, rep.r, cfg.stop),
   acc |-> rep.out = "ok"]

Usable(rep) == rep.out \in {"ok", "inacc"}

---------------------------------------------------------------------------
(* Decisions *)

(* A residual computed by absolute normalization is one subtraction, hence *)
(* exact to the last bit; the other ones may be evaluated in other orders. *)
Band == "2.0E-15"
RoundedE(i) == cfg.stop[i] # "Abs"
SurelyBelow(i, e, t) == IF RoundedE(i) THEN FLe(e, FMul(t, FSub("1.0", Band))) ELSE FLe(e, t)
SurelyAbove(i, e, t) == IF RoundedE(i) THEN ~FLe(e, FMul(t, FAdd("1.0", Band))) ELSE ~FLe(e, t)

Converged == \A i \in 1..N : FLe(pt.E[i], cfg.tol)
MayConverge    == \A i \in 1..N : ~SurelyAbove(i, pt.E[i], cfg.tol)
MayNotConverge == \E i \in 1..N : ~SurelyBelow(i, pt.E[i], cfg.tol)

(* Growth of the maximum error.  Left open when a NaN is involved. *)
ErrNaN == VHasNaN(pt.E) \/ VHasNaN(base.E)
ExactErr == \A i \in 1..N : cfg.stop[i] = "Abs"
ErrNew == VNorm(pt.E)
ErrOld == VNorm(base.E)
MayGrow    == ErrNaN \/ FLt(ErrOld, ErrNew)
              \/ (~ExactErr /\ FIsFinite(ErrNew) /\ FIsFinite(ErrOld) /\ FLt(FMul(ErrOld, FSub("1.0", Band)), ErrNew))
MayNotGrow == ErrNaN \/ ~FLt(ErrOld, ErrNew)
              \/ (~ExactErr /\ FIsFinite(ErrNew) /\ FIsFinite(ErrOld) /\ ~FLt(FMul(ErrOld, FAdd("1.0", Band)), ErrNew))

(* Singularity *)
MustBeSingular(k) == (\A i \in 1..N : cfg.upd[i] = "Abs") /\ SurelySingular(k.m)
MayBeSingular(k)  == ~k.known

---------------------------------------------------------------------------
Finish(kind, err) == /\ pc' = "done"
                     /\ res' = [kind |-> kind, err |-> err]

(* What the error says: the phase, then what the model said (sort: were    *)
(* the values inaccurate or unusable), word for word.                       *)
Said(sort, cause) == CASE "terse" \in Quirks -> cause
                       [] sort = "inacc" -> "InaccurateValues Error: " \o cause
                       [] OTHER -> "UnusableValuesError Error: " \o cause
Message(kind, sort, cause) ==
  CASE kind = "NonConvergence" -> "Convergence not reached"
    [] kind = "Final" -> "Final model evaluation failed"
    [] kind = "Singular" -> "Jacobian error: Non invertible jacobian"
    [] kind = "Initial" -> "Initial model evaluation failed: " \o cause
    [] kind = "ModelEval" -> (IF "no_phase" \in Quirks THEN "Jacobian error: Invalid jacobian: " ELSE "Model evaluation failed: ") \o Said(sort, cause)
    [] kind = "JacobianModel" -> "Jacobian error: Invalid jacobian: " \o Said(sort, cause)
    [] OTHER -> ""

Init(c) ==
  /\ cfg = c
  /\ pc = "init"
  /\ iter = 0
  /\ pt = NoPoint
  /\ base = NoPoint
  /\ jac = NoJac
  /\ due = TRUE
  /\ approx = FALSE
  /\ cols = <<>>
  /\ prop = c.guess
  /\ delta = NoDelta
  /\ res = NoRes

(* A new call to solve on the same solver: nothing is remembered. *)
Restart(c) ==
  /\ cfg' = c
  /\ pc' = "init"
  /\ iter' = IF "remember" \in Quirks THEN iter ELSE 0
  /\ pt' = NoPoint
  /\ base' = NoPoint
  /\ jac' = NoJac
  /\ due' = IF "remember" \in Quirks THEN due ELSE TRUE
  /\ approx' = FALSE
  /\ cols' = <<>>
  /\ prop' = c.guess
  /\ delta' = NoDelta
  /\ res' = NoRes

(* evaluation at the initial guess; err identifies the model error *)
EvalInitial(px, rep, err) ==
  /\ pc = "init"
  /\ IF Usable(rep)
     THEN /\ pt' = [Point(px, rep) EXCEPT !.acc = IF "init_flag" \in Quirks THEN TRUE ELSE @]
          /\ pc' = "head"
          /\ UNCHANGED res
     ELSE /\ pt' = [pt EXCEPT !.x = px]
          /\ Finish("Initial", err)
  /\ UNCHANGED <<cfg, iter, base, jac, due, approx, cols, prop, delta>>

Stop(conv) ==
  /\ pc = "head"
  /\ IF conv
     THEN IF pt.acc \/ "ignore_flag" \in Quirks THEN Finish("Ok", "") ELSE Finish("Final", "")
     ELSE iter = cfg.maxiter /\ Finish("NonConvergence", "")
  /\ UNCHANGED <<cfg, iter, pt, base, jac, due, approx, cols, prop, delta>>

StartIteration ==
  /\ pc = "head"
  /\ iter < cfg.maxiter \/ "one_more" \in Quirks
  /\ iter' = iter + 1
  /\ base' = pt
  /\ pc' = "matrix"
  /\ UNCHANGED <<cfg, pt, jac, due, approx, cols, prop, delta, res>>

---------------------------------------------------------------------------
(* The jacobian of the iteration *)

NeedJacobian ==
  /\ pc = "matrix"
  /\ cfg.method = "NR" \/ due
  /\ pc' = IF cfg.provided THEN "ask" ELSE "column"
  /\ cols' = <<>>
  /\ UNCHANGED <<cfg, iter, pt, base, jac, due, approx, prop, delta, res>>

KeepJacobian ==
  /\ pc = "matrix"
  /\ cfg.method = "SN" /\ ~due
  /\ pc' = "propose"
  /\ UNCHANGED <<cfg, iter, pt, base, jac, due, approx, cols, prop, delta, res>>

UncDelta == ChangeUnc(delta.s, delta.y, delta.x, delta.f)

Updated ==
  LET fam == Family(cfg.method)
      s == delta.s
      y == delta.y
      f == delta.f
  IN IF ~jac.known THEN NoJac
     ELSE IF UpdatesInverse(cfg.method)
     THEN LET u == UpdateInverse(fam, jac.inv, jac.unc, s, y, f, UncDelta)
          IN [m |-> <<>>, inv |-> u.m, uncm |-> "0.0", unc |-> u.unc,
              known |-> u.ok /\ Known(u.unc), shown |-> "inverse"]
     ELSE LET u == UpdateMatrix(fam, jac.m, jac.inv, jac.uncm, jac.unc, s, y, f, UncDelta)
          IN IF u.ok THEN WithInverse(u.m, u.unc) ELSE NoJac

UpdateJacobian(sing) ==
  /\ pc = "matrix"
  /\ Approximates(cfg.method) /\ ~due
  /\ LET k == Updated IN
     /\ approx' = TRUE
     /\ jac' = [k EXCEPT !.shown = IF UpdatesInverse(cfg.method) THEN "inverse" ELSE "pair"]
     /\ (sing => UpdatesMatrix(cfg.method) /\ MayBeSingular(k))
     /\ IF sing THEN Finish("Singular", "") ELSE pc' = "propose" /\ UNCHANGED res
  /\ UNCHANGED <<cfg, iter, pt, base, due, cols, prop, delta>>

(* finite differences, one column *)
PerturbedPoint(k) ==
  [base.x EXCEPT ![IF "column_one" \in Quirks THEN 1 ELSE k] = FAdd(@, Perturbation(cfg.iters[k], base.x[k]))]

EvalColumn(px, rep, err) ==
  /\ pc = "column"
  /\ IF Usable(rep)
     THEN /\ cols' = Append(cols, NormalizeAll(rep.l, rep.r, cfg.upd))
          /\ pc' = IF Len(cols) + 1 = N THEN "built" ELSE "column"
          /\ UNCHANGED res
     ELSE /\ cols' = cols
          /\ Finish("JacobianModel", err)
  /\ UNCHANGED <<cfg, iter, pt, base, jac, due, approx, prop, delta>>

Perturbations == [k \in 1..N |-> Perturbation(cfg.iters[k], base.x[k])]
FDMatrix == DiffMatrix(cols, base.F, Perturbations)
FDUnc == DiffUnc(cols, base.F, Perturbations, cfg.upd)

(* the model's own jacobian; rep.dl and rep.dr are the members' jacobians *)
AskJacobian(rep, err) ==
  /\ pc = "ask"
  /\ IF rep.out = "ok"
     THEN /\ jac' = [NoJac EXCEPT !.m = DNormalizeAll(base.l, base.r, rep.dl, rep.dr, cfg.upd),
                              !.uncm = MembersUnc(base.l, base.r, rep.dl, rep.dr, cfg.upd)]
          /\ pc' = "built"
          /\ UNCHANGED res
     ELSE /\ jac' = jac
          /\ Finish("JacobianModel", err)
  /\ UNCHANGED <<cfg, iter, pt, base, due, approx, cols, prop, delta>>

TrueJacobian == IF cfg.provided THEN WithInverse(jac.m, jac.uncm) ELSE WithInverse(FDMatrix, FDUnc)

UseJacobian(sing) ==
  /\ pc = "built"
  /\ LET k == TrueJacobian IN
     /\ jac' = k
     /\ (sing => MayBeSingular(k) \/ "all_singular" \in Quirks)
     /\ (MustBeSingular(k) => sing)
     /\ due' = ("always_due" \in Quirks)
     /\ approx' = FALSE
     /\ IF sing THEN Finish("Singular", "") ELSE pc' = "propose" /\ UNCHANGED res
  /\ UNCHANGED <<cfg, iter, pt, base, cols, prop, delta>>

---------------------------------------------------------------------------
(* The step *)

RawStep == VNeg(MV(jac.inv, base.F))

Propose ==
  /\ pc = "propose"
  /\ prop' = CASE ~jac.known -> <<>>
                [] "no_limit" \in Quirks -> VAdd(base.x, RawStep)
                [] OTHER -> LimitAll(cfg.iters, base.x, RawStep)
  /\ pc' = "step"
  /\ UNCHANGED <<cfg, iter, pt, base, jac, due, approx, cols, delta, res>>

EvalStep(px, rep, err) ==
  /\ pc = "step"
  /\ IF Usable(rep) \/ "swallow" \in Quirks
     THEN /\ pt' = Point(px, rep)
          /\ pc' = "moved"
          /\ UNCHANGED res
     ELSE /\ pt' = [pt EXCEPT !.x = px]
          /\ Finish("ModelEval", err)
  /\ prop' = px
  /\ UNCHANGED <<cfg, iter, base, jac, due, approx, cols, delta>>

Delta(p) == IF Approximates(cfg.method)
            THEN [s |-> VSub(IF "old_change" \in Quirks THEN prop ELSE p.x, base.x), y |-> VSub(IF "old_change" \in Quirks THEN p.E ELSE p.F, base.F), f |-> p.F, x |-> p.x]
            ELSE NoDelta

(* the error did not grow, or damping is not activated *)
Accept ==
  /\ pc = "moved"
  /\ pc' = "head"
  /\ delta' = Delta(pt)
  /\ UNCHANGED <<cfg, iter, pt, base, jac, due, approx, cols, prop, res>>

(* the error grew with an approximated jacobian: evaluate a true one next *)
Refuse ==
  /\ pc = "moved"
  /\ cfg.damping /\ Approximates(cfg.method) /\ approx
  /\ pc' = "head"
  /\ due' = ("never_due" \notin Quirks)
  /\ delta' = Delta(pt)
  /\ UNCHANGED <<cfg, iter, pt, base, jac, approx, cols, prop, res>>

Damp ==
  /\ pc = "moved"
  /\ cfg.damping /\ ~(Approximates(cfg.method) /\ approx)
  /\ pc' = "damp"
  /\ UNCHANGED <<cfg, iter, pt, base, jac, due, approx, cols, prop, delta, res>>

DampedPoint == IF "quarter" \in Quirks THEN VAdd(VScale("0.75", base.x), VScale("0.25", prop))
               ELSE VAdd(VScale("0.5", base.x), VScale("0.5", prop))

EvalDamped(px, rep, err) ==
  /\ pc = "damp"
  /\ IF Usable(rep)
     THEN /\ pt' = [Point(px, rep) EXCEPT !.acc = IF "damp_flag" \in Quirks THEN pt.acc ELSE @]
          /\ delta' = Delta(pt')
          /\ pc' = "head"
          /\ UNCHANGED res
     ELSE /\ pt' = [pt EXCEPT !.x = px]
          /\ delta' = delta
          /\ Finish("ModelEval", err)
  /\ UNCHANGED <<cfg, iter, base, jac, due, approx, cols, prop>>
=============================================================================
