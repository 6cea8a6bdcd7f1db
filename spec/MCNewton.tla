------------------------------ MODULE MCNewton ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Newton on small configurations: the replies   *)
(* of the model are chosen in finite sets.  hist is what an observer of    *)
(* the model sees, and the properties (C01 ... C16) are stated on hist and *)
(* on the result only, independently of the actions of Newton.             *)
(* The terminal histories are exported (Export) and replayed in the real   *)
(* code, see tools/check.py.                                               *)
(***************************************************************************)
EXTENDS Newton, Json

CONSTANTS
  Configs,     \* set of configurations
  Replies(_),  \* replies to evaluations for a configuration: set of [l, r, out]
  Asked(_),    \* replies to get_jacobian: set of [dl, dr, out]
  MaxSolves    \* calls to solve

VARIABLES
  hist,        \* events [k, x, l, r, E, F, out] / [k |-> "ask", x, dl, dr, out], k as in Newton's requests
  solves       \* resolutions begun

mvars == <<vars, hist, solves>>

P0 == [msa |-> "Infinity", msr |-> "Infinity", lo |-> "-Infinity", hi |-> "Infinity", dxa |-> "0.5", dxr |-> "0.25", pm |-> "Max"]
Cfg(method, prov, damping, maxiter, p, stop, upd, guess) ==
  [n |-> Len(guess), method |-> method, provided |-> prov, damping |-> damping, maxiter |-> maxiter,
   tol |-> "1.0E-6", iters |-> p, stop |-> stop, upd |-> upd, guess |-> guess]

---------------------------------------------------------------------------
MInit == \E c \in Configs : Init(c) /\ hist = <<>> /\ solves = 1

EvalEvent(k, px, rep) ==
  [k |-> k, it |-> iter, x |-> px, l |-> rep.l, r |-> rep.r, out |-> rep.out,
   E |-> StoppingResiduals(rep.l, rep.r, cfg.stop), F |-> NormalizeAll(rep.l, rep.r, cfg.upd)]

Requested == IF pc = "column" THEN PerturbedPoint(Len(cols) + 1)
             ELSE IF pc = "damp" THEN DampedPoint
             ELSE IF prop = <<>> THEN LimitAll(cfg.iters, base.x, [k \in 1..N |-> "0.25"]) ELSE prop

Evaluate ==
  /\ pc \in {"init", "column", "step", "damp"}
  /\ \E rep \in Replies(cfg) :
       /\ \/ EvalInitial(Requested, rep, rep.out)
          \/ EvalColumn(Requested, rep, rep.out)
          \/ EvalStep(Requested, rep, rep.out)
          \/ EvalDamped(Requested, rep, rep.out)
       /\ hist' = Append(hist, EvalEvent(pc, Requested, rep))
  /\ UNCHANGED solves

Ask ==
  /\ pc = "ask"
  /\ \E rep \in Asked(cfg) :
       /\ AskJacobian(rep, rep.out)
       /\ hist' = Append(hist, [k |-> "ask", it |-> iter, x |-> base.x, dl |-> rep.dl, dr |-> rep.dr, out |-> rep.out])
  /\ UNCHANGED solves

Grown == FLt(ErrOld, ErrNew)
Decide ==
  /\ \/ pc = "head" /\ IF Converged THEN Stop(TRUE) ELSE Stop(FALSE) \/ StartIteration
     \/ NeedJacobian
     \/ KeepJacobian
     \/ pc = "matrix" /\ UpdateJacobian(Approximates(cfg.method) /\ UpdatesMatrix(cfg.method) /\ (~Updated.known))
     \/ pc = "built" /\ UseJacobian(TrueJacobian.inv = <<>> \/ "all_singular" \in Quirks)
     \/ Propose
     \/ pc = "moved" /\ IF ~cfg.damping \/ ~Grown THEN Accept
                         ELSE IF approx /\ Approximates(cfg.method) THEN Refuse ELSE Damp
  /\ UNCHANGED <<hist, solves>>

(* a new call to solve on the same solver *)
Again == /\ pc = "done" /\ solves < MaxSolves
         /\ Restart(cfg)
         /\ hist' = <<>> /\ solves' = solves + 1

Ended == pc = "done" /\ solves = MaxSolves /\ UNCHANGED mvars

MNext == Evaluate \/ Ask \/ Decide \/ Again \/ Ended
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(Evaluate \/ Ask \/ Decide \/ Again)

---------------------------------------------------------------------------
(* Reading of a history *)
Kinds(S) == SelectSeq(hist, LAMBDA e : e.k \in S)
Count(S) == Len(Kinds(S))
LastOf(s) == s[Len(s)]
Done == pc = "done"
ReachedEnd == Done /\ res.kind \in {"Ok", "Final", "NonConvergence"}

(* the iterates: the initial guess and the last point of each iteration *)
MainPoints == Kinds({"init", "step", "damp"})
IterateOf(k) == LastOf(SelectSeq(MainPoints, LAMBDA e : e.it = k))
Begun == IF MainPoints = <<>> THEN -1 ELSE LastOf(MainPoints).it
StepOf(k) == SelectSeq(hist, LAMBDA e : e.k = "step" /\ e.it = k)
DampOf(k) == SelectSeq(hist, LAMBDA e : e.k = "damp" /\ e.it = k)
JacsOf(k) == SelectSeq(hist, LAMBDA e : e.k \in {"ask", "column"} /\ e.it = k)
Solved(e) == \A j \in 1..N : FLe(e.E[j], cfg.tol)
Norm(e) == VNorm(e.E)
TrueAt(k) == JacsOf(k) # <<>>
GrownAt(k) == StepOf(k) # <<>> /\ StepOf(k)[1].out # "unus" /\ FLt(Norm(IterateOf(k - 1)), Norm(StepOf(k)[1]))
QNUpd == cfg.method \notin {"NR", "SN"}

C01 == Done /\ res.kind = "Ok" => LET e == LastOf(hist) IN e.k \in {"init", "step", "damp"} /\ e.out = "ok" /\ Solved(e)
C02 == ReachedEnd => LET e == LastOf(hist) IN e.k \in {"init", "step", "damp"} /\ VSame(e.x, pt.x) /\ VSame(e.E, pt.E)
C03 == /\ \A k \in 0..(Begun - 1) : ~Solved(IterateOf(k))
       /\ Begun <= cfg.maxiter
       /\ Done /\ res.kind = "NonConvergence" => Begun = cfg.maxiter /\ ~Solved(IterateOf(Begun))
       /\ Done /\ res.kind \in {"Ok", "Final"} => Solved(IterateOf(Begun))
       /\ Done /\ Begun = cfg.maxiter /\ ~Solved(IterateOf(Begun)) /\ LastOf(hist).out # "unus" => res.kind = "NonConvergence"
C04 == /\ Count({"init"}) <= 1
       /\ \A k \in 1..cfg.maxiter :
            /\ Len(StepOf(k)) <= 1
            /\ Len(DampOf(k)) <= 1
            /\ (Begun > k => Len(StepOf(k)) = 1)
            /\ (cfg.provided => Len(JacsOf(k)) <= 1 /\ \A j \in 1..Len(JacsOf(k)) : JacsOf(k)[j].k = "ask")
            /\ (~cfg.provided => /\ Len(JacsOf(k)) <= N
                                 /\ \A j \in 1..Len(JacsOf(k)) : JacsOf(k)[j].k = "column"
                                 /\ (StepOf(k) # <<>> => Len(JacsOf(k)) \in {0, N}))
       /\ JacsOf(0) = <<>>
       /\ (ReachedEnd => JacsOf(cfg.maxiter + 1) = <<>>)
(* n = 1: the step from scalars alone *)
Slope1(k) ==
  LET b == IterateOf(k - 1)
      e == JacsOf(k)[1]
  IN IF e.k = "ask" THEN DNormalize(b.l[1], b.r[1], e.dl[1][1], e.dr[1][1], cfg.upd[1])
     ELSE FDiv(FSub(e.F[1], b.F[1]), FSub(e.x[1], b.x[1]))
NearTo(a, b) == ~FIsFinite(a) \/ ~FIsFinite(b) \/ FClose(a, b, "1.0E-9", "1.0E-9")
StepIs(k, slope) ==
  LET b == IterateOf(k - 1)
      raw == FNeg(FDiv(b.F[1], slope))
  IN ~FIsFinite(raw) \/ NearTo(StepOf(k)[1].x[1], Limit(cfg.iters[1], b.x[1], raw))
C05 == cfg.method = "NR" => \A k \in 1..Begun : StepOf(k) # <<>> =>
          TrueAt(k) /\ (N = 1 => StepIs(k, Slope1(k)))
C06 == cfg.method # "NR" => \A k \in 1..Begun :
          TrueAt(k) <=> (k = 1 \/ (cfg.damping /\ QNUpd /\ ~TrueAt(k - 1) /\ GrownAt(k - 1)))
(* SN with n = 1: the slope of the first iteration *)
C06b == cfg.method = "SN" /\ N = 1 => \A k \in 1..Begun : StepOf(k) # <<>> => StepIs(k, Slope1(1))
(* n = 1: every method of the family takes the secant *)
Secant1(k) == LET a == IterateOf(k - 2)
                  b == IterateOf(k - 1)
              IN FDiv(FSub(b.F[1], a.F[1]), FSub(b.x[1], a.x[1]))
(* no degenerate secant since the last true jacobian *)
RECURSIVE Regular(_)
Regular(k) == TrueAt(k) \/ (k > 1 /\ FIsFinite(Secant1(k)) /\ ~FIsZero(Secant1(k)) /\ Regular(k - 1))
C07 == QNUpd => \A k \in 1..Begun : StepOf(k) # <<>> =>
          /\ (N = 1 /\ Regular(k) => StepIs(k, IF TrueAt(k) THEN Slope1(k) ELSE Secant1(k)))
SecantHolds ==
  pc = "propose" /\ approx /\ jac.known =>
    LET s == delta.s
        y == delta.y
        a == IterateOf(iter - 1)
        b == IterateOf(iter - 2)
    IN /\ VSame(s, VSub(a.x, b.x)) /\ VSame(y, VSub(a.F, b.F))
       /\ \A j \in 1..N : FClose(MV(jac.inv, y)[j], s[j], "1.0E-6", "1.0E-6")
C08 == \A k \in 1..Begun : StepOf(k) # <<>> =>
          LET x == StepOf(k)[1].x
              b == IterateOf(k - 1).x
          IN \A j \in 1..N :
               /\ ~FLt(x[j], cfg.iters[j].lo) /\ ~FLt(cfg.iters[j].hi, x[j])
               /\ \/ ~FIsFinite(x[j])
                  \/ FEq(x[j], cfg.iters[j].lo) \/ FEq(x[j], cfg.iters[j].hi)
                  \/ FLe(FAbs(FSub(x[j], b[j])), FAdd("1.0E-12", FMin(cfg.iters[j].msa, FMul(cfg.iters[j].msr, FAbs(b[j])))))
C09 == \A k \in 1..Begun :
          /\ DampOf(k) # <<>> => /\ cfg.damping /\ GrownAt(k) /\ (QNUpd => TrueAt(k))
                                  /\ \A j \in 1..N : NearTo(DampOf(k)[1].x[j], FDiv(FAdd(IterateOf(k - 1).x[j], StepOf(k)[1].x[j]), "2.0"))
          /\ (Begun > k \/ ReachedEnd) /\ cfg.damping /\ GrownAt(k) /\ (QNUpd => TrueAt(k)) => DampOf(k) # <<>>
C10 == Done => /\ (res.kind = "Final") => Solved(LastOf(hist)) /\ LastOf(hist).out = "inacc"
               /\ (Solved(IterateOf(Begun)) /\ LastOf(hist).out = "inacc" /\ LastOf(hist).k # "ask" /\ LastOf(hist).k # "column") => res.kind = "Final"
               /\ ((\A j \in 1..Len(hist) : hist[j].out # "unus" /\ (hist[j].k = "ask" => hist[j].out = "ok"))
                     => res.kind \in {"Ok", "Final", "NonConvergence", "Singular"})
Fatal(e) == e.out = "unus" \/ (e.k = "ask" /\ e.out # "ok")
C11 == /\ \A j \in 1..Len(hist) : Fatal(hist[j]) => j = Len(hist) /\ Done
       /\ Done => LET e == LastOf(hist) IN
            Fatal(e) <=> /\ res.err = e.out
                         /\ res.kind = CASE e.k = "init" -> "Initial" [] e.k \in {"ask", "column"} -> "JacobianModel" [] OTHER -> "ModelEval"
C12 == /\ Len(hist) <= 1 + cfg.maxiter * (2 + (IF cfg.provided THEN 1 ELSE N))
       /\ Done /\ res.kind = "Singular" => (LastOf(hist).k \in {"ask", "column"} \/ QNUpd)
       /\ \A k \in 1..Begun : StepOf(k) # <<>> /\ TrueAt(k) /\ N = 1 => ~FIsZero(Slope1(k))
       /\ Done /\ res.kind = "Singular" /\ N = 1 =>
            LET d == IF TrueAt(Begun + 1) THEN Slope1(Begun + 1) ELSE Secant1(Begun + 1)
            IN ~FIsFinite(d) \/ FClose(d, "0.0", "0.0", "1.0E-10")
C13 == ~cfg.provided => \A k \in 1..cfg.maxiter : \A j \in 1..Len(JacsOf(k)) :
          LET x == JacsOf(k)[j].x
              b == IterateOf(k - 1).x
              p == cfg.iters[j]
              a == FMul(p.dxr, FAbs(b[j]))
          IN \A m \in 1..N : IF m # j THEN FEq(x[m], b[m])
                              ELSE FEq(x[m], FAdd(b[m], IF p.pm = "Sum" THEN FAdd(p.dxa, a) ELSE FMax(a, p.dxa))) \/ ~FIsFinite(b[m])
Fresh == pc = "init" => iter = 0 /\ due /\ ~approx /\ jac = NoJac /\ delta = NoDelta
C16 == Fresh
(* a text read by a user tells one result from another *)
Outcomes == {<<k, "">> : k \in {"NonConvergence", "Final", "Singular"}} \cup {<<"Initial", "unus">>, <<"ModelEval", "unus">>}
            \cup {<<"JacobianModel", s>> : s \in {"inacc", "unus"}}
C28 == Done /\ res.kind # "Ok" =>
         /\ <<res.kind, res.err>> \in Outcomes
         /\ \A o \in Outcomes, m \in {"e0", "j1", ""} :
              Message(o[1], o[2], m) = Message(res.kind, res.err, "e0") => o = <<res.kind, res.err>> /\ (res.err # "" => m = "e0")
Terminates == <>[](pc = "done")

---------------------------------------------------------------------------
Export == pc = "done" => PrintT("HIST " \o ToJson([cfg |-> cfg, hist |-> hist, res |-> res]))
=============================================================================
