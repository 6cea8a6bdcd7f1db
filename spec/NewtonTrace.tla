----------------------------- MODULE NewtonTrace -----------------------------
(***************************************************************************)
(* Trace validation: behaviours recorded from the real RootFinder (harness)*)
(* against Newton.  Every trace of the file is one behaviour of this       *)
(* module: the recorded request of the solver (an evaluation, a request of *)
(* the jacobian, the return) must be the one Newton makes from the state   *)
(* it is in, and the recorded reply of the model drives Newton on.         *)
(*                                                                         *)
(* When the recorded request is not the one of Newton the behaviour is     *)
(* blamed: `bad' receives the properties contradicted, and the rest of     *)
(* this resolution is skipped.  A few properties are also checked directly *)
(* on the events, whatever Newton thinks (module operators D...).          *)
(*                                                                         *)
(* The values in a trace are those of the implementation, except that the  *)
(* points are compared with the ones Newton computes, within a tolerance   *)
(* that covers rounding (Tol).                                             *)
(***************************************************************************)
EXTENDS Newton, Json, IOUtils

CONSTANT Prop       \* the property to decide, "ALL" for every one

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
  tid,      \* trace
  i,        \* next event
  mode,     \* "idle" between resolutions, "run", "lost", "crashed", "end"
  mem,      \* memory of the model right after the last iterate was evaluated
  fresh,    \* the next evaluation has to start from mem
  last,     \* last damping decision: "none", "accept", "refuse", "damp"
  prev,     \* iteratives the previous iteration started from
  solves,   \* resolutions begun
  elog,     \* the log entries expected so far
  vague,    \* the expected log is not known (an ambiguous decision)
  bad,      \* violations: records [p, at, m]
  seen,     \* coverage labels
  cnt       \* [known, open] steps compared with a value, left open

tvars == <<tid, i, mode, mem, fresh, last, prev, solves, elog, vague, bad, seen, cnt>>

---------------------------------------------------------------------------
T == Traces[tid]
EvOf(t, k) == IF k <= Len(Traces[t].ev) THEN Traces[t].ev[k] ELSE [e |-> "none"]
Ev(k) == EvOf(tid, k)
E0 == Ev(i)
Debug == T.debug
(* the log is activated before resolution T.from (counted from 0) and, if     *)
(* T.again >= 0, once more before resolution T.again: it starts again         *)
Active == Debug /\ solves > T.from
Entry(es) == IF Active THEN elog \o es ELSE elog

QN == cfg.method # "NR"
NonAbsUpd  == \E k \in 1..N : cfg.upd[k] # "Abs"
NonAbsStop == \E k \in 1..N : cfg.stop[k] # "Abs"
Limited(p) == FIsFinite(p.msa) \/ FIsFinite(p.msr) \/ FIsFinite(p.lo) \/ FIsFinite(p.hi)
AnyLimit == \E k \in 1..N : Limited(cfg.iters[k])
If(c, S) == IF c THEN S ELSE {}
Bads(S, m) == {[p |-> q, at |-> i, m |-> m] : q \in S}

---------------------------------------------------------------------------
(* Points *)

U4 == "1.0E-15"
EqPoint(x, y) == \A k \in 1..N : FClose(x[k], y[k], "0.0", "0.0")

IsColumn(x, k) == LET p == PerturbedPoint(k) IN \A j \in 1..N : FClose(x[j], p[j], IF j = k THEN U4 ELSE "0.0", "0.0")
MovesOnly(x, k) == \A j \in 1..N \ {k} : FClose(x[j], base.x[j], "0.0", "0.0")
LooksPerturbed(x) == \E k \in 1..N : IsColumn(x, k)
Mid(a, b) == [k \in 1..N |-> FAdd(FMul("0.5", a[k]), FMul("0.5", b[k]))]
IsMid(x, a, b) == LET m == Mid(a, b)
                  IN \A k \in 1..N : FClose(x[k], m[k], "0.0", FMul("2.0E-15", FMax(FAbs(a[k]), FAbs(b[k]))))

InsideBounds(x) == \A k \in 1..N :
  LET p == cfg.iters[k]
  IN ~FLt(x[k], p.lo) /\ ~FLt(p.hi, x[k]) /\ (FIsNaN(x[k]) => ~FIsFinite(p.lo) /\ ~FIsFinite(p.hi))
InsideSteps(x) == \A k \in 1..N :
  LET p == cfg.iters[k]
      m == MaxStep(p, base.x[k])
  IN \/ FIsNaN(base.x[k]) \/ FIsNaN(x[k]) \/ FEq(x[k], p.lo) \/ FEq(x[k], p.hi)
     \/ FLe(FAbs(FSub(x[k], base.x[k])),
            FAdd(FMul(m, "1.000000001"), FMul("1.0E-12", FAdd(FAbs(base.x[k]), FAbs(Perturbation(cfg.iters[k], base.x[k]))))))

(* What rounding may change in component k of a step *)
FScale == IF cfg.provided \/ Len(cols) < N THEN VNorm(base.F) ELSE FMax(VNorm(base.F), VNorm(cols[N]))
Tol(k) == FAdd(FMul("1.0E-9", AbsDot(jac.inv[k], base.F)),
          FAdd(FMul("4.0", FMul(jac.unc, FMul(MNorm(jac.inv), FScale))),
               FMul("4.0E-15", FAdd(FAbs(base.x[k]), FAbs(Perturbation(cfg.iters[k], base.x[k]))))))
StepKnown == prop # <<>>
StepMatches(x) ==
  StepKnown => LET raw == RawStep
               IN \A k \in 1..N : ~FIsFinite(raw[k]) \/ ~FIsFinite(base.x[k]) \/ FClose(x[k], prop[k], "0.0", Tol(k))

---------------------------------------------------------------------------
(* Blame: the properties contradicted when the request seen is not the one expected *)

ReEval == IF QN THEN {"C06"} ELSE {"C05"}
Again(S) == S \cup If(solves > 1 /\ \A b \in bad : b.at < 0, {"C16"})

BlameColumn(x) ==
  LET k == Len(cols) + 1
      skipped == {"C04", "C13"} \cup ReEval \cup If(last = "refuse", {"C09"})
  IN IF N > 1 /\ (MovesOnly(x, k) \/ LooksPerturbed(x)) THEN {"C13", "C04"}
     ELSE If(prev # <<>> /\ IsMid(x, prev, base.x), {"C09"}) \cup skipped

StepLaw == CASE cfg.method = "NR" -> {"C05"} [] cfg.method = "SN" -> {"C06"}
             [] approx -> {"C07"} [] OTHER -> {"C06", "C07"}
BlameStep(x) ==
  LET wrong == StepLaw \cup If(AnyLimit, {"C08"}) \cup If(NonAbsUpd, {"C15"})
               \cup If(~approx /\ cfg.provided /\ NonAbsUpd, {"C14"})
               \cup If(~approx /\ ~cfg.provided, {"C13"})
      off == If(~InsideBounds(x) \/ ~InsideSteps(x), {"C08"})
      unexpected == If(LooksPerturbed(x), {"C04"} \cup ReEval)
      damped == If(prev # <<>> /\ IsMid(x, prev, base.x), {"C09"})
  IN wrong \cup off \cup unexpected \cup damped

AfterEnd ==
  CASE res.kind \in {"Ok", "Final"} -> {"C03", "C04"} \cup If(~pt.acc, {"C10"}) \cup If(NonAbsStop, {"C15"})
    [] res.kind = "NonConvergence"  -> {"C03", "C04"}
    [] res.kind = "Singular"        -> {"C12"}
    [] OTHER                        -> {"C11", "C04"}

(* evaluated elsewhere once the last iterate is known, then returned *)
LeftElsewhere(x) ==
  LET n == Ev(i + 1)
  IN pc = "done" /\ res.kind \in {"Ok", "Final", "NonConvergence"} /\ ~VSame(x, pt.x) /\ n.e = "ret" /\ n.kind = res.kind

BlameEval(x) ==
  CASE pc = "init"   -> {"C04"} \cup If(~QN, {"C05"})
    [] pc = "column" -> BlameColumn(x)
    [] pc = "ask"    -> {"C04"} \cup ReEval \cup If(last = "refuse", {"C09"})
    [] pc = "step"   -> BlameStep(x)
    [] pc = "damp"   -> {"C09", "C04"}
    [] OTHER         -> AfterEnd \cup If(last = "damp", {"C09"}) \cup If(LeftElsewhere(x), {"C02"})

BlameJac ==
  CASE pc = "done" -> AfterEnd
    [] pc = "damp" -> {"C09", "C04"} \cup ReEval
    [] OTHER       -> {"C04"} \cup ReEval

(* the solver returned (k: kind) where Newton goes on or returns something else *)
LastReply == LET S == {j \in 1..(i - 1) : Ev(j).e \in {"eval", "jac"}}
             IN IF S = {} THEN [e |-> "none", out |-> "ok"] ELSE Ev(CHOOSE j \in S : \A m \in S : m <= j)
BlameReturn(k) ==
  CASE k \in {"Panic", "Runaway"} ->
         {"C12"} \cup If(LastReply.out = "unus", {"C11"}) \cup If(LastReply.out = "inacc", {"C10", "C11"})
    [] k = "Crash" -> {"C12"}
    [] pc = "done" ->
         If({k, res.kind} = {"Ok", "Final"}, {"C10"}) \cup
         If(k \in {"Ok", "Final", "NonConvergence"} /\ res.kind \in {"Ok", "Final", "NonConvergence"} /\ {k, res.kind} # {"Ok", "Final"},
            {"C03"} \cup If(NonAbsStop, {"C15"})) \cup
         If(k = "Ok" /\ res.kind # "Ok", {"C01"}) \cup
         If(res.kind \in {"Initial", "ModelEval", "JacobianModel"}, {"C11"}) \cup
         If(res.kind = "Singular" \/ k = "Singular", {"C12"}) \cup
         If(k \in {"Initial", "ModelEval", "JacobianModel"}, {"C11"} \cup If(~pt.acc, {"C10"}))
    [] k = "Singular" ->
         {"C12"} \cup If(pc = "step" /\ approx, {"C07"}) \cup If(NonAbsUpd /\ cfg.provided, {"C14"}) \cup If(pc = "column", {"C13"})
    [] k \in {"Ok", "Final", "NonConvergence"} ->
         {"C03"} \cup If(pc \in {"init", "column", "damp"}, {"C04"}) \cup If(pc = "init", {"C02"}) \cup If(pc = "damp", {"C09"}) \cup If(NonAbsStop, {"C15"})
    [] OTHER -> {"C11"} \cup If(LastReply.out = "inacc", {"C10"})

---------------------------------------------------------------------------
(* Direct checks of event number i, whatever the state of Newton *)

LastEval == LET S == {j \in 1..(i - 1) : Ev(j).e = "eval"}
            IN IF S = {} THEN [e |-> "none"] ELSE Ev(CHOOSE j \in S : \A m \in S : m <= j)

(* an evaluation or a jacobian was answered by an error that ends the resolution *)
Fatal(e) == (e.e = "eval" /\ e.out = "unus") \/ (e.e = "jac" /\ e.out # "ok")

Failures == {"NonConvergence", "Final", "Initial", "ModelEval", "JacobianModel", "Singular"}
DReturn(e) ==
  LET le == LastEval
      E == StoppingResiduals(le.l, le.r, cfg.stop)
  IN If(e.kind = "Ok" /\ (le.e = "none" \/ le.out # "ok"), {"C01", "C10"})
     \cup If(e.kind = "Ok" /\ le.e # "none" /\ \E k \in 1..N : SurelyAbove(k, E[k], cfg.tol), {"C01"} \cup If(NonAbsStop, {"C15"}))
     \cup If(e.kind = "Final" /\ le.e # "none" /\ le.out # "inacc", {"C10"})
     \cup If(e.kind \in {"Ok", "Final", "NonConvergence"}
             /\ (e.dirty \/ le.e = "none" \/ ~VSame(e.x, le.x) \/ ~VSame(e.l, le.l) \/ ~VSame(e.r, le.r)), {"C02"})
     \cup If(e.kind \in {"Panic", "Runaway"}, {"C12"})
     \cup LET p == Ev(i - 1)
              said == i > 1 /\ Fatal(p)
              sort == IF said THEN p.out ELSE e.sort
              cause == IF said THEN p.err ELSE e.cause
          IN If(e.kind \in Failures /\ ~(Len(e.says) = 2 /\ \A k \in 1..2 : e.says[k] = Message(e.kind, sort, cause)), {"C28"})
DFatal(e) ==
  LET n == Ev(i + 1)
  IN If(Fatal(e) /\ ~(/\ n.e = "ret"
                      /\ n.kind \in {"Initial", "ModelEval", "JacobianModel"}
                      /\ n.err = e.out \o " " \o e.err), {"C11"})

(* the log when the model is called: complete for the points evaluated so far, nothing else *)
Points(lg) == Len(SelectSeq(lg, LAMBDA x : x.t # "jac"))
Jacs(lg, maybe) == Len(SelectSeq(lg, LAMBDA x : x.t = "jac" /\ (maybe \/ ~x.opt)))
DLog(e) ==
  If(Debug /\ "log" \in DOMAIN e /\ ~e.log.grows, {"C19"})
  \cup If(Debug /\ "log" \in DOMAIN e /\ mode = "run" /\ ~vague
          /\ \/ e.log.junk \/ e.log.points # Points(elog)
             \/ e.log.jacs \notin Jacs(elog, FALSE)..Jacs(elog, TRUE), {"C19"})

Direct(e) ==
  CASE e.e = "ret" -> DReturn(e) \cup DLog(e)
    [] e.e \in {"eval", "jac"} -> DFatal(e) \cup DLog(e)
    [] e.e = "hang" -> {"C12"}
    [] OTHER -> DLog(e)

---------------------------------------------------------------------------
(* The log *)

PointEntry(t, k, p) == [t |-> t, k |-> k, x |-> p.x, l |-> p.l, r |-> p.r, E |-> p.E]
JacEntry(opt) == [t |-> "jac", opt |-> opt, shown |-> jac'.shown, m |-> jac'.m, inv |-> jac'.inv,
                  known |-> jac'.known, unc |-> jac'.unc]

MethodText(m) ==
  CASE m = "NR" -> "Newton-Raphson"
    [] m = "SN" -> "Quasi Newton: Jacobian matrix behavior: Frozen Jacobian matrix"
    [] OTHER -> "Quasi Newton: Jacobian matrix behavior: Jacobian matrix approximated" \o
         (CASE Family(m) = "B1" -> "Broyden First Method" [] Family(m) = "B2" -> "Broyden Second Method"
            [] Family(m) = "G1" -> "Greenstadt First Method" [] OTHER -> "Greenstadt Second Method")
NormText(m) == CASE m = "Abs" -> "Absolute Normalization" [] m = "Rel" -> "Relative Normalization"
                 [] OTHER -> "Adaptative Normalization"

ParamsMatch(a) ==
  /\ a.n = N /\ a.maxiter = cfg.maxiter /\ FSame(a.tol, cfg.tol)
  /\ a.damping = cfg.damping
  /\ a.method = MethodText(cfg.method)
  /\ Len(a.iters) = N /\ Len(a.stop) = N /\ Len(a.upd) = N
  /\ \A k \in 1..N :
       /\ FEq(a.iters[k].msa, cfg.iters[k].msa) /\ FEq(a.iters[k].msr, cfg.iters[k].msr)
       /\ FEq(a.iters[k].lo, cfg.iters[k].lo) /\ FEq(a.iters[k].hi, cfg.iters[k].hi)
       /\ T.plain \/ (/\ a.iters[k].pm = cfg.iters[k].pm
                      /\ FEq(a.iters[k].dxa, cfg.iters[k].dxa) /\ FEq(a.iters[k].dxr, cfg.iters[k].dxr))
       /\ a.stop[k] = NormText(cfg.stop[k]) /\ a.upd[k] = NormText(cfg.upd[k])

PointMatch(x, a) ==
  /\ x.t = "iter" => a.k = x.k
  /\ VSame(a.x, x.x) /\ VSame(a.l, x.l) /\ VSame(a.r, x.r)
  /\ Len(a.E) = Len(x.E)
  /\ \A k \in 1..Len(x.E) : IF cfg.stop[k] = "Abs" THEN FClose(a.E[k], x.E[k], "0.0", "0.0")
                                                    ELSE FClose(a.E[k], x.E[k], Band, "0.0")
  /\ VHasNaN(x.E) \/ FClose(a.max, VNorm(x.E), Band, "0.0")

ShownMatrix(a, m, unc) ==
  LET abs == FAdd("0.000501", FMul(FMul("4.0", FAdd(unc, "1.0E-12")), MNorm(m)))
      tol == IF FIsNaN(abs) THEN "0.000501" ELSE abs
  IN Len(a) = Len(m) /\ \A r, c \in 1..Len(m) : FClose(a[r][c], m[r][c], "1.0E-9", tol)
JacMatch(x, a) ==
  /\ a.shown = x.shown
  /\ x.known => /\ ShownMatrix(a.inv, x.inv, x.unc)
                /\ x.shown = "pair" => ShownMatrix(a.m, x.m, x.unc)

EntryMatch(x, a) ==
  /\ x.t = a.t
  /\ CASE x.t = "params" -> ParamsMatch(a)
       [] x.t \in {"iter", "damp"} -> PointMatch(x, a)
       [] x.t = "jac" -> (x.opt \/ JacMatch(x, a))
       [] OTHER -> TRUE

RECURSIVE LogMatch(_, _)
LogMatch(xs, as) ==
  IF xs = <<>> THEN as = <<>>
  ELSE LET x == Head(xs)
           optional == x.t = "jac" /\ x.opt
       IN IF as # <<>> /\ EntryMatch(x, Head(as)) THEN LogMatch(Tail(xs), Tail(as))
          ELSE optional /\ LogMatch(Tail(xs), as)

---------------------------------------------------------------------------
TInit ==
  /\ tid \in 1..Len(Traces)
  /\ Init(Traces[tid].cfg)
  /\ i = 1 /\ mode = "idle" /\ mem = <<>> /\ fresh = FALSE /\ last = "none" /\ prev = <<>>
  /\ solves = 0 /\ elog = <<>> /\ vague = FALSE /\ bad = {} /\ seen = {}
  /\ cnt = [known |-> 0, open |-> 0]

Begin ==
  /\ mode = "idle" /\ E0.e = "begin"
  /\ Restart([cfg EXCEPT !.provided = E0.provided])
  /\ i' = i + 1 /\ mode' = "run" /\ mem' = E0.mem /\ fresh' = FALSE /\ last' = "none" /\ prev' = <<>>
  /\ solves' = solves + 1
  /\ IF Debug /\ solves = T.again THEN elog' = <<>> /\ vague' = FALSE ELSE UNCHANGED <<elog, vague>>
  /\ UNCHANGED <<tid, bad, seen, cnt>>

---------------------------------------------------------------------------
(* Newton's own decisions, resolved by looking at the next event where rounding decides *)

Ambiguous(may, maynot) == may /\ maynot
WantsStop ==
  CASE ~MayNotConverge -> TRUE
    [] ~MayConverge -> FALSE
    [] OTHER -> \/ E0.e = "ret" /\ E0.kind \in {"Ok", "Final"}
                \/ E0.e # "ret" /\ iter = cfg.maxiter
(* rounding (or a NaN) decides about the growth: give this resolution up *)
Undecidable == cfg.damping /\ Ambiguous(MayGrow, MayNotGrow)
SingularNext == E0.e = "ret" /\ E0.kind = "Singular"

HeadStep ==
  IF WantsStop THEN Stop(TRUE)
  ELSE IF iter >= cfg.maxiter THEN Stop(FALSE) ELSE StartIteration

MatrixStep ==
  IF cfg.method = "NR" \/ due THEN NeedJacobian
  ELSE IF cfg.method = "SN" THEN KeepJacobian
  ELSE LET k == Updated IN UpdateJacobian(UpdatesMatrix(cfg.method) /\ MayBeSingular(k) /\ SingularNext)

BuiltStep ==
  LET k == TrueJacobian
  IN UseJacobian(IF MustBeSingular(k) THEN TRUE ELSE MayBeSingular(k) /\ SingularNext)

MovedStep ==
  IF ~cfg.damping THEN Accept
  ELSE IF ~MayGrow THEN Accept
  ELSE IF Approximates(cfg.method) /\ approx THEN Refuse ELSE Damp

GiveUp ==
  /\ mode = "run" /\ pc = "moved" /\ Undecidable
  /\ mode' = "lost" /\ vague' = TRUE
  /\ seen' = seen \cup {"given up"}
  /\ UNCHANGED <<vars, tid, i, mem, fresh, last, prev, solves, elog, bad, cnt>>

Silent ==
  /\ mode = "run"
  /\ ~(pc = "moved" /\ Undecidable)
  /\ \/ pc = "head" /\ HeadStep
     \/ pc = "matrix" /\ MatrixStep
     \/ pc = "built" /\ BuiltStep
     \/ pc = "propose" /\ Propose
     \/ pc = "moved" /\ MovedStep
  /\ last' = IF pc = "moved" THEN (IF pc' = "damp" THEN "damp" ELSE IF cfg.damping /\ due' /\ ~due THEN "refuse" ELSE "accept") ELSE last
  /\ prev' = IF pc = "head" /\ pc' = "matrix" THEN base.x ELSE prev
  /\ elog' = CASE pc = "propose" -> Entry(<<JacEntry(FALSE)>>)
               [] pc = "built" /\ pc' = "done" -> Entry(<<JacEntry(TRUE)>>)
               [] pc = "matrix" /\ pc' = "done" -> Entry(<<JacEntry(TRUE)>>)
               [] pc = "moved" /\ due' /\ ~due -> Entry(<<[t |-> "refused"]>>)
               [] OTHER -> elog
  /\ seen' = seen \cup
       (CASE pc = "moved" -> (IF pc' = "damp" THEN {"damp"} ELSE IF due' /\ ~due THEN {"refuse"} ELSE {})
          [] pc = "propose" ->
               {cfg.method \o (IF approx THEN ":approx" ELSE IF cfg.provided THEN ":provided" ELSE ":fd")}
               \cup If(jac.known /\ \E k \in 1..N : LimitActive(cfg.iters[k], base.x[k], RawStep[k]), {"limited"})
               \cup If(~jac.known, {"open"})
          [] pc' = "done" -> {res'.kind}
          [] OTHER -> {})
  /\ UNCHANGED <<tid, i, mode, mem, fresh, solves, vague, bad, cnt>>

---------------------------------------------------------------------------
(* A request of the solver *)

Expected(x) ==
  CASE pc = "init"   -> EqPoint(x, cfg.guess)
    [] pc = "column" -> IsColumn(x, Len(cols) + 1)
    [] pc = "step"   -> InsideBounds(x) /\ InsideSteps(x) /\ StepMatches(x)
    [] pc = "damp"   -> IsMid(x, base.x, prop)
    [] OTHER -> FALSE

Lose(S, m) ==
  /\ bad' = bad \cup Bads(Again(S), m)
  /\ mode' = IF E0.e = "ret" THEN "idle" ELSE "lost"
  /\ UNCHANGED <<vars, mem, fresh, last, prev, elog, cnt, seen>>
  /\ vague' = TRUE

RepOf(e) == [l |-> e.l, r |-> e.r, out |-> e.out]
MemBad(e) == (fresh \/ pc = "column") /\ ~VSame(e.mb, mem)

TakeEval ==
  LET e == E0
      rep == RepOf(e)
      err == e.out \o " " \o e.err
  IN IF pc \in {"init", "column", "step", "damp"} /\ Expected(e.x)
     THEN /\ \/ EvalInitial(e.x, rep, err)
             \/ EvalColumn(e.x, rep, err)
             \/ EvalStep(e.x, rep, err)
             \/ EvalDamped(e.x, rep, err)
          /\ bad' = bad \cup Bads(Direct(e), "evaluation") \cup
                    Bads(If(MemBad(e), {"C13"}), "memory not restored")
          /\ mem' = IF pc = "column" THEN mem ELSE e.ma
          /\ fresh' = (pc = "column")
          /\ mode' = "run"
          /\ elog' = IF ~Usable(rep) THEN (IF pc = "column" THEN Entry(<<JacEntry(TRUE)>>) ELSE elog)
                     ELSE CASE pc = "init" -> Entry(<<[t |-> "params"], PointEntry("iter", 0, pt')>>)
                            [] pc = "step" -> Entry(<<PointEntry("iter", iter, pt')>>)
                            [] pc = "damp" -> Entry(<<PointEntry("damp", iter, pt')>>)
                            [] OTHER -> elog
          /\ seen' = seen \cup {pc \o ":" \o e.out} \cup If(Len(e.mb) > 0 /\ fresh, {"memory"})
                          \cup If(pc' = "done", {res'.kind})
          /\ cnt' = IF pc # "step" THEN cnt
                    ELSE IF StepKnown THEN [cnt EXCEPT !.known = @ + 1] ELSE [cnt EXCEPT !.open = @ + 1]
          /\ UNCHANGED <<last, prev, vague>>
     ELSE Lose(BlameEval(e.x) \cup Direct(e), "evaluation not expected, pc = " \o pc)

TakeJac ==
  LET e == E0
      rep == [dl |-> e.dl, dr |-> e.dr, out |-> e.out]
  IN IF pc = "ask" /\ EqPoint(e.x, base.x)
     THEN /\ AskJacobian(rep, e.out \o " " \o e.err)
          /\ bad' = bad \cup Bads(Direct(e), "jacobian")
          /\ elog' = IF e.out # "ok" THEN Entry(<<JacEntry(TRUE)>>) ELSE elog
          /\ seen' = seen \cup {"ask:" \o e.out} \cup If(pc' = "done", {res'.kind})
          /\ UNCHANGED <<mem, fresh, last, prev, vague, cnt, mode>>
     ELSE Lose(BlameJac \cup Direct(e), "jacobian not expected, pc = " \o pc)

TakeReturn ==
  LET e == E0
  IN IF pc = "done" /\ e.kind = res.kind /\ (res.err = "" \/ e.err = res.err)
     THEN /\ bad' = bad \cup Bads(Direct(e) \cup If(e.kind \in {"Ok", "Final", "NonConvergence"} /\ ~VSame(e.x, pt.x), {"C02"}), "return")
          /\ mode' = "idle"
          /\ UNCHANGED <<vars, mem, fresh, last, prev, elog, vague, seen, cnt>>
     ELSE Lose(BlameReturn(e.kind) \cup Direct(e), "returned " \o e.kind \o ", expected " \o (IF pc = "done" THEN res.kind ELSE pc))

(* the model panicked: nothing but the panic may follow *)
TakeCrash ==
  IF pc = "ask" \/ (pc \in {"init", "column", "step", "damp"} /\ Expected(E0.x))
  THEN /\ mode' = "crashed"
       /\ bad' = bad \cup Bads(Direct(E0), "crash")
       /\ seen' = seen \cup {pc \o ":crash"}
       /\ UNCHANGED <<vars, mem, fresh, last, prev, elog, vague, cnt>>
  ELSE Lose(BlameEval(E0.x) \cup Direct(E0), "evaluation not expected, pc = " \o pc)

(* the script of the model has no reply: a history that took another of the  *)
(* branches left open, unless this request is not the one expected           *)
TakeOverrun ==
  IF (pc = "ask" /\ E0.what = "jac") \/ (pc \in {"init", "column", "step", "damp"} /\ E0.what = "eval" /\ Expected(E0.x))
  THEN /\ mode' = "lost" /\ vague' = TRUE
       /\ seen' = seen \cup {"script over"}
       /\ bad' = bad
       /\ UNCHANGED <<vars, mem, fresh, last, prev, elog, cnt>>
  ELSE Lose((IF pc = "done" THEN AfterEnd ELSE IF E0.what = "jac" THEN BlameJac ELSE BlameEval(E0.x)) \cup {"C04"}, "more model calls than expected")

Request ==
  /\ mode = "run" /\ pc \in {"init", "column", "ask", "step", "damp", "done"}
  /\ E0.e \in {"eval", "jac", "ret", "crash", "overrun", "hang"}
  /\ CASE E0.e = "eval" -> TakeEval
       [] E0.e = "jac" -> TakeJac
       [] E0.e = "ret" -> TakeReturn
       [] E0.e = "crash" -> TakeCrash
       [] E0.e = "overrun" -> TakeOverrun
       [] OTHER -> Lose({"C12"}, "does not return")
  /\ i' = i + 1
  /\ UNCHANGED <<tid, solves>>

Crashed ==
  /\ mode = "crashed"
  /\ i' = i + 1
  /\ IF E0.e = "ret" /\ E0.kind = "Crash"
     THEN mode' = "idle" /\ bad' = bad
     ELSE mode' = (IF E0.e = "ret" THEN "idle" ELSE "lost") /\ bad' = bad \cup Bads({"C12"}, "panic of the model swallowed")
  /\ UNCHANGED <<vars, tid, mem, fresh, last, prev, solves, elog, vague, seen, cnt>>

Lost ==
  /\ mode = "lost" /\ E0.e # "none"
  /\ i' = i + 1
  /\ mode' = IF E0.e = "ret" \/ E0.e = "hang" THEN "idle" ELSE "lost"
  /\ bad' = bad \cup Bads(Direct(E0), "after a first violation: " \o E0.e)
  /\ UNCHANGED <<vars, tid, mem, fresh, last, prev, solves, elog, vague, seen, cnt>>

(* the solver could not be built from valid parameters *)
Refused ==
  /\ mode = "idle" /\ E0.e = "refused"
  /\ i' = i + 1
  /\ bad' = bad \cup Bads({"C22"}, "valid parameters refused")
  /\ UNCHANGED <<vars, tid, mode, mem, fresh, last, prev, solves, elog, vague, seen, cnt>>

(* the whole log, once every resolution is over *)
TheLog ==
  /\ mode = "idle" /\ E0.e = "text"
  /\ i' = i + 1
  /\ bad' = bad \cup
       Bads(If(~vague /\ ~LogMatch(elog, E0.entries), {"C18"}), "log")
       \cup Bads(If(~vague /\ (E0.junk \/ E0.header # 1), {"C19"}), "log")
  /\ seen' = seen \cup If(~vague, {"log"})
  /\ UNCHANGED <<vars, tid, mode, mem, fresh, last, prev, solves, elog, vague, cnt>>

End ==
  /\ mode # "end" /\ E0.e = "none"
  /\ mode' = "end"
  /\ PrintT(<<"VERDICT", T.id, bad, seen, cnt, i>>)
  /\ UNCHANGED <<vars, tid, i, mem, fresh, last, prev, solves, elog, vague, bad, seen, cnt>>

TNext == Begin \/ GiveUp \/ Silent \/ Request \/ Crashed \/ Lost \/ Refused \/ TheLog \/ End
TSpec == TInit /\ [][TNext]_<<vars, tvars>>

---------------------------------------------------------------------------
Holds == \A b \in bad : Prop # "ALL" /\ b.p # Prop
=============================================================================
