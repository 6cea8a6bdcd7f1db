------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* What the constructors of the parameters accept (iteratives, residuals,  *)
(* jacobians, solver), and what is read back.  A call is a record with the *)
(* name of the constructor in fn.                                          *)
(***************************************************************************)
EXTENDS F64, Naturals, Sequences, TLC

Positive(v) == FLt("0.0", v)           \* FALSE for NaN
StepsOk(c) == Positive(c.msa) /\ Positive(c.msr)
BoundsOk(c) == FLt(c.lo, c.hi)         \* FALSE for NaN
PerturbOk(c) == Positive(c.dxa) /\ Positive(c.dxr)
Square(m) == \A i \in 1..Len(m) : Len(m[i]) = Len(m)
Shape(m) == <<Len(m), IF m = <<>> THEN 0 ELSE Len(m[1])>>

Accepted(c) ==
  CASE c.fn = "iter"   -> StepsOk(c) /\ BoundsOk(c)
    [] c.fn \in {"iterfd", "extend"} -> StepsOk(c) /\ BoundsOk(c) /\ PerturbOk(c)
    [] c.fn = "config" -> Len(c.stop) = Len(c.upd)
    [] c.fn = "values" -> Len(c.l) = Len(c.r)
    [] c.fn = "jacs"   -> Shape(c.dl) = Shape(c.dr) /\ Square(c.dl)
    [] c.fn = "solver" -> LET n == IF c.default THEN c.guess ELSE c.n
                          IN n = c.guess /\ n = c.iters /\ n = c.res
    [] c.fn \in {"residual", "params", "defaults"} -> TRUE

FSameSeq(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FSame(u[i], v[i])
FSameRows(m, n) == Len(m) = Len(n) /\ \A i \in 1..Len(m) : FSameSeq(m[i], n[i])
PlainSame(c, b) == FSame(c.msa, b.msa) /\ FSame(c.msr, b.msr) /\ FSame(c.lo, b.lo) /\ FSame(c.hi, b.hi)
FdSame(c, b) == PlainSame(c, b) /\ FSame(c.dxa, b.dxa) /\ FSame(c.dxr, b.dxr) /\ c.pm = b.pm
Unlimited == [msa |-> "Infinity", msr |-> "Infinity", lo |-> "-Infinity", hi |-> "Infinity",
              dxa |-> "5.0E-8", dxr |-> "5.0E-8", pm |-> "Max"]

(* b: what the accepted object says of itself *)
ReadBack(c, b) ==
  CASE c.fn = "iter"   -> PlainSame(c, b)
    [] c.fn = "iterfd" -> FdSame(c, b)
    [] c.fn = "extend" -> FdSame(c, b) /\ PlainSame(c, b.inner)
    [] c.fn = "residual" -> b.stop = c.stop /\ b.upd = c.upd /\ b.stops = <<c.stop, "Abs">> /\ b.upds = <<c.upd, "Abs">>
    [] c.fn = "config" -> b.n = Len(c.stop) /\ b.stop = c.stop /\ b.upd = c.upd
    [] c.fn = "values" -> b.n = Len(c.l) /\ FSameSeq(b.l, c.l) /\ FSameSeq(b.r, c.r)
    [] c.fn = "jacs"   -> FSameRows(b.dl, c.dl) /\ FSameRows(b.dr, c.dr)
    [] c.fn = "params" -> b.n = c.n /\ b.maxiter = c.maxiter /\ FSame(b.tol, c.tol) /\ b.method = c.method /\ b.damping = c.damping
    [] c.fn = "solver" -> b.n = c.iters
    [] c.fn = "defaults" -> /\ Len(b.plain) = c.n /\ \A i \in 1..c.n : PlainSame(Unlimited, b.plain[i])
                            /\ Len(b.fd) = c.n /\ \A i \in 1..c.n : FdSame(Unlimited, b.fd[i])
                            /\ b.stop = [i \in 1..c.n |-> "Abs"] /\ b.upd = [i \in 1..c.n |-> "Abs"]
=============================================================================
