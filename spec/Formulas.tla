------------------------------ MODULE Formulas ------------------------------
(***************************************************************************)
(* The documented formulas of the solver, over doubles.                    *)
(*   normalization   residuals/mod.rs, residuals/config.rs                 *)
(*   limits          iteratives/iterative_var.rs                           *)
(*   perturbations   iteratives/iterative_var_fd.rs                        *)
(*   quasi-Newton    solver/resolution_method.rs                           *)
(* Each formula that is compared with the implementation comes with a      *)
(* bound on what rounding alone may change ("unc": relative uncertainty),  *)
(* so that an implementation may evaluate it in another order.             *)
(***************************************************************************)
EXTENDS LinAlg, TLC

Eps == "2.220446049250313E-16"
FSum3(a, b, c) == FAdd(FAdd(a, b), c)
NumberOf(k) == ToString(k)
FIsZero(a) == FEq(a, "0.0")
FGt(a, b) == FLt(b, a)
FGe(a, b) == FLe(b, a)

---------------------------------------------------------------------------
(* Normalization *)

Normalize(l, r, meth) ==
  CASE meth = "Abs"   -> FSub(l, r)
    [] meth = "Rel"   -> IF FIsZero(l) /\ FIsZero(r) THEN "0.0"
                         ELSE FDiv(FSub(l, r), FDiv(FAbs(FAdd(l, r)), "2.0"))
    [] meth = "Adapt" -> FDiv(FSub(l, r), FAdd("1.0", FDiv(FAbs(FAdd(l, r)), "2.0")))

NormalizeAll(left, right, meths)  == [i \in 1..Len(left) |-> Normalize(left[i], right[i], meths[i])]
StoppingResiduals(left, right, meths) == VAbs(NormalizeAll(left, right, meths))

(* d/dz of Normalize(l(z), r(z)) with l' = dl and r' = dr, away from l + r = 0 *)
DNormalize(l, r, dl, dr, meth) ==
  LET diff  == FSub(l, r)
      ddiff == FSub(dl, dr)
      sum   == FAdd(l, r)
      dsum  == FAdd(dl, dr)
      sg    == FSignum(sum)
      hsum  == FDiv(FAbs(sum), "2.0")
      dhsum == FMul(FDiv(dsum, "2.0"), sg)
      den   == IF meth = "Adapt" THEN FAdd("1.0", hsum) ELSE hsum
  IN  IF meth = "Abs" THEN ddiff
      ELSE FDiv(FSub(FMul(ddiff, den), FMul(diff, dhsum)), FMul(den, den))

(* The magnitude of the terms DNormalize adds up: the scale of its rounding errors *)
DNormalizeMag(l, r, dl, dr, meth) ==
  LET diff  == FSub(l, r)
      adiff == FAdd(FAbs(dl), FAbs(dr))
      hsum  == FDiv(FAbs(FAdd(l, r)), "2.0")
      den   == IF meth = "Adapt" THEN FAdd("1.0", hsum) ELSE hsum
      cancel == FDiv(FAdd(FAbs(l), FAbs(r)), IF FIsZero(den) THEN "1.0" ELSE den)
  IN  IF meth = "Abs" THEN adiff
      ELSE FMul(FAdd("1.0", cancel),
                FDiv(FAdd(FMul(adiff, den), FMul(FAbs(diff), adiff)), FMul(den, den)))

DNormalizeAll(left, right, dleft, dright, meths) ==
  [i \in 1..Len(left) |-> [j \in 1..Len(left) |-> DNormalize(left[i], right[i], dleft[i][j], dright[i][j], meths[i])]]
DNormalizeAllMag(left, right, dleft, dright, meths) ==
  [i \in 1..Len(left) |-> [j \in 1..Len(left) |-> DNormalizeMag(left[i], right[i], dleft[i][j], dright[i][j], meths[i])]]

---------------------------------------------------------------------------
(* Limits of a step.  p is the parameters of one iterative:                *)
(* [msa, msr, lo, hi, ...] (maximal steps, bounds).                        *)

MaxStep(p, x) == FMin(p.msa, FMul(p.msr, FAbs(x)))
Clamp(p, x) == FMin(FMax(x, p.lo), p.hi)
LimitedStep(p, x, raw) == FMul(FMin(MaxStep(p, x), FAbs(raw)), FSignum(raw))
Limit(p, x, raw) == Clamp(p, FAdd(x, LimitedStep(p, x, raw)))
LimitAll(ps, x, raw) == [i \in 1..Len(x) |-> Limit(ps[i], x[i], raw[i])]
(* The limits change where this raw step leads *)
LimitActive(p, x, raw) == ~FEq(Limit(p, x, raw), FAdd(x, raw))
InBounds(p, x) == FLe(p.lo, x) /\ FLe(x, p.hi)

---------------------------------------------------------------------------
(* Perturbation of an iterative, p = [..., dxa, dxr, pm] *)

Perturbation(p, x) ==
  IF p.pm = "Max" THEN FMax(p.dxa, FMul(FAbs(x), p.dxr))
                  ELSE FAdd(p.dxa, FMul(FAbs(x), p.dxr))

---------------------------------------------------------------------------
(* Methods *)

Methods == {"NR", "SN", "BROY1", "BROY1_INV", "BROY2", "BROY2_INV",
            "GRST1", "GRST1_INV", "GRST2", "GRST2_INV"}
UpdatesMatrix(m)  == m \in {"BROY1", "BROY2", "GRST1", "GRST2"}
UpdatesInverse(m) == m \in {"BROY1_INV", "BROY2_INV", "GRST1_INV", "GRST2_INV"}
Approximates(m)   == UpdatesMatrix(m) \/ UpdatesInverse(m)
Family(m) == CASE m \in {"BROY1", "BROY1_INV"} -> "B1" [] m \in {"BROY2", "BROY2_INV"} -> "B2"
               [] m \in {"GRST1", "GRST1_INV"} -> "G1" [] m \in {"GRST2", "GRST2_INV"} -> "G2"
               [] OTHER -> "none"

(* The vector c of the general formula                                     *)
(*    H+ = H - (H y - s) c^T / (c^T y)                                     *)
(*    J+ = J - (J s - y) c^T J / (c^T J s)                                 *)
ChoiceC(fam, H, s, y, f) ==
  CASE fam = "B1" -> TMV(H, s)
    [] fam = "B2" -> y
    [] fam = "G1" -> f
    [] fam = "G2" -> TMV(H, MV(H, y))

(* General rank-one update M+ = M - (M u - v) d^T / (d^T u), and a bound    *)
(* unc+ of its relative uncertainty (first order, max norms) given that of  *)
(* M (unc), of u and v (u0) and the absolute one of d (ed).                 *)
RankOne(M, unc, u, v, d, ed, u0) ==
  LET n    == NumberOf(Len(M))
      w    == VSub(MV(M, u), v)
      den  == Dot(d, u)
      aden == FAbs(den)
      corr == MScale(FDiv("1.0", den), Outer(w, d))
      new  == MSub(M, corr)
      ew   == FAdd(FMul(FAdd(unc, u0), FMul(MNorm(M), VNorm(u))), FMul(u0, VNorm(v)))
      rden == FDiv(FMul(n, FMul(VNorm(u), FAdd(ed, FMul(u0, VNorm(d))))), aden)
      err  == FAdd(FMul(n, FDiv(FAdd(FMul(ew, VNorm(d)), FMul(VNorm(w), ed)), aden)),
                   FAdd(FMul(MNorm(corr), FAdd(rden, u0)), FMul(MNorm(M), FAdd(unc, u0))))
      ok   == ~FIsZero(den) /\ MFinite(new) /\ FLt(rden, "0.001")
  IN  [ok |-> ok, m |-> new, den |-> den,
       unc |-> IF ok THEN FMul("4.0", FDiv(err, MNorm(new))) ELSE "Infinity"]

(* The two forms as rank-one updates of M: inverse form with u = y, v = s,  *)
(* d = c; jacobian form with u = s, v = y, d = J^T c.  For the first        *)
(* methods d = s resp. the text-book expressions are used, which are the    *)
(* same in exact arithmetic and better conditioned.                         *)
(* unc bounds the uncertainty of H resp. J, uh that of H in the second form *)
UpdateInverse(fam, H, unc, s, y, f, u0) ==
  LET n == NumberOf(Len(H))
      e == FAdd(unc, u0)
      d == ChoiceC(fam, H, s, y, f)
      ed == CASE fam = "B1" -> FMul(e, FMul(n, FMul(MNorm(H), VNorm(s))))
              [] fam = "B2" -> FMul(u0, VNorm(y))
              [] fam = "G1" -> FMul(u0, VNorm(f))
              [] fam = "G2" -> FMul(FMul("2.0", e), FMul(n, FMul(MNorm(H), FMul(MNorm(H), VNorm(y)))))
  IN  RankOne(H, unc, y, s, d, ed, u0)
UpdateMatrix(fam, J, H, unc, uh, s, y, f, u0) ==
  LET n == NumberOf(Len(J))
      e == FAdd(unc, u0)
      d == CASE fam = "B1" -> s
             [] fam = "B2" -> TMV(J, y)
             [] fam = "G1" -> TMV(J, f)
             [] fam = "G2" -> MV(H, y)
      ed == CASE fam = "B1" -> FMul(u0, VNorm(s))
              [] fam = "B2" -> FMul(e, FMul(n, FMul(MNorm(J), VNorm(y))))
              [] fam = "G1" -> FMul(e, FMul(n, FMul(MNorm(J), VNorm(f))))
              [] fam = "G2" -> FMul(FAdd(uh, u0), FMul(MNorm(H), VNorm(y)))
  IN  RankOne(J, unc, s, y, d, ed, u0)
---------------------------------------------------------------------------
(* Inverses.  A matrix m whose entries are known up to the relative          *)
(* uncertainty uncm, with its inverse; known: the inverse is meaningful      *)

Known(unc) == FLt(unc, "1.0E-5")
WithInverse(m, uncm) ==
  LET inv  == IF MFinite(m) THEN Inverse(m) ELSE <<>>
      ok   == inv # <<>> /\ MFinite(inv)
      cond == FMul(MNorm(m), MNorm(inv))
      unc  == FMul(cond, FAdd(uncm, FMul("8.0", Eps)))
  IN  IF ok THEN [m |-> m, inv |-> inv, uncm |-> uncm, unc |-> unc, known |-> Known(unc), shown |-> "pair"]
            ELSE [m |-> m, inv |-> <<>>, uncm |-> uncm, unc |-> "Infinity", known |-> FALSE, shown |-> "pair"]

(* A matrix with a row or a column of exact zeros is singular whatever the   *)
(* arithmetic, if no entry is near the limits of the range.  A matrix well   *)
(* conditioned with respect to its uncertainty is not.  In between both      *)
(* outcomes are allowed.                                                     *)
Moderate(a) == FIsZero(a) \/ (FLe("1.0E-100", FAbs(a)) /\ FLe(FAbs(a), "1.0E100"))
VModerate(v) == \A i \in 1..Len(v) : Moderate(v[i])
MModerate(m) == \A i \in 1..Len(m) : VModerate(m[i])
SurelySingular(m) == PlainlySingular(m) /\ MModerate(m)

---------------------------------------------------------------------------
(* Finite differences: cols[k] the residuals with iterative k perturbed by   *)
(* d[k], F the ones without                                                  *)

DiffMatrix(cols, F, d) ==
  FromCols([k \in 1..Len(cols) |-> [i \in 1..Len(cols) |-> FDiv(FSub(cols[k][i], F[i]), d[k])]])
(* The columns are differences of doubles divided by a perturbation.  With  *)
(* an absolute normalization these doubles are exact, with the other ones  *)
(* they may differ by some units in the last place, which is amplified.    *)
DiffUnc(cols, F, d, upd) ==
  LET n == Len(cols)
      amp == FMaxSeq([k \in 1..n |-> FDiv(FMaxSeq([i \in 1..n |-> IF upd[i] = "Abs" THEN "0.0"
                        ELSE FAdd(FAbs(cols[k][i]), FAbs(F[i]))]), d[k])])
  IN FMul(FMul("8.0", Eps), FAdd("1.0", FDiv(amp, MNorm(DiffMatrix(cols, F, d)))))

(* relative uncertainty of a change s of the iteratives (now x) and y of the *)
(* residuals (now f), both computed as differences                           *)
ChangeUnc(s, y, x, f) == FMul(FMul("8.0", Eps), FAdd("1.0", FAdd(
              FDiv(FAdd(VNorm(x), VNorm(VSub(x, s))), VNorm(s)),
              FDiv(FAdd(VNorm(f), VNorm(VSub(f, y))), VNorm(y)))))

(* the jacobian made of the members' ones, with its uncertainty              *)
MembersUnc(left, right, dleft, dright, meths) ==
  FMul(FMul("8.0", Eps), FAdd("1.0", FDiv(MNorm(DNormalizeAllMag(left, right, dleft, dright, meths)),
                                          MNorm(DNormalizeAll(left, right, dleft, dright, meths)))))
=============================================================================
