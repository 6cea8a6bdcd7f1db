------------------------------ MODULE CallTrace ------------------------------
(***************************************************************************)
(* Single calls of the implementation's public functions (normalizations,  *)
(* limits, perturbations, updates, finite differences) against the         *)
(* documented formulas: [id, call, got, v, mem, ev].                       *)
(* v: the value as rows of doubles.                                        *)
(***************************************************************************)
EXTENDS Formulas, Json, IOUtils, Integers, FiniteSets

CONSTANT Prop
Calls == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
R == Calls[tid]
C == R.call
If(c, S) == IF c THEN S ELSE {}
B(S, m) == {[p |-> q, at |-> 1, m |-> m] : q \in S}

U == FMul("16.0", Eps)

---------------------------------------------------------------------------
(* C15 *)
Ordinary(a) == FIsZero(a) \/ (FLe("1.0E-305", FAbs(a)) /\ FLe(FAbs(a), "1.0E307"))
NormOk(l, r, meth, v) ==
  LET e == Normalize(l, r, meth) IN
  CASE FIsNaN(l) \/ FIsNaN(r) -> FIsNaN(v)
    [] meth = "Abs" -> FClose(v, e, "0.0", "0.0")
    [] ~FIsFinite(l) \/ ~FIsFinite(r) -> FIsNaN(v)
    [] Moderate(l) /\ Moderate(r) -> FClose(v, e, U, "0.0")
    \* far from 1: sums and halves are still normal numbers
    [] Ordinary(l) /\ Ordinary(r) /\ (FIsZero(FAdd(l, r)) \/ Ordinary(FAdd(l, r))) -> FClose(v, e, U, "0.0")
    \* below the normal numbers a half is not exact, a difference is
    [] OTHER -> meth = "Rel" /\ FLt(FAbs(l), "1.0") /\ FLt(FAbs(r), "1.0") => (FEq(v, "0.0") <=> FEq(l, r))
NormJudged(l, r, meth) == meth = "Abs" \/ (Ordinary(l) /\ Ordinary(r))

(* C14, where the derivative exists and overflow is far *)
DNormJudged(l, r, dl, dr, meth) ==
  /\ FIsFinite(l) /\ FIsFinite(r) /\ FIsFinite(dl) /\ FIsFinite(dr)
  /\ Moderate(l) /\ Moderate(r) /\ Moderate(dl) /\ Moderate(dr)
  /\ meth = "Abs" \/ ~FIsZero(FAdd(l, r))
DNormOk(l, r, dl, dr, meth, v) ==
  DNormJudged(l, r, dl, dr, meth) =>
    FClose(v, DNormalize(l, r, dl, dr, meth), "0.0",
           IF meth = "Abs" THEN FMul(Eps, FAdd(FAbs(dl), FAbs(dr))) ELSE FMul(FMul("32.0", Eps), DNormalizeMag(l, r, dl, dr, meth)))

---------------------------------------------------------------------------
(* C08 *)
LimitJudged(p, x, raw) == FIsFinite(x) /\ ~FIsNaN(raw)
LimitOk(p, x, raw, v) ==
  LimitJudged(p, x, raw) =>
    LET st == LimitedStep(p, x, raw)
        e == Limit(p, x, raw)
    IN /\ FLe(p.lo, v) /\ FLe(v, p.hi)
       /\ FClose(v, e, "0.0", FMul(FMul("4.0", Eps), FAdd(FAbs(x), IF FIsFinite(st) THEN FAbs(st) ELSE "0.0")))
       /\ ~LimitActive(p, x, raw) /\ FLt(FAbs(raw), MaxStep(p, x)) => FClose(v, FAdd(x, raw), FMul("2.0", Eps), FMul(Eps, FAdd(FAbs(x), FAbs(raw))))

(* C13 *)
PerturbOk(p, x, v) == FIsFinite(x) => FClose(v, Perturbation(p, x), FMul("4.0", Eps), "0.0")

---------------------------------------------------------------------------
(* C07: updates.  u: what the specification gives, M the matrix updated *)
MClose(a, b, unc) ==
  LET tol == FMul("4.0", FMul(FAdd(unc, U), MNorm(b)))
  IN Len(a) = Len(b) /\ \A r \in 1..Len(b) : Len(a[r]) = Len(b) /\ \A c \in 1..Len(b) : FClose(a[r][c], b[r][c], "0.0", tol)
Update ==
  CASE C.fn = "b1j" -> RankOne(C.m, "0.0", C.s, C.y, C.s, FMul(U, VNorm(C.s)), U)
    [] C.fn = "b2j" -> RankOne(C.m, "0.0", C.s, C.y, TMV(C.m, C.y), FMul(U, FMul(NumberOf(Len(C.m)), FMul(MNorm(C.m), VNorm(C.y)))), U)
    [] C.fn = "gj"  -> RankOne(C.m, "0.0", C.s, C.y, TMV(C.m, C.c), FMul(U, FMul(NumberOf(Len(C.m)), FMul(MNorm(C.m), VNorm(C.c)))), U)
    [] C.fn = "g2j" -> RankOne(C.m, "0.0", C.s, C.y, C.c, FMul(U, VNorm(C.c)), U)
    [] C.fn = "b1h" -> RankOne(C.m, "0.0", C.y, C.s, TMV(C.m, C.s), FMul(U, FMul(NumberOf(Len(C.m)), FMul(MNorm(C.m), VNorm(C.s)))), U)
    [] C.fn = "b2h" -> RankOne(C.m, "0.0", C.y, C.s, C.y, FMul(U, VNorm(C.y)), U)
    [] C.fn = "gh"  -> RankOne(C.m, "0.0", C.y, C.s, C.c, FMul(U, VNorm(C.c)), U)
UpdateJudged(u) == u.ok /\ FLt(u.unc, "1.0E-6") /\ MModerate(C.m) /\ VModerate(C.s) /\ VModerate(C.y)
(* the secant equation, on the implementation's own result *)
Secant(u) ==
  LET from == IF C.fn \in {"b1j", "b2j", "gj", "g2j"} THEN C.s ELSE C.y
      to   == IF C.fn \in {"b1j", "b2j", "gj", "g2j"} THEN C.y ELSE C.s
      got  == MV(R.v, from)
      tol  == FMul("8.0", FMul(FAdd(u.unc, U), FAdd(FMul(NumberOf(Len(from)), FMul(MNorm(R.v), VNorm(from))), VNorm(to))))
  IN \A k \in 1..Len(from) : FClose(got[k], to[k], "0.0", tol)
Updates == {"b1j", "b1h", "b2j", "b2h", "gj", "gh", "g2j"}

---------------------------------------------------------------------------
(* C13: compute_jacobian_from_finite_difference with given perturbations *)
Evals == SelectSeq(R.ev, LAMBDA e : e.e = "eval")
Cols == [k \in 1..(Len(Evals) - 1) |-> NormalizeAll(Evals[k + 1].l, Evals[k + 1].r, C.upd)]
F0 == NormalizeAll(Evals[1].l, Evals[1].r, C.upd)
IsColumn(x, k) == \A j \in 1..C.n : FClose(x[j], IF j = k THEN FAdd(C.x[k], C.p[k]) ELSE C.x[j], IF j = k THEN "1.0E-15" ELSE "0.0", "0.0")
Differences ==
  LET k == Len(Evals) - 1
      failed == Evals[Len(Evals)].out = "unus"
  IN IF \/ Len(R.ev) # Len(Evals)
        \/ k > C.n
        \/ \E j \in 1..k : ~IsColumn(Evals[j + 1].x, j)
        \/ \E j \in 1..k : ~VSame(Evals[j + 1].mb, Evals[1].ma)
        \/ ~failed /\ k # C.n
     THEN B({"C13"}, "columns")
     ELSE IF \E j \in 1..(k - 1) : Evals[j + 1].out = "unus" THEN B({"C11"}, "goes on after unusable values")
     ELSE IF failed THEN B(If(R.got # "unus " \o Evals[k + 1].err, {"C11"}), "unusable column: " \o R.got)
     ELSE IF R.got # "ok" THEN B({"C11", "C10"}, "returned " \o R.got)
     ELSE LET m == DiffMatrix(Cols, F0, C.p)
              unc == DiffUnc(Cols, F0, C.p, C.upd)
          IN B(If(~VSame(R.mem, Evals[1].ma), {"C13"}), "memory after the jacobian")
             \cup B(If(MFinite(m) /\ MModerate(m) /\ ~MClose(R.v, m, unc), {"C13"} \cup If(\E q \in 1..C.n : C.upd[q] # "Abs", {"C15"})), "differences")

---------------------------------------------------------------------------
Row(k) == R.v[k]
Verdict ==
  IF R.got = "hang" THEN B({"C12"}, "does not return")
  ELSE IF C.fn = "fdjac" THEN (IF R.got = "panic" THEN B({"C13", "C12"}, "panic") ELSE Differences)
  ELSE IF R.got # "ok" THEN B(IF C.fn \in {"norm", "upd", "stop"} THEN {"C15"} ELSE IF C.fn \in {"dnorm", "djac"} THEN {"C14"}
                              ELSE IF C.fn \in {"limit", "limit1"} THEN {"C08"} ELSE IF C.fn = "perturb" THEN {"C13"} ELSE {"C07"}, "panic in " \o C.fn)
  ELSE CASE C.fn = "norm"  -> B(If(~NormOk(C.l, C.r, C.meth, R.v[1]), {"C15"}), "normalization " \o C.meth)
    [] C.fn \in {"upd", "stop"} ->
         B(If(Len(R.v) # Len(C.l) \/ \E k \in 1..Len(C.l) :
                LET v == R.v[k]
                IN ~(IF C.fn = "upd" THEN NormOk(C.l[k], C.r[k], C.meths[k], v)
                     ELSE ~FLt(v, "0.0") /\ (NormOk(C.l[k], C.r[k], C.meths[k], v) \/ NormOk(C.l[k], C.r[k], C.meths[k], FNeg(v)))),
              {"C15"}), C.fn \o " residuals")
    [] C.fn = "dnorm" -> B(If(~DNormOk(C.l, C.r, C.dl, C.dr, C.meth, R.v[1]), {"C14"}), "derivative " \o C.meth)
    [] C.fn = "djac"  -> B(If(\E k \in 1..Len(C.l), j \in 1..Len(C.l) : ~DNormOk(C.l[k], C.r[k], C.dl[k][j], C.dr[k][j], C.meths[k], R.v[k][j]), {"C14"}), "jacobian")
    [] C.fn \in {"limit", "limit1"} ->
         LET x == IF C.fn = "limit" THEN C.x ELSE <<C.x>>
             raw == IF C.fn = "limit" THEN C.raw ELSE <<C.raw>>
         IN B(If(Len(R.v) # Len(x) \/ \E k \in 1..Len(x) : ~LimitOk(C.iters[k], x[k], raw[k], R.v[k]), {"C08"}), "limits")
    [] C.fn = "perturb" -> B(If(\E k \in 1..Len(C.x) : ~PerturbOk(C.iters[k], C.x[k], R.v[k]), {"C13"}), "perturbations")
    [] C.fn \in Updates -> LET u == Update
                           IN B(If(UpdateJudged(u) /\ (~MClose(R.v, u.m, u.unc) \/ ~Secant(u)), {"C07"}), "update " \o C.fn)

Judged ==
  CASE C.fn = "norm" -> NormJudged(C.l, C.r, C.meth)
    [] C.fn = "dnorm" -> DNormJudged(C.l, C.r, C.dl, C.dr, C.meth)
    [] C.fn = "limit1" -> LimitJudged(C.iters[1], C.x, C.raw)
    [] C.fn \in Updates -> UpdateJudged(Update)
    [] OTHER -> TRUE

Init == tid \in 1..Len(Calls) /\ i = 0 /\ bad = {}
Step == i = 0 /\ i' = 1 /\ bad' = Verdict /\ UNCHANGED tid
End == /\ i = 1
       /\ PrintT(<<"VERDICT", R.id, bad, {"call " \o C.fn}, [known |-> IF Judged THEN 1 ELSE 0, open |-> IF Judged THEN 0 ELSE 1], i>>)
       /\ i' = 2 /\ UNCHANGED <<tid, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Holds == \A b \in bad : Prop # "ALL" /\ b.p # Prop
=============================================================================
