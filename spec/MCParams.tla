------------------------------ MODULE MCParams ------------------------------
(***************************************************************************)
(* The constructors as sequences of guards, on every combination of values *)
(* of a few classes; the invariant compares with the declarative Accepted. *)
(***************************************************************************)
EXTENDS Params, IOUtils, Json, Integers

Size == IOEnv.SIZE
Quirk == IOEnv.QUIRK

Steps == {"-1.5", "-0.0", "0.0", "1.0E-300", "0.5", "Infinity", "NaN"}
Few == {"-2.0", "0.0", "3.0", "Infinity", "NaN"}
Bounds == {"-Infinity", "-1.0", "-0.0", "0.0", "1.0", "Infinity", "NaN"}
FewB == {"-Infinity", "0.0", "1.0", "Infinity", "NaN"}
Names == {"Abs", "Rel", "Adapt"}
Seqs(n, v) == UNION {[1..k -> v] : k \in 0..n}
Mat(r, c) == [i \in 1..r |-> [j \in 1..c |-> ToString(10 * i + j) \o ".5"]]

Iter(a, r, l, h) == [fn |-> "iter", msa |-> a, msr |-> r, lo |-> l, hi |-> h]
Fd(f, a, r, l, h, da, dr, p) == [fn |-> f, msa |-> a, msr |-> r, lo |-> l, hi |-> h, dxa |-> da, dxr |-> dr, pm |-> p]
Calls ==
  {Iter(a, r, l, h) : a \in Steps, r \in Steps, l \in Bounds, h \in Bounds}
  \cup {Fd(f, "1.0", "2.0", "-1.0", "Infinity", da, dr, p) : f \in {"iterfd", "extend"}, da \in Steps, dr \in Steps, p \in {"Max", "Sum"}}
  \cup {Fd(f, a, r, l, h, da, dr, "Sum") : f \in {"iterfd", "extend"}, a \in Few, r \in {"0.0", "4.0"}, l \in FewB, h \in FewB, da \in {"0.0", "0.25"}, dr \in {"-1.0", "0.125", "NaN"}}
  \cup {[fn |-> "residual", stop |-> s, upd |-> u] : s \in Names, u \in Names}
  \cup {[fn |-> "config", stop |-> s, upd |-> u] : s \in Seqs(3, {"Abs", "Rel"}), u \in Seqs(3, {"Adapt", "Rel"})}
  \cup {[fn |-> "values", l |-> l, r |-> r] : l \in Seqs(3, {"1.0", "NaN"}), r \in Seqs(3, {"-2.0", "Infinity"})}
  \cup {[fn |-> "jacs", dl |-> Mat(a, b), dr |-> Mat(c, d)] : a \in 1..3, b \in 1..3, c \in 1..3, d \in 1..3}
  \cup {[fn |-> "params", n |-> n, tol |-> t, maxiter |-> k, method |-> m, damping |-> d] :
          n \in {0, 1, 7}, t \in {"0.0", "1.0E-6", "Infinity"}, k \in {0, 1, 1000}, m \in {"NR", "SN", "BROY1", "GRST2_INV"}, d \in {TRUE, FALSE}}
  \cup {[fn |-> "solver", default |-> d, n |-> n, guess |-> g, iters |-> i, res |-> r] :
          d \in {TRUE, FALSE}, n \in 1..3, g \in 1..3, i \in 1..3, r \in 1..3}
  \cup {[fn |-> "defaults", n |-> n] : n \in 1..4}

(* the guards, in the order the implementation has them *)
Fd2 == {"iterfd", "extend"}
Guards(c) ==
  CASE c.fn = "iter" -> <<"msa", "msr", "bounds">>
    [] c.fn = "iterfd" -> <<"dxa", "dxr", "msa", "msr", "bounds">>
    [] c.fn = "extend" -> <<"msa", "msr", "bounds", "dxa", "dxr">>
    [] c.fn = "config" -> <<"lengths">>
    [] c.fn = "values" -> <<"lengths">>
    [] c.fn = "jacs" -> <<"shapes", "square">>
    [] c.fn = "solver" -> <<"res", "guess", "iters">>
    [] OTHER -> <<>>
Passes(c, g) ==
  CASE g \in {"msa", "msr", "dxa", "dxr"} -> IF Quirk = "zero" THEN FLe("0.0", c[g]) ELSE IF Quirk = "nan" THEN ~FLe(c[g], "0.0") ELSE FLt("0.0", c[g])
    [] g = "bounds" -> IF Quirk = "equal" THEN FLe(c.lo, c.hi) ELSE IF Quirk = "nan" THEN ~FLe(c.hi, c.lo) ELSE FLt(c.lo, c.hi)
    [] g = "lengths" -> IF c.fn = "config" THEN Len(c.stop) = Len(c.upd) ELSE Len(c.l) = Len(c.r)
    [] g = "shapes" -> Shape(c.dl) = Shape(c.dr) \/ Quirk = "shapes"
    [] g = "square" -> Shape(c.dl)[1] = Shape(c.dl)[2]
    [] OTHER -> (IF c.default THEN c.guess ELSE c.n) = c[g] \/ Quirk = "sizes"

VARIABLES call, k, at
mvars == <<call, k, at>>
MInit == call \in Calls /\ k = 1 /\ at = "check"
Check == /\ at = "check" /\ k <= Len(Guards(call))
         /\ IF Passes(call, Guards(call)[k]) THEN k' = k + 1 /\ at' = at ELSE k' = k /\ at' = "refused"
         /\ UNCHANGED call
Build == at = "check" /\ k > Len(Guards(call)) /\ at' = "built" /\ UNCHANGED <<call, k>>
MNext == Check \/ Build
MSpec == MInit /\ [][MNext]_mvars

C22 == (at = "built" => Accepted(call)) /\ (at = "refused" => ~Accepted(call))
Export == at \in {"refused", "built"} => PrintT("HIST " \o ToJson([call |-> call]))
=============================================================================
