-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 binary64 scalars.  A double is a TLA+ string holding a decimal *)
(* literal ("0.5", "-1.0E-7", "NaN", "Infinity", ...): TLA+ has no         *)
(* floating point numbers.  The operators below are the primitive          *)
(* operations of the standard (round to nearest even); TLC evaluates them  *)
(* with the Java class F64 (spec/java/F64.java), one Java expression each. *)
(* Two strings may denote the same double ("1" and "1.0"): always compare  *)
(* with FEq, FSame, FLt, ... and never with =.                             *)
(***************************************************************************)
LOCAL INSTANCE TLC

FAdd(a, b)  == Assert(FALSE, "F64 override missing")   \* a + b
FSub(a, b)  == Assert(FALSE, "F64 override missing")   \* a - b
FMul(a, b)  == Assert(FALSE, "F64 override missing")   \* a * b
FDiv(a, b)  == Assert(FALSE, "F64 override missing")   \* a / b
FNeg(a)     == Assert(FALSE, "F64 override missing")   \* - a
FAbs(a)     == Assert(FALSE, "F64 override missing")   \* |a|
FLt(a, b)   == Assert(FALSE, "F64 override missing")   \* a < b, FALSE if a NaN is involved
FLe(a, b)   == Assert(FALSE, "F64 override missing")   \* a <= b, FALSE if a NaN is involved
FEq(a, b)   == Assert(FALSE, "F64 override missing")   \* a = b as numbers, FALSE for NaN
FSame(a, b) == Assert(FALSE, "F64 override missing")   \* the same datum (NaN same as NaN, 0 and -0 differ)
FIsNaN(a)   == Assert(FALSE, "F64 override missing")
FIsFinite(a) == Assert(FALSE, "F64 override missing")
FMin(a, b)  == Assert(FALSE, "F64 override missing")   \* minNum: a NaN argument is ignored
FMax(a, b)  == Assert(FALSE, "F64 override missing")   \* maxNum: a NaN argument is ignored
FSignum(a)  == Assert(FALSE, "F64 override missing")   \* 1.0 or -1.0 (the sign bit), NaN for NaN

(* |a - b| <= abs + rel * max(|a|, |b|); a datum is always close to itself (NaN included) *)
FClose(a, b, rel, abs) == Assert(FALSE, "F64 override missing")
=============================================================================
