------------------------------ MODULE Newton1D ------------------------------
(***************************************************************************)
(* The one-dimensional solver of the crate util (solver1d, solver1d_fd).   *)
(* A configuration c is [fd, guess, tol, maxiter, dx]; a state is          *)
(*   [ph, x, f, k]                                                         *)
(* ph "value": the function is about to be evaluated at x; "slope": it is  *)
(* f at x, the derivative (or the function at x + dx, if c.fd) is about to *)
(* be asked for; "done": x is returned.  k: steps done.                    *)
(* Quirks: deliberate deviations, none for the specification.              *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences

CONSTANT Quirks

Start(c) == [ph |-> "value", x |-> c.guess, f |-> "NaN", k |-> 0, x0 |-> c.guess, d |-> ""]

(* what is asked in a state: the function ("f") or its derivative ("d"), where *)
Question(c, s) ==
  IF s.ph = "value" THEN [e |-> "f", x |-> s.x]
  ELSE IF c.fd THEN [e |-> "f", x |-> FAdd(s.x, c.dx)]
  ELSE [e |-> "d", x |-> s.x]

(* not below the tolerance; a value that is not a number ends the iterations as well *)
Far(c, v) == IF "at_least" \in Quirks THEN FLe(c.tol, FAbs(v))
             ELSE IF "signed" \in Quirks THEN FLt(c.tol, v)
             ELSE FLt(c.tol, FAbs(v))
Left(c, s) == IF "one_more" \in Quirks THEN s.k <= c.maxiter ELSE s.k < c.maxiter

Slope(c, s, v) ==
  LET d == IF c.fd THEN FDiv(FSub(v, IF "from_zero" \in Quirks THEN "0.0" ELSE s.f), c.dx) ELSE v
  IN IF "chord" \in Quirks /\ s.d # "" THEN s.d ELSE d

(* the state after the answer v *)
Answer(c, s, v) ==
  CASE s.ph = "value" -> [s EXCEPT !.f = v, !.ph = IF Far(c, v) /\ Left(c, s) THEN "slope" ELSE "done"]
    [] s.ph = "slope" -> LET d == Slope(c, s, v)
                         IN [s EXCEPT !.x0 = s.x, !.x = FSub(s.x, FDiv(s.f, d)), !.d = d, !.k = @ + 1, !.ph = "value"]
Returned(s) == IF "previous" \in Quirks THEN s.x0 ELSE s.x
=============================================================================
