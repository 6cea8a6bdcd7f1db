------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The store of the jacobian (solver/jacobian/jacobian_struct.rs): a state *)
(*   [m, inv, due, approx, sure]                                           *)
(* m and inv are matrices, or <<>> when not exposed; due: a true jacobian  *)
(* is asked for; approx: the value is an approximation; sure: approx is    *)
(* specified (it is not after a matrix that could not be set).             *)
(* Operations are functions from a state to a state.                       *)
(***************************************************************************)
EXTENDS LinAlg, TLC

New == [m |-> <<>>, inv |-> <<>>, due |-> TRUE, approx |-> FALSE, sure |-> TRUE]
SetMatrix(s, m, inv, ap) == [s EXCEPT !.m = m, !.inv = inv, !.due = FALSE, !.approx = ap, !.sure = TRUE]
FailMatrix(s) == [s EXCEPT !.m = <<>>, !.inv = <<>>, !.sure = FALSE]
SetInverse(s, h) == [s EXCEPT !.m = <<>>, !.inv = h, !.approx = TRUE, !.sure = TRUE]
Force(s) == [s EXCEPT !.due = TRUE]
Invalidate(s) == [s EXCEPT !.m = <<>>, !.inv = <<>>]
=============================================================================
