------------------------------ MODULE XmlConf ------------------------------
(***************************************************************************)
(* The XML configuration files (xml_parser).  A document is                *)
(*   [root, kids]   kids: sequence of [tag, at, kids], at a record of      *)
(*                  attributes (strings), kids of the inner nodes          *)
(* read in mode "fd" (from_xml_finite_diff) or "jac" (from_xml_jacobian).  *)
(*                                                                         *)
(* Two descriptions: the declarative one (Valid, Meaning), and a reader    *)
(* that goes through the nodes in order and refuses at the first fault.    *)
(* MCXml checks that they agree on all documents within its bounds;        *)
(* XmlTrace compares the implementation with the declarative one.          *)
(***************************************************************************)
EXTENDS F64, Naturals, Sequences, TLC

---------------------------------------------------------------------------
(* Lexical rules *)

Char(s, k) == SubSeq(s, k, k)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == \A k \in 1..Len(s) : Char(s, k) \in Digits
Tail1(s) == SubSeq(s, 2, Len(s))
Unsigned(s) == IF Len(s) > 0 /\ Char(s, 1) \in {"+", "-"} THEN Tail1(s) ELSE s

(* usize: an optional "+", then digits (19 digits always fit) *)
IsInt(s) == LET d == IF Len(s) > 0 /\ Char(s, 1) = "+" THEN Tail1(s) ELSE s
            IN Len(d) > 0 /\ AllDigits(d) /\ Len(d) < 20
RECURSIVE Value(_)
Value(d) == IF d = "" THEN 0
            ELSE 10 * Value(SubSeq(d, 1, Len(d) - 1))
                 + (CHOOSE k \in 0..9 : ToString(k) = Char(d, Len(d)))
RECURSIVE Significant(_)
Significant(d) == IF Len(d) > 1 /\ Char(d, 1) = "0" THEN Significant(Tail1(d)) ELSE d
(* integers of TLC are small: 10^9 stands for all the greater ones *)
IntOf(s) == LET d == Significant(IF Char(s, 1) = "+" THEN Tail1(s) ELSE s)
            IN IF Len(d) > 9 THEN 1000000000 ELSE Value(d)

(* f64: digits with an optional point, an optional exponent; or inf *)
Positions(s, cs) == {k \in 1..Len(s) : Char(s, k) \in cs}
IsMantissa(s) == LET p == Positions(s, {"."})
                     q == CHOOSE k \in p : TRUE
                 IN IF p = {} THEN Len(s) > 0 /\ AllDigits(s)
                    ELSE /\ \A k \in p : k = q
                         /\ Len(s) > 1
                         /\ AllDigits(SubSeq(s, 1, q - 1)) /\ AllDigits(SubSeq(s, q + 1, Len(s)))
IsExponent(s) == Len(Unsigned(s)) > 0 /\ AllDigits(Unsigned(s))
IsFloat(s) ==
  LET u == Unsigned(s)
      p == Positions(u, {"e", "E"})
      q == CHOOSE k \in p : \A j \in p : k <= j
  IN \/ u = "inf"
     \/ IF p = {} THEN IsMantissa(u)
        ELSE IsMantissa(SubSeq(u, 1, q - 1)) /\ IsExponent(SubSeq(u, q + 1, Len(u)))

Norms == {"Abs", "Rel", "Adapt"}
ResolutionNames == {"NR", "SN", "BROY1", "BROY1_INV", "BROY2", "BROY2_INV", "GRST1", "GRST1_INV", "GRST2", "GRST2_INV"}

(* What an attribute of a kind may be *)
Kind(name) == CASE name \in {"problem_size", "max_iter", "id"} -> "int"
                [] name \in {"stopping_criteria", "update_method"} -> "norm"
                [] name = "perturbation_method" -> "pert"
                [] name = "damping" -> "bool"
                [] name = "resolution_method" -> "method"
                [] OTHER -> "float"
WellFormed(name, v) ==
  CASE Kind(name) = "int"    -> IsInt(v)
    [] Kind(name) = "float"  -> IsFloat(v)
    [] Kind(name) = "norm"   -> v \in Norms
    [] Kind(name) = "pert"   -> v \in {"Max", "Sum"}
    [] Kind(name) = "bool"   -> v \in {"true", "false"}
    [] Kind(name) = "method" -> v \in ResolutionNames

---------------------------------------------------------------------------
(* Attributes of the nodes *)

SolverRequired == {"problem_size", "max_iter", "tolerance", "resolution_method"}
IterNames(mode) == {"min_value", "max_value", "max_step_abs", "max_step_rel"}
                   \cup (IF mode = "fd" THEN {"dx_abs", "dx_rel", "perturbation_method"} ELSE {})
ResNames == {"stopping_criteria", "update_method"}

Has(node, a) == a \in DOMAIN node.at
Attr(node, parent, a) == IF Has(node, a) THEN node.at[a] ELSE parent.at[a]

(* The constructors' conditions on the parameters of one iterative *)
Sane(val(_), mode) ==
  LET names == {"max_step_abs", "max_step_rel"} \cup (IF mode = "fd" THEN {"dx_abs", "dx_rel"} ELSE {})
  IN (\A a \in names : FLt("0.0", val(a))) /\ FLt(val("min_value"), val("max_value"))

Defaults(node, names) == \A a \in names : Has(node, a) /\ WellFormed(a, node.at[a])
Overrides(node, names) == \A a \in names : Has(node, a) => WellFormed(a, node.at[a])
IdIs(node, k) == Has(node, "id") /\ WellFormed("id", node.at["id"]) /\ IntOf(node.at["id"]) = k

ValidSolver(s) == s.tag = "solver" /\ Defaults(s, SolverRequired) /\ Overrides(s, {"damping"})
ValidIteratives(s, mode) ==
  /\ s.tag = "iteratives" /\ Defaults(s, IterNames(mode))
  /\ Sane(LAMBDA a : s.at[a], mode)
  /\ \A k \in 1..Len(s.kids) :
       LET t == s.kids[k]
       IN t.tag = "iterative" /\ IdIs(t, k - 1) /\ Overrides(t, IterNames(mode)) /\ Sane(LAMBDA a : Attr(t, s, a), mode)
ValidResiduals(s) ==
  /\ s.tag = "residuals" /\ Defaults(s, ResNames)
  /\ \A k \in 1..Len(s.kids) :
       LET t == s.kids[k] IN t.tag = "residual" /\ IdIs(t, k - 1) /\ Overrides(t, ResNames)

Valid(doc, mode) ==
  /\ doc.root = "nrf"
  /\ Len(doc.kids) >= 3
  /\ ValidSolver(doc.kids[1]) /\ ValidIteratives(doc.kids[2], mode) /\ ValidResiduals(doc.kids[3])
  /\ LET n == IntOf(doc.kids[1].at["problem_size"])
     IN n = Len(doc.kids[2].kids) /\ n = Len(doc.kids[3].kids)

(* Left open: what nothing says.  Nodes after the residuals, a problem of     *)
(* size 0, a tolerance that is not a number.                                *)
Open(doc) == \/ Len(doc.kids) > 0 /\ Has(doc.kids[1], "tolerance") /\ Unsigned(doc.kids[1].at["tolerance"]) \in {"NaN", "nan"}
             \/ Len(doc.kids) > 3 \/ (Len(doc.kids) = 3 /\ doc.kids[2].kids = <<>> /\ doc.kids[3].kids = <<>>)

Meaning(doc, mode) ==
  LET s == doc.kids[1]
      it == doc.kids[2]
      rs == doc.kids[3]
  IN [n |-> IntOf(s.at["problem_size"]), maxiter |-> IntOf(s.at["max_iter"]), tol |-> s.at["tolerance"],
      method |-> s.at["resolution_method"],
      damping |-> Has(s, "damping") /\ s.at["damping"] = "true",
      iters |-> [k \in 1..Len(it.kids) |-> [a \in IterNames(mode) |-> Attr(it.kids[k], it, a)]],
      stop |-> [k \in 1..Len(rs.kids) |-> Attr(rs.kids[k], rs, "stopping_criteria")],
      upd |-> [k \in 1..Len(rs.kids) |-> Attr(rs.kids[k], rs, "update_method")]]

(* Two configurations are the same: floats as numbers *)
SameIter(p, q) == /\ DOMAIN p = DOMAIN q
                  /\ \A a \in DOMAIN p : IF a = "perturbation_method" THEN p[a] = q[a] ELSE FSame(p[a], q[a])
SameConf(c, d) ==
  /\ c.n = d.n /\ c.maxiter = d.maxiter /\ FSame(c.tol, d.tol) /\ c.method = d.method /\ c.damping = d.damping
  /\ c.stop = d.stop /\ c.upd = d.upd
  /\ Len(c.iters) = Len(d.iters)
  /\ \A k \in 1..Len(c.iters) : SameIter(c.iters[k], d.iters[k])
=============================================================================
