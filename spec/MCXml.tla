------------------------------- MODULE MCXml -------------------------------
(***************************************************************************)
(* A reader of configuration files, node by node, on every document at     *)
(* most Depth edits away from a valid one.                                 *)
(***************************************************************************)
EXTENDS XmlConf, IOUtils, Json, Integers

Size == IOEnv.SIZE
Quirk == IOEnv.QUIRK      \* a deviation of the reader, "none" for the specification
Depth == IF Size = "two" THEN 2 ELSE 1

---------------------------------------------------------------------------
(* Valid documents to start from *)

N(tag, at, kids) == [tag |-> tag, at |-> at, kids |-> kids]
IterDefaults == [min_value |-> "-inf", max_value |-> "inf", max_step_abs |-> "100", max_step_rel |-> "0.5"]
FdDefaults == IterDefaults @@ [dx_abs |-> "5e-8", dx_rel |-> "1.5E-8", perturbation_method |-> "Max"]
Kid0 == [id |-> "0"]
Kid1 == [id |-> "1", max_step_abs |-> "2.5", min_value |-> "-4", perturbation_method |-> "Sum", dx_abs |-> "0.001"]
Kid2 == [id |-> "2", max_step_rel |-> "inf", max_value |-> "12", dx_rel |-> "1"]
Res0 == [id |-> "0", stopping_criteria |-> "Adapt"]
Res1 == [id |-> "1", update_method |-> "Rel"]
Res2 == [id |-> "2"]
Solver(n, m) == N("solver", [problem_size |-> n, max_iter |-> "60", tolerance |-> "1e-6", resolution_method |-> m, damping |-> "true"], <<>>)
Leaf(tag, at) == N(tag, at, <<>>)
Bases ==
  {<<"fd",  [root |-> "nrf", kids |-> <<Solver("2", "NR"), N("iteratives", FdDefaults, <<Leaf("iterative", Kid0), Leaf("iterative", Kid1)>>),
                                        N("residuals", [stopping_criteria |-> "Abs", update_method |-> "Adapt"], <<Leaf("residual", Res0), Leaf("residual", Res1)>>)>>]>>,
   <<"jac", [root |-> "nrf", kids |-> <<Solver("2", "SN"), N("iteratives", IterDefaults, <<Leaf("iterative", Kid0), Leaf("iterative", Kid1)>>),
                                        N("residuals", [stopping_criteria |-> "Rel", update_method |-> "Abs"], <<Leaf("residual", Res0), Leaf("residual", Res1)>>)>>]>>,
   <<"jac", [root |-> "nrf", kids |-> <<Solver("1", "GRST2_INV"), N("iteratives", FdDefaults, <<Leaf("iterative", Kid0 @@ [max_step_abs |-> "3", min_value |-> "-2"])>>),
                                        N("residuals", [stopping_criteria |-> "Adapt", update_method |-> "Rel"], <<Leaf("residual", Kid0)>>)>>]>>}
  \cup (IF Size = "two" THEN {} ELSE
  {<<m, [root |-> "nrf", kids |-> <<Solver("3", "BROY1"), N("iteratives", FdDefaults, <<Leaf("iterative", Kid0), Leaf("iterative", Kid1), Leaf("iterative", Kid2)>>),
                                        N("residuals", [stopping_criteria |-> "Abs", update_method |-> "Abs"], <<Leaf("residual", Res0), Leaf("residual", Res1), Leaf("residual", Res2)>>)>>]>> : m \in {"fd", "jac"}})

---------------------------------------------------------------------------
(* Edits *)

Trial(a) ==
  CASE Kind(a) = "int" -> {"0", "1", "2", "3", "+2", "-1", "1.5", "", "x", " 1", "007", "1e1", "99999999999999999999"}
    [] Kind(a) = "float" -> {"0", "-0.0", "1", "-3.5", "inf", "-inf", ".5", "1e-3", "2E+2", "NaN", "", "1,5", "1e", "e5", "--1", "1.2.3", "0x1", "1 ", "infx"}
    [] Kind(a) = "norm" -> {"Abs", "Rel", "Adapt", "abs", "REL", "Adaptative", "", "Max"}
    [] Kind(a) = "pert" -> {"Max", "Sum", "max", "SUM", "", "Abs"}
    [] Kind(a) = "bool" -> {"true", "false", "True", "FALSE", "1", "yes", ""}
    [] Kind(a) = "method" -> ResolutionNames \cup {"nr", "Broy1", "NewtonRaphson", "BROY3", "BROY1INV", ""}
Trials(a) == IF Size = "two" THEN {v \in Trial(a) : v \in {"0", "2", "-1", "-inf", "inf", "1e", "Rel", "rel", "Sum", "sum", "false", "False", "BROY1_INV", "BROY1INV"}}
             ELSE Trial(a)
Known(tag) == CASE tag = "solver" -> SolverRequired \cup {"damping"}
                [] tag \in {"iteratives"} -> IterNames("fd")
                [] tag \in {"iterative"} -> IterNames("fd") \cup {"id"}
                [] tag \in {"residuals"} -> ResNames
                [] tag \in {"residual"} -> ResNames \cup {"id"}
                [] OTHER -> {}

SetAt(nd, a, v) == [nd EXCEPT !.at = [b \in DOMAIN nd.at \cup {a} |-> IF b = a THEN v ELSE nd.at[b]]]
DropAt(nd, a) == [nd EXCEPT !.at = [b \in DOMAIN nd.at \ {a} |-> nd.at[b]]]
OddTags == {"nrf", "solver", "iteratives", "iterative", "residuals", "residual", "Iterative", "residual_", "Solver", "ITERATIVES", "Residuals", "RESIDUAL"}
(* other spellings of an attribute *)
Upper == [id |-> "ID", max_iter |-> "Max_Iter", damping |-> "Damping", dx_abs |-> "dx-abs", max_value |-> "MAX_VALUE", update_method |-> "Update_method"]
NodeEdits(nd) ==
  UNION {{SetAt(nd, a, v) : v \in Trials(a)} : a \in Known(nd.tag)}
  \cup {DropAt(nd, a) : a \in DOMAIN nd.at}
  \cup {[nd EXCEPT !.tag = t] : t \in OddTags \ {nd.tag}}
  \cup {SetAt(nd, "name", "abs")}
  \cup {SetAt(DropAt(nd, a), Upper[a], nd.at[a]) : a \in DOMAIN nd.at \cap DOMAIN Upper}
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Swap(s, k) == [s EXCEPT ![k] = s[k + 1], ![k + 1] = s[k]]
Twice(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k, Len(s))
ListEdits(s) == {Drop(s, k) : k \in 1..Len(s)} \cup {Twice(s, k) : k \in 1..Len(s)} \cup {Swap(s, k) : k \in 1..(Len(s) - 1)}
(* more nodes, with the ids that follow *)
More(s) == IF s = <<>> THEN {} ELSE {s \o [m \in 1..j |-> N(s[1].tag, [id |-> ToString(Len(s) + m - 1)], <<>>)] : j \in {1, 2, 5}}

Edit(d) ==
  {[d EXCEPT !.root = r] : r \in {"NRF", "solver", "root"}}
  \cup {[d EXCEPT !.kids = s] : s \in ListEdits(d.kids)}
  \cup UNION {{[d EXCEPT !.kids[k] = m] : m \in NodeEdits(d.kids[k])} : k \in 1..Len(d.kids)}
  \cup UNION {{[d EXCEPT !.kids[k].kids = s] : s \in ListEdits(d.kids[k].kids) \cup More(d.kids[k].kids)} : k \in 1..Len(d.kids)}
  \cup UNION {UNION {{[d EXCEPT !.kids[k].kids[j] = m] : m \in NodeEdits(d.kids[k].kids[j])} : j \in 1..Len(d.kids[k].kids)} : k \in 1..Len(d.kids)}

---------------------------------------------------------------------------
(* The reader *)

VARIABLES doc, mode, edits, at, k, conf
mvars == <<doc, mode, edits, at, k, conf>>

NoConf == [n |-> 0, maxiter |-> 0, tol |-> "0", method |-> "NR", damping |-> FALSE, iters |-> <<>>, stop |-> <<>>, upd |-> <<>>]

MInit == /\ \E b \in Bases : mode = b[1] /\ doc = b[2]
         /\ edits = 0 /\ at = "edit" /\ k = 0 /\ conf = NoConf

Change == /\ at = "edit" /\ edits < Depth
          /\ \E d \in Edit(doc) : doc' = d
          /\ edits' = edits + 1
          /\ UNCHANGED <<mode, at, k, conf>>
Open1 == /\ at = "edit" /\ at' = (IF doc.root = "nrf" THEN "solver" ELSE "refused")
         /\ UNCHANGED <<doc, mode, edits, k, conf>>

Refuse == at' = "refused" /\ UNCHANGED <<doc, mode, edits, k, conf>>
Read(nd, a) == nd.at[a]
Good(nd, a) == Has(nd, a) /\ WellFormed(a, nd.at[a])
GoodOrNone(nd, a) == Has(nd, a) => WellFormed(a, nd.at[a])

ReadSolver ==
  /\ at = "solver"
  /\ IF Len(doc.kids) < 1 \/ doc.kids[1].tag # "solver" THEN Refuse
     ELSE LET s == doc.kids[1] IN
          IF ~(Good(s, "problem_size") /\ Good(s, "max_iter") /\ Good(s, "tolerance") /\ Good(s, "resolution_method")) THEN Refuse
          ELSE IF ~GoodOrNone(s, "damping") /\ Quirk # "any_bool" THEN Refuse
          ELSE /\ conf' = [conf EXCEPT !.n = IntOf(Read(s, "problem_size")), !.maxiter = IntOf(Read(s, "max_iter")),
                                       !.tol = Read(s, "tolerance"), !.method = Read(s, "resolution_method"),
                                       !.damping = IF Has(s, "damping") THEN Read(s, "damping") = "true" ELSE Quirk = "damp_default"]
               /\ at' = "iteratives" /\ k' = 0
               /\ UNCHANGED <<doc, mode, edits>>

FloatNames == IterNames(mode) \ {"perturbation_method"}
Build(p) == IF Quirk = "unchecked" THEN TRUE ELSE Sane(LAMBDA a : p[a], mode)
ReadIteratives ==
  /\ at = "iteratives"
  /\ IF Len(doc.kids) < 2 \/ doc.kids[2].tag # "iteratives" THEN Refuse
     ELSE LET s == doc.kids[2] IN
     IF k = 0
     THEN IF (\E a \in IterNames(mode) : ~Good(s, a)) \/ (~Build([a \in FloatNames |-> s.at[a]]) /\ Quirk # "default_unchecked") THEN Refuse
          ELSE k' = 1 /\ UNCHANGED <<doc, mode, edits, at, conf>>
     ELSE IF k > Len(s.kids) THEN at' = "residuals" /\ k' = 0 /\ UNCHANGED <<doc, mode, edits, conf>>
     ELSE LET t == s.kids[k] IN
          IF t.tag # "iterative" \/ ~Good(t, "id") THEN Refuse
          ELSE IF IntOf(t.at["id"]) # k - 1 /\ Quirk # "any_id" THEN Refuse
          ELSE IF \E a \in IterNames(mode) : ~GoodOrNone(t, a) THEN Refuse
          ELSE LET p == [a \in IterNames(mode) |-> IF Has(t, a) /\ ~(Quirk = "no_override" /\ a = "max_step_rel") THEN t.at[a] ELSE s.at[a]]
               IN IF ~Build(p) THEN Refuse
                  ELSE conf' = [conf EXCEPT !.iters = Append(@, p)] /\ k' = k + 1 /\ UNCHANGED <<doc, mode, edits, at>>

ReadResiduals ==
  /\ at = "residuals"
  /\ IF Len(doc.kids) < 3 \/ doc.kids[3].tag # "residuals" THEN Refuse
     ELSE LET s == doc.kids[3] IN
     IF k = 0
     THEN IF \E a \in ResNames : ~Good(s, a) THEN Refuse ELSE k' = 1 /\ UNCHANGED <<doc, mode, edits, at, conf>>
     ELSE IF k > Len(s.kids) THEN at' = "count" /\ UNCHANGED <<doc, mode, edits, k, conf>>
     ELSE LET t == s.kids[k] IN
          IF t.tag # "residual" \/ ~Good(t, "id") THEN Refuse
          ELSE IF IntOf(t.at["id"]) # k - 1 /\ Quirk # "any_id" THEN Refuse
          ELSE IF \E a \in ResNames : ~GoodOrNone(t, a) THEN Refuse
          ELSE LET v(a) == IF Has(t, a) THEN t.at[a] ELSE s.at[a]
               IN conf' = [conf EXCEPT !.stop = Append(@, v("stopping_criteria")), !.upd = Append(@, v("update_method"))]
                  /\ k' = k + 1 /\ UNCHANGED <<doc, mode, edits, at>>

Count ==
  /\ at = "count"
  /\ IF conf.n # Len(conf.iters) \/ (conf.n # Len(conf.stop) /\ Quirk # "count_once") THEN Refuse
     ELSE at' = "ready" /\ UNCHANGED <<doc, mode, edits, k, conf>>

Stop1 == at \in {"refused", "ready"} /\ at' = "end-" \o at /\ UNCHANGED <<doc, mode, edits, k, conf>>

MNext == Change \/ Open1 \/ ReadSolver \/ ReadIteratives \/ ReadResiduals \/ Count \/ Stop1
MSpec == MInit /\ [][MNext]_mvars

---------------------------------------------------------------------------
C20 == at = "ready" => Valid(doc, mode) /\ SameConf(conf, Meaning(doc, mode))
C21 == at = "refused" => ~Valid(doc, mode)
(* a reader that is not at its end goes on *)
Going == at \notin {"end-refused", "end-ready"} => ENABLED (Open1 \/ ReadSolver \/ ReadIteratives \/ ReadResiduals \/ Count \/ Stop1)
Export == at \in {"refused", "ready"} /\ ~Open(doc) => PrintT("HIST " \o ToJson([mode |-> mode, doc |-> doc]))
=============================================================================
