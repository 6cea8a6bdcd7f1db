----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Operations on the implementation's store of the jacobian, and what it   *)
(* exposes after each: [id, ev], ev a sequence of                          *)
(*   [op, got, mat, st, ...]   st = [m, inv, due, approx]                  *)
(* op "update"/"updateinv" are the quasi-Newton updates, "fd"/"given" the  *)
(* evaluations of the true jacobian with a model (ev: its calls).          *)
(* Each operation is explained from what the store exposed before it.      *)
(***************************************************************************)
EXTENDS Formulas, Store, Json, IOUtils, Integers, FiniteSets

CONSTANT Prop
Runs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, s, bad, seen, cnt
vars == <<tid, i, s, bad, seen, cnt>>

T == Runs[tid]
O == T.ev[i]
If(c, S) == IF c THEN S ELSE {}
B(S, m) == {[p |-> q, at |-> i, m |-> m] : q \in S}

U0 == FMul("8.0", Eps)
MClose(a, b, unc) ==
  LET tol == FMul("4.0", FMul(FAdd(unc, U0), MNorm(b)))
  IN Len(a) = Len(b) /\ \A r \in 1..Len(b) : Len(a[r]) = Len(b) /\ \A c \in 1..Len(b) : FClose(a[r][c], b[r][c], "0.0", tol)
MSame(a, b) == Len(a) = Len(b) /\ \A r \in 1..Len(b) : VSame(a[r], b[r])

(* the inverse exposed is the one of the matrix exposed *)
Coherent(st) ==
  IF st.m = <<>> THEN TRUE
  ELSE LET k == WithInverse(st.m, "0.0")
       IN st.inv # <<>> /\ (k.known => MClose(st.inv, k.inv, k.unc))

(* what is expected after O: the matrix m or inverse h, with uncertainty; known when it is specified *)
Expect(k, m, h, unc) == [k |-> k, m |-> m, h |-> h, unc |-> unc]

Fam == Family(O.method)
UD == FMul("16.0", Eps)
BaseUnc == WithInverse(s.m, "0.0").unc
NewMatrix == UpdateMatrix(Fam, s.m, s.inv, "0.0", BaseUnc, O.s, O.y, O.f, UD)
NewInverse == UpdateInverse(Fam, s.inv, "0.0", O.s, O.y, O.f, UD)

(* the true jacobian, from the calls of the model *)
Evals == SelectSeq(O.ev, LAMBDA e : e.e = "eval")
Cols == [k \in 1..(Len(Evals) - 1) |-> NormalizeAll(Evals[k + 1].l, Evals[k + 1].r, O.upd)]
F0 == NormalizeAll(Evals[1].l, Evals[1].r, O.upd)
D == [k \in 1..Len(O.x) |-> Perturbation(O.iters[k], O.x[k])]
Failed == Evals[Len(Evals)].out = "unus"
IsColumn(x, k) == \A j \in 1..Len(O.x) : FClose(x[j], IF j = k THEN FAdd(O.x[k], D[k]) ELSE O.x[j], IF j = k THEN "1.0E-15" ELSE "0.0", "0.0")
ColumnsBad ==
  LET n == Len(O.x)
      k == Len(Evals) - 1
  IN \/ Len(O.ev) # Len(Evals)
     \/ \E j \in 1..k : j > n \/ ~IsColumn(Evals[j + 1].x, j)
     \/ \E j \in 1..k : ~VSame(Evals[j + 1].mb, Evals[1].ma)
     \/ \E j \in 1..(k - 1) : Evals[j + 1].out = "unus"
     \/ ~Failed /\ k # n
Asked == SelectSeq(O.ev, LAMBDA e : e.e = "jac")

SetMatrixBad(m, unc, sure, set) ==
  (* m: the matrix to be set, unc its uncertainty, sure: whether it is known at all *)
  LET k == WithInverse(m, unc)
  IN IF O.got = "singular"
     THEN If(sure /\ k.known, {"C24"} \cup set) \cup If(O.st.m # <<>> \/ O.st.inv # <<>>, {"C24"})
     ELSE IF O.got = "ok"
     THEN If(sure /\ SurelySingular(m) /\ FIsZero(unc), {"C24"}) \cup
          If(sure /\ k.known /\ ~MClose(O.st.m, k.m, unc), set) \cup
          If(sure /\ FIsZero(unc) /\ ~MSame(O.st.m, m), {"C24"}) \cup
          If(sure /\ k.known /\ ~MClose(O.st.inv, k.inv, k.unc), {"C24"} \cup set) \cup
          If(O.st.m = <<>> \/ O.st.inv = <<>>, {"C24"})
     ELSE {"C24"} \cup set

(* the state as the specification sees it: its flags, the exposed matrices *)
After ==
  LET setmat(ap) == IF O.got = "ok" THEN SetMatrix(s, O.st.m, O.st.inv, ap) ELSE FailMatrix(s)
  IN CASE O.op = "new" -> New
       [] O.op \in {"exact", "fd", "given"} -> IF O.got \in {"unus", "inacc"} THEN [s EXCEPT !.m = O.st.m, !.inv = O.st.inv] ELSE setmat(FALSE)
       [] O.op \in {"approx", "update"} -> setmat(TRUE)
       [] O.op \in {"inverse", "updateinv"} -> SetInverse(s, O.st.inv)
       [] O.op = "force" -> Force(s)
       [] O.op = "invalidate" -> Invalidate(s)

Flags(a) == If(a.due # O.st.due, {"C24"}) \cup If(a.sure /\ a.approx # O.st.approx, {"C24"})
            \cup If(O.op \notin {"exact", "approx", "fd", "given", "update"} /\ O.got # "ok", {"C24"})
(* the model gave no jacobian: what was there stays, or nothing does *)
KeptOrNone == If((O.st.m # <<>> \/ O.st.inv # <<>>) /\ (~MSame(O.st.m, s.m) \/ ~MSame(O.st.inv, s.inv)), {"C24"})
Kept == If(~MSame(O.st.m, s.m) \/ ~MSame(O.st.inv, s.inv), {"C24"})

Judge ==
  CASE O.op = "new" -> If(O.st.m # <<>> \/ O.st.inv # <<>>, {"C24"})
    [] O.op \in {"exact", "approx"} -> SetMatrixBad(O.mat, "0.0", TRUE, {})
    [] O.op = "inverse" -> If(O.st.m # <<>> \/ ~MSame(O.st.inv, O.mat), {"C24"})
    [] O.op = "force" -> Kept
    [] O.op = "invalidate" -> If(O.st.m # <<>> \/ O.st.inv # <<>>, {"C24"})
    [] O.op = "update" -> LET u == NewMatrix
                              ok == u.ok /\ Known(BaseUnc)
                          IN SetMatrixBad(IF ok THEN u.m ELSE s.m, IF ok THEN u.unc ELSE "Infinity", ok, {"C07"})
    [] O.op = "updateinv" -> LET u == NewInverse
                             IN If(O.st.m # <<>>, {"C24"})
                                \cup If(u.ok /\ Known(u.unc) /\ ~MClose(O.st.inv, u.m, u.unc), {"C07"})
    [] O.op = "fd" ->
         IF ColumnsBad THEN {"C13"}
         ELSE IF Failed THEN If(O.got # "unus", {"C11"}) \cup KeptOrNone
         ELSE IF O.got \in {"unus", "inacc"} THEN {"C11"} \cup If(O.got = "inacc", {"C10"})
         ELSE LET unc == DiffUnc(Cols, F0, D, O.upd)
                  m == DiffMatrix(Cols, F0, D)
              IN SetMatrixBad(m, unc, MFinite(m), {"C13"})
    [] O.op = "given" ->
         LET a == Asked[1]
         IN IF Len(Asked) # 1 \/ Len(Evals) # 1 THEN {"C14"}
            ELSE IF a.out # "ok" THEN If(O.got # a.out, {"C11"}) \cup KeptOrNone
            ELSE IF O.got \in {"unus", "inacc"} THEN {"C11"}
            ELSE LET e == Evals[1]
                     m == DNormalizeAll(e.l, e.r, a.dl, a.dr, O.upd)
                 IN SetMatrixBad(m, MembersUnc(e.l, e.r, a.dl, a.dr, O.upd), MFinite(m), {"C14"})

Init == tid \in 1..Len(Runs) /\ i = 1 /\ s = New /\ bad = {} /\ seen = {} /\ cnt = [known |-> 0, open |-> 0]

Step ==
  /\ i >= 1 /\ i <= Len(T.ev)
  /\ IF O.op = "hang" \/ O.got = "panic"
     THEN /\ bad' = bad \cup B({"C24", "C12"}, "does not return: " \o O.op)
          /\ i' = Len(T.ev) + 1
          /\ UNCHANGED <<s, cnt>>
     ELSE /\ s' = After
          /\ bad' = bad \cup B(Judge \cup If(~Coherent(O.st), {"C24"}) \cup Flags(After), O.op \o " " \o O.got)
          /\ i' = i + 1
          /\ cnt' = IF O.got \in {"ok", "singular"} THEN [cnt EXCEPT !.known = @ + 1] ELSE [cnt EXCEPT !.open = @ + 1]
  /\ seen' = seen \cup {O.op \o ":" \o O.got} \cup If(O.op \in {"update", "updateinv"}, {O.method})
  /\ UNCHANGED tid

End == /\ i = Len(T.ev) + 1
       /\ PrintT(<<"VERDICT", T.id, bad, seen, cnt, i>>)
       /\ i' = -1
       /\ UNCHANGED <<tid, s, bad, seen, cnt>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Holds == \A b \in bad : Prop # "ALL" /\ b.p # Prop
=============================================================================
