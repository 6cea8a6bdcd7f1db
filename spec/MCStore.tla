------------------------------ MODULE MCStore ------------------------------
(***************************************************************************)
(* All sequences of up to Depth operations on the store, with invertible   *)
(* and singular matrices.  The invariants speak about the history only.    *)
(***************************************************************************)
EXTENDS Store, IOUtils, Json, Integers

Size == IOEnv.SIZE
Quirk == IOEnv.QUIRK
Depth == CASE Size = "four" -> 4 [] Size = "five" -> 5 [] OTHER -> 3

A == <<<<"2.0", "0.0">>, <<"1.0", "-0.5">>>>
B == <<<<"0.0", "4.0">>, <<"-2.0", "1.0">>>>
S == <<<<"1.0", "2.0">>, <<"0.0", "0.0">>>>
H == <<<<"0.5", "0.25">>, <<"0.0", "-1.0">>>>
Op(o, m) == [op |-> o, mat |-> m]
Ops == {Op("exact", A), Op("exact", S), Op("approx", B), Op("approx", S), Op("inverse", H), Op("force", <<>>), Op("invalidate", <<>>)}
       \cup (IF Size = "five" THEN {} ELSE {Op("exact", B)})

VARIABLES st, hist
mvars == <<st, hist>>

Apply(s, o) ==
  CASE o.op \in {"exact", "approx"} ->
         LET inv == Inverse(o.mat)
         IN IF inv = <<>> THEN (IF Quirk = "keep_old" THEN [s EXCEPT !.sure = FALSE] ELSE FailMatrix(s))
            ELSE IF Quirk = "stale_inverse" /\ s.inv # <<>> THEN SetMatrix(s, o.mat, s.inv, o.op = "approx")
            ELSE SetMatrix(s, o.mat, inv, o.op = "approx")
    [] o.op = "inverse" -> IF Quirk = "stale_matrix" THEN [SetInverse(s, o.mat) EXCEPT !.m = s.m] ELSE SetInverse(s, o.mat)
    [] o.op = "force" -> Force(s)
    [] o.op = "invalidate" -> Invalidate(s)

MInit == st = New /\ hist = <<>>
MNext == /\ Len(hist) < Depth
         /\ \E o \in Ops : st' = Apply(st, o) /\ hist' = Append(hist, o)
MSpec == MInit /\ [][MNext]_mvars

---------------------------------------------------------------------------
Last(P(_)) == LET I == {i \in 1..Len(hist) : P(hist[i])}
              IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
Sets(o) == o.op \in {"exact", "approx"}
Good(o) == Sets(o) /\ ~PlainlySingular(o.mat)
SetsAny(o) == Sets(o) \/ o.op = "inverse"
Empties(o) == o.op = "invalidate"

Consistent == /\ st.m # <<>> => st.inv # <<>> /\ \A r \in 1..2, c \in 1..2 : FEq(MMul(st.m, st.inv)[r][c], Ident(2)[r][c])
              /\ LET l == Last(LAMBDA o : SetsAny(o) \/ Empties(o))
                 IN CASE l = 0 -> st.m = <<>> /\ st.inv = <<>>
                      [] Empties(hist[l]) -> st.m = <<>> /\ st.inv = <<>>
                      [] hist[l].op = "inverse" -> st.m = <<>> /\ st.inv = hist[l].mat
                      [] Good(hist[l]) -> st.m = hist[l].mat
                      [] OTHER -> st.m = <<>> /\ st.inv = <<>>
Asks == st.due = (Last(Good) = 0 \/ Last(LAMBDA o : o.op = "force") > Last(Good))
Says == st.sure => LET l == Last(LAMBDA o : Good(o) \/ o.op = "inverse") IN st.approx = (l # 0 /\ hist[l].op # "exact")
C24 == Consistent /\ Asks /\ Says
Export == Len(hist) = Depth => PrintT("HIST " \o ToJson([ops |-> hist]))
=============================================================================
