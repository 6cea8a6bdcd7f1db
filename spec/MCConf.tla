------------------------------- MODULE MCConf -------------------------------
(* Finite configurations for MCNewton; the environment variable SIZE picks *)
(* one of them, QUIRK a deliberate deviation ("none" for the specification).*)
EXTENDS MCNewton, IOUtils

Size == IOEnv.SIZE
MyQuirks == IF IOEnv.QUIRK = "none" THEN {} ELSE {IOEnv.QUIRK}

MySolves == IF Size = "again" THEN 2 ELSE 1

Steep == [P0 EXCEPT !.msa = "0.75", !.msr = "0.5", !.lo = "-0.25", !.hi = "1.75", !.pm = "Sum"]
Bools == {TRUE, FALSE}
Abs1 == <<"Abs">>
Abs2 == <<"Abs", "Abs">>

One(methods, provs, damps, iters, ps, norms, guess) ==
  {Cfg(m, p, d, k, <<q>>, <<nn[1]>>, <<nn[2]>>, guess) : m \in methods, p \in provs, d \in damps, k \in iters, q \in ps, nn \in norms}
Two(methods, provs, damps, iters, norms, guess) ==
  {Cfg(m, p, d, k, <<P0, Steep>>, nn[1], nn[2], guess) : m \in methods, p \in provs, d \in damps, k \in iters, nn \in norms}
AA == {<<"Abs", "Abs">>}
Mixed2 == {<<<<"Abs", "Rel">>, <<"Adapt", "Abs">>>>, <<Abs2, Abs2>>}

MyConfigs ==
  CASE Size = "tiny" ->
         One({"NR", "SN", "BROY1", "BROY2_INV"}, Bools, Bools, {0, 1, 2}, {P0}, AA, <<"1.0">>)
    [] Size = "limits" ->
         One({"NR", "SN", "GRST1", "GRST2_INV"}, {TRUE}, Bools, {2}, {Steep}, {<<"Abs", "Abs">>, <<"Rel", "Adapt">>}, <<"1.0">>)
    [] Size = "two" ->
         Two({"NR", "SN", "BROY1", "GRST1_INV"}, Bools, Bools, {1, 2}, Mixed2, <<"1.0", "-0.5">>)
    [] Size = "again" ->
         One({"NR", "SN", "BROY1"}, {TRUE}, Bools, {1, 2}, {P0}, AA, <<"1.0">>)
    [] Size = "deep" ->
         One({"BROY1", "GRST2_INV"}, Bools, {TRUE}, {4}, {P0}, AA, <<"1.0">>)
    [] Size = "methods" ->
         One(Methods, Bools, Bools, {0, 1, 2, 3}, {P0}, AA, <<"1.0">>)
    [] Size = "methods2" ->
         Two(Methods, Bools, Bools, {2}, Mixed2, <<"1.0", "-0.5">>)
    [] Size = "norms" ->
         One(Methods, {TRUE}, Bools, {2}, {P0, Steep}, {<<a, b>> : a, b \in {"Abs", "Rel", "Adapt"}}, <<"1.0">>)

R(l, r, o) == [l |-> l, r |-> r, out |-> o]
MyReplies(c) ==
  CASE Size \in {"tiny", "methods"} ->
         {R(<<"0.0">>, <<"0.0">>, "ok"), R(<<"0.0">>, <<"0.0">>, "inacc"), R(<<"1.0">>, <<"0.0">>, "ok"), R(<<"-3.0">>, <<"0.0">>, "ok"),
          R(<<"2.0">>, <<"0.0">>, "inacc"), R(<<"NaN">>, <<"0.0">>, "ok"), R(<<"1.0">>, <<"0.0">>, "unus")}
    [] Size \in {"limits", "norms"} ->
         {R(<<"1.5">>, <<"1.5">>, "ok"), R(<<"1.0">>, <<"-0.5">>, "ok"), R(<<"-3.0">>, <<"0.25">>, "inacc"), R(<<"0.5">>, <<"2.0">>, "ok"),
          R(<<"0.0">>, <<"0.0">>, "inacc")}
    [] Size = "again" ->
         {R(<<"0.0">>, <<"0.0">>, "ok"), R(<<"1.0">>, <<"0.0">>, "inacc"), R(<<"-3.0">>, <<"0.0">>, "ok"), R(<<"4.0">>, <<"0.0">>, "unus")}
    [] Size = "deep" ->
         {R(<<"0.0">>, <<"0.0">>, "ok"), R(<<"1.0">>, <<"0.0">>, "ok"), R(<<"-3.0">>, <<"0.0">>, "ok"), R(<<"4.0">>, <<"0.0">>, "inacc")}
    [] OTHER ->
         {R(<<"1.5", "0.0">>, <<"1.5", "0.0">>, "ok"), R(<<"1.0", "-2.0">>, <<"-0.5", "0.0">>, "ok"), R(<<"-3.0", "0.5">>, <<"0.25", "-1.0">>, "inacc"),
          R(<<"0.5", "1.5">>, <<"2.0", "0.25">>, "ok")}
MyAsked(c) ==
  IF c.n = 1
  THEN {[dl |-> <<<<"2.0">>>>, dr |-> <<<<"0.5">>>>, out |-> "ok"], [dl |-> <<<<"0.0">>>>, dr |-> <<<<"0.0">>>>, out |-> "ok"]}
       \cup (IF Size \in {"deep", "again"} THEN {} ELSE {[dl |-> <<<<"1.0">>>>, dr |-> <<<<"0.0">>>>, out |-> "inacc"], [dl |-> <<<<"1.0">>>>, dr |-> <<<<"0.0">>>>, out |-> "unus"]})
  ELSE {[dl |-> <<<<"2.0", "1.0">>, <<"0.5", "-3.0">>>>, dr |-> <<<<"0.5", "0.0">>, <<"0.0", "1.0">>>>, out |-> "ok"],
        [dl |-> <<<<"0.0", "0.0">>, <<"0.5", "-3.0">>>>, dr |-> <<<<"0.0", "0.0">>, <<"0.0", "1.0">>>>, out |-> "ok"],
        [dl |-> <<<<"1.0", "0.0">>, <<"0.0", "1.0">>>>, dr |-> <<<<"0.0", "0.0">>, <<"0.0", "0.0">>>>, out |-> "inacc"]}
=============================================================================
