---------------------------- MODULE LinAlgCheck ----------------------------
(* The definitions of LinAlg (read from LinAlgPlain, a copy that TLC does  *)
(* not override) agree with the Java class that stands for them.           *)
EXTENDS LinAlg, Json, IOUtils, TLC
P == INSTANCE LinAlgPlain
Data == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE k
E == Data[k]
Near(a, b) == FClose(a, b, "1.0E-12", "1.0E-300") \/ (FIsNaN(a) /\ FIsNaN(b))
VN(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
MN(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VN(a[i], b[i])
Agree ==
  /\ Near(FSumSeq(E.u), P!FSumSeq(E.u)) /\ Near(FMaxSeq(E.u), P!FMaxSeq(E.u))
  /\ VN(VAdd(E.u, E.v), P!VAdd(E.u, E.v)) /\ VN(VSub(E.u, E.v), P!VSub(E.u, E.v))
  /\ VN(VScale(E.a, E.v), P!VScale(E.a, E.v)) /\ VN(VNeg(E.v), P!VNeg(E.v)) /\ VN(VAbs(E.v), P!VAbs(E.v))
  /\ Near(Dot(E.u, E.v), P!Dot(E.u, E.v)) /\ Near(AbsDot(E.u, E.v), P!AbsDot(E.u, E.v)) /\ Near(VNorm(E.u), P!VNorm(E.u))
  /\ VFinite(E.u) = P!VFinite(E.u) /\ VHasNaN(E.u) = P!VHasNaN(E.u) /\ VSame(E.u, E.v) = P!VSame(E.u, E.v) /\ VSame(E.u, E.u)
  /\ VN(MV(E.m, E.v), P!MV(E.m, E.v)) /\ VN(TMV(E.m, E.v), P!TMV(E.m, E.v)) /\ VN(AbsMV(E.m, E.v), P!AbsMV(E.m, E.v))
  /\ MN(MSub(E.m, E.k), P!MSub(E.m, E.k)) /\ MN(MScale(E.a, E.m), P!MScale(E.a, E.m)) /\ MN(Outer(E.u, E.v), P!Outer(E.u, E.v))
  /\ Near(MNorm(E.m), P!MNorm(E.m)) /\ MFinite(E.m) = P!MFinite(E.m) /\ MN(FromCols(E.m), P!FromCols(E.m))
  /\ MN(MMul(E.m, E.k), P!MMul(E.m, E.k)) /\ MN(Ident(Len(E.m)), P!Ident(Len(E.m)))
  /\ PlainlySingular(E.m) = P!PlainlySingular(E.m)
  /\ LET a == Inverse(E.m)
         b == P!Inverse(E.m)
     IN (a = <<>>) = (b = <<>>) /\ MN(a, b)
Init == k \in 1..Len(Data)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
=============================================================================
