--------------------------- MODULE HandshakeEnum ---------------------------
(* Enumerates requests and configurations: in each of the dimensions one takes the first (good) value or another, at
   most ENUM_K of them another. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
Num(x) == CHOOSE n \in 0..99 : ToString(n) = x
K == Num(IOEnv.ENUM_K)
Dims == <<4, 12, 12, 7, 9, 9, 5, 2, 9, 4, 4>>
VARIABLES v, k
Init == v = <<>> /\ k = 0
Next == /\ Len(v) < Len(Dims)
        /\ \E x \in 1..Dims[Len(v) + 1] :
             /\ v' = Append(v, x) /\ k' = k + (IF x = 1 THEN 0 ELSE 1) /\ k' <= K
        /\ IF Len(v') = Len(Dims) THEN PrintT(<<"SEQ", v'>>) ELSE TRUE
Spec == Init /\ [][Next]_<<v, k>>
=============================================================================
