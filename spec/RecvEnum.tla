------------------------------ MODULE RecvEnum ------------------------------
(* Enumerates frame sequences over an alphabet, up to length N: every one whose every proper prefix the connection
   survives, followed by one more frame (to see that it is ignored).  Printed as letters, for replay. *)
EXTENDS RecvRef, TLC, IOUtils
Num(x) == CHOOSE n \in 0..9 : ToString(n) = x
N == Num(IOEnv.ENUM_N)
Sets == [
  all |-> {"T","t","J","B","b","E","e","C","c","d","i","I","o","X","Y","R","U","u","F","L","K","k","1","Z","W","V","H","P","p","M","m"},
  core |-> {"t","B","C","c","d","i","X","R","U","F","K","k","Z","V"},
  data |-> {"T","t","J","B","b","E","e","C","c","d","i","o"},
  limits |-> {"B","b","G","C","c","d","i"}]
Letters == Sets[IOEnv.ENUM_SET]
Max == IF IOEnv.ENUM_MAX = "-1" THEN -1 ELSE Num(IOEnv.ENUM_MAX)
MaxFrag == Num(IOEnv.ENUM_FRAG)
VARIABLES seq, r, extra
cfg == [max |-> Max, maxfrag |-> MaxFrag, u8chk |-> TRUE]
Init == seq = <<>> /\ r = R0 /\ extra = 0
Next == /\ Len(seq) < N /\ extra = 0
        /\ \E x \in Letters :
             /\ r.codes # {} => x \in {"T", "i"}
             /\ ~r.cut
             /\ seq' = Append(seq, x) /\ r' = Take(r, Frame(x), cfg)
             /\ extra' = IF r.codes # {} THEN 1 ELSE 0
        /\ IF extra' = 1 \/ Len(seq') = N \/ r'.cut THEN PrintT(<<"SEQ", seq'>>) ELSE TRUE
Spec == Init /\ [][Next]_<<seq, r, extra>>
=============================================================================
