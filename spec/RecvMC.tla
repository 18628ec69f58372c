------------------------------- MODULE RecvMC -------------------------------
(* Recv against RecvRef, for every frame sequence over the alphabet up to length N and every way an application
   reads (or, with Kinds = {"msg"}, for one that reads every message whole). *)
EXTENDS Recv, RecvRef, TLC
CONSTANTS N, Letters, Kinds, Sizes
VARIABLES seq, got, pong
mcvars == <<vars, seq, got, pong>>
SeqsUpTo(n) == UNION {[1..k -> Letters] : k \in 0..n}
Init == /\ seq \in {s \in SeqsUpTo(N) : \A i \in 1..Len(s) : s[i] \in Cuts => i = Len(s)}
        /\ fr = [i \in 1..Len(seq) |-> Frame(seq[i])]
        /\ cfg \in [max : {-1, 4}, maxfrag : {0, 2}, u8chk : {TRUE, FALSE}]
        /\ got = <<>> /\ pong = <<>> /\ Init0
Same == UNCHANGED <<seq, got, pong>>
Calls == \E k \in Kinds : (k = "read" => m.s # 0) /\ (clo = "open") /\ Call(k) /\ Same
Whole1 == RetWhole(fr[m.s].op, {m.s}) /\ got' = Append(got, m.s) /\ UNCHANGED <<seq, pong>>
\* Reads deliver in pieces: the message counts when EOF is reported
Reads == \E n \in Sizes, k \in 0..2, e \in BOOLEAN :
           /\ RetRead(n, k, e, {m.s}) /\ UNCHANGED <<seq, pong>>
           /\ got' = IF e /\ m.tot + k > 0 /\ k > 0 THEN Append(got, m.s) ELSE got
Others == (m.s # 0 /\ (RetMismatch \/ RetNext(fr[m.s].op) \/ \E ok \in BOOLEAN : RetJSON(ok, {m.s}))) \/ RetFatal
Answer == Pong({Head(pq)}) /\ pong' = Append(pong, Head(pq)) /\ UNCHANGED <<seq, got>>
Done == dead # {} /\ clo = "raw" /\ call = NoCall /\ UNCHANGED mcvars
Next == Calls \/ (Internal /\ Same) \/ (m.s # 0 /\ Whole1) \/ (m.s # 0 /\ Reads) \/ (Others /\ Same)
        \/ (pq # <<>> /\ Answer) \/ (\E c \in dead : CloseFrame(IF c = 0 THEN 1011 ELSE c, TRUE) /\ Same) \/ (RawClose /\ Same) \/ Done
Spec == Init /\ [][Next]_mcvars

R == Ref(fr, cfg)
Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
Elems(s) == {s[i] : i \in 1..Len(s)}
\* C01, C02, C03: what is delivered is complete, in order, once, within the limits, before any violation
Delivered == Increasing(got) /\ Elems(got) \subseteq Elems(IF Kinds = {"msg"} THEN R.msgs ELSE Ref(fr, [cfg EXCEPT !.max = -1, !.maxfrag = 0]).msgs)
\* an application that reads everything gets everything, up to bad text
BadAt == LET b == {i \in 1..Len(R.msgs) : cfg.u8chk /\ fr[R.msgs[i]].op = 1 /\ ~fr[R.msgs[i]].u8} IN
         IF b = {} THEN Len(R.msgs) + 1 ELSE CHOOSE i \in b : \A j \in b : i <= j
\* (a fragment limit may be enforced before the frame that breaks it: then the message is unfinished anyway)
Everything == (Kinds = {"msg"} /\ dead # {}) =>
              /\ got = SubSeq(R.msgs, 1, BadAt - 1)
              /\ IF BadAt <= Len(R.msgs) THEN dead = {1007}
                 ELSE dead \subseteq (IF R.codes = {} THEN {ANY, 1008} ELSE R.codes \cup (IF cfg.maxfrag > 0 THEN {1008} ELSE {}))
\* C17: pings answered in order, all of them unless the connection closed
Pongs == pong = SubSeq(R.pings, 1, Len(pong))
         \/ Kinds # {"msg"}
Sound == /\ m.tot <= m.acc
         /\ dead = {} => clo = "open"
         /\ clo # "open" => dead # {}
         /\ (fi > Len(fr) + 1) = FALSE
=============================================================================
