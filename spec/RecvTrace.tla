------------------------------ MODULE RecvTrace ------------------------------
(* Is every recorded execution of the read side a behaviour of Recv? *)
EXTENDS Recv, TraceCheck
VARIABLES tid, l
ToSet(s) == {s[i] : i \in 1..Len(s)}
Init == \E i \in 1..Len(Traces) :
  /\ tid = i /\ l = 1 /\ cfg = Traces[i].cfg /\ fr = Traces[i].fr /\ Init0
Ev == Traces[tid].ev[l]
IsEv(n) == l <= Len(Traces[tid].ev) /\ Ev.e = n /\ l' = l + 1 /\ UNCHANGED tid
Next ==
  \/ IsEv("call") /\ Call(Ev.k)
  \/ Internal /\ UNCHANGED <<tid, l>>
  \/ IsEv("pong") /\ Pong(ToSet(Ev.cand))
  \/ IsEv("close") /\ CloseFrame(Ev.code, Ev.echo)
  \/ IsEv("raw") /\ RawClose
  \/ IsEv("ret") /\ CASE Ev.r = "fatal" -> RetFatal
                      [] Ev.r = "msg" -> RetWhole(Ev.op, ToSet(Ev.cand))
                      [] Ev.r = "mismatch" -> RetMismatch
                      [] Ev.r = "next" -> RetNext(Ev.op)
                      [] Ev.r = "read" -> RetRead(Ev.n, Ev.got, Ev.eof, ToSet(Ev.cand))
                      [] Ev.r = "json" -> RetJSON(Ev.ok, ToSet(Ev.cand))
                      [] OTHER -> FALSE
  \/ IsEv("end") /\ Quiet /\ UNCHANGED vars
View == <<tid, l, fi, m, call, dead, clo, pq>>     \* fr and cfg follow from tid
TraceSpec == Init /\ [][Next]_<<vars, tid, l>>
Mark == Reached(tid, l)
\* report the traces that were not accepted to the end
=============================================================================
