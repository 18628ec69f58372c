--------------------------- MODULE HandshakeTrace ---------------------------
(* Is every recorded upgrade a behaviour of Handshake? *)
EXTENDS Handshake, TraceCheck
VARIABLES tid, l
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ cfg = Traces[i].cfg /\ Init0(cfg)
Ev == Traces[tid].ev[l]
Step ==
  CASE Ev.e = "call" -> Call(Ev.req)
    [] Ev.e = "mw" -> Mw(Ev.r, Ev.i)
    [] Ev.e = "hijack" -> Hijack(Ev.r, Ev.ok)
    [] Ev.e = "http" -> HttpError(Ev.r, Ev.status)
    [] Ev.e = "answer" -> Answer(Ev.r, Ev)
    [] Ev.e = "answerfails" -> AnswerFails(Ev.r)
    [] Ev.e = "frame" -> Frame(Ev.r)
    [] Ev.e = "hook" -> Hook(Ev.r)
    [] Ev.e = "raw" -> RawClose(Ev.r)
    [] Ev.e = "ret" -> Ret(Ev.r, Ev.ok, Ev.proto)
    [] Ev.e = "q" -> Quiet(Ev.mutex)
    [] OTHER -> FALSE
Next == l <= Len(Traces[tid].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
View == <<tid, l, rq>>
TraceSpec == Init /\ [][Next]_<<vars, tid, l>>
Mark == Reached(tid, l)
=============================================================================
