--------------------------- MODULE KeepAliveTrace ---------------------------
(* Is every recorded execution of pinging and reading a behaviour of KeepAlive? *)
EXTENDS KeepAlive, TraceCheck
VARIABLES tid, l
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ cfg = Traces[i].cfg /\ Init0(cfg)
Ev == Traces[tid].ev[l]
Step ==
  CASE Ev.e = "open" -> Open(Ev.c, Ev.t)
    [] Ev.e = "callread" -> CallRead(Ev.c, Ev.k, Ev.t)
    [] Ev.e = "retread" -> RetRead(Ev.c, Ev.ok, Ev.t)
    [] Ev.e = "callping" -> CallPing(Ev.c, Ev.id)
    [] Ev.e = "retping" -> RetPing(Ev.c, Ev.id, Ev.r, Ev.t)
    [] Ev.e = "close" -> CallClose(Ev.c)
    [] Ev.e = "feed" -> Feed(Ev.c, Ev.k, Ev.n, Ev.t)
    [] Ev.e = "ping" -> PingOut(Ev.c, Ev.t)
    [] Ev.e = "pong" -> PongOut(Ev.c, Ev.n)
    [] Ev.e = "dl" -> Deadline(Ev.c, Ev.d, Ev.t)
    [] Ev.e \in {"cf", "raw", "disc"} -> Closes(Ev.c, Ev.e, Ev.code, Ev.t)
    [] Ev.e = "q" -> Quiet(Ev.mutex, Ev.t)
    [] OTHER -> FALSE
\* Connections are independent: what happens to c may as well happen right before the next event of c
Concerns(c) == IF Ev.e = "q" THEN TRUE ELSE IF cn[c].open /\ cn[c].next < Ev.t THEN TRUE ELSE Ev.c = c
Next == l <= Len(Traces[tid].ev) /\
  (\/ \E c \in Cs : Concerns(c) /\ Handle(c) /\ UNCHANGED <<tid, l>>
   \/ \E c \in Cs : Concerns(c) /\ cn[c].open /\ cn[c].next <= Ev.t /\ Tick(c) /\ UNCHANGED <<tid, l>>
   \/ Timely(Ev.t) /\ Step /\ l' = l + 1 /\ UNCHANGED tid)
View == <<tid, l, cn>>
TraceSpec == Init /\ [][Next]_<<vars, tid, l>>
Mark == Reached(tid, l)
=============================================================================
