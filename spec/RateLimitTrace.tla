--------------------------- MODULE RateLimitTrace ---------------------------
(* Is every recorded execution with a rate limiter a behaviour of RateLimit? *)
EXTENDS RateLimit, TraceCheck
VARIABLES tid, l, foc, at
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ foc = 0 /\ at = [c \in 1..Traces[i].cfg.nc |-> 0] /\ cfg = Traces[i].cfg /\ Init0(cfg)
Ev == Traces[tid].ev[l]
Step ==
  CASE Ev.e = "open" -> Open(Ev.c, Ev.t)
    [] Ev.e = "call" -> Call(Ev.c, Ev.k)
    [] Ev.e = "ret" -> Ret(Ev.c, Ev.r, Ev.m)
    [] Ev.e = "feed" -> Feed(Ev.c, Ev.m)
    [] Ev.e = "fed" -> Fed(Ev.c, Ev.m)
    [] Ev.e = "part" -> Part(Ev.c, Ev.m)
    [] Ev.e = "hit" -> Hit(Ev.c, Ev.bad)
    [] Ev.e = "disc" -> Disc(Ev.c)
    [] Ev.e = "q" -> Quiet(Ev.mutex)
    [] OTHER -> FALSE
\* Connections are independent: a message is decided on right before an event of its connection, or before everything
\* is quiet: at that moment, or when the event of its connection before that happened
Next == l <= Len(Traces[tid].ev) /\
  (\/ \E c \in Cs : c > foc /\ (IF Ev.e = "q" THEN TRUE ELSE IF Ev.e \in {"open", "livelock"} THEN FALSE ELSE Ev.c = c) /\ (\E t \in {at[c], Ev.t} : Decide(c, t)) /\ foc' = c /\ UNCHANGED <<tid, l, at>>
   \/ Step /\ l' = l + 1 /\ foc' = 0 /\ UNCHANGED tid
      /\ at' = IF Ev.e = "q" THEN at ELSE [at EXCEPT ![Ev.c] = Ev.t])
View == <<tid, l, foc, at, cn>>
TraceSpec == Init /\ [][Next]_<<vars, tid, l, foc, at>>
Mark == Reached(tid, l)
=============================================================================
