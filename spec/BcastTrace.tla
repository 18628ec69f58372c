--------------------------- MODULE BcastTrace ---------------------------
(* Is every recorded execution with broadcasts a behaviour of Bcast? *)
EXTENDS Bcast, TraceCheck
VARIABLES tid, l, foc
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ foc = 0 /\ cfg = [Traces[i].cfg EXCEPT !.ends = ToSet(@)] /\ Init0(cfg)
Ev == Traces[tid].ev[l]
Step ==
  CASE Ev.e = "call" -> Call(Ev.id, Ev)
    [] Ev.e = "ret" -> Ret(Ev.id, Ev.r, Ev.n)
    [] Ev.e \in {"hold", "unhold"} -> Hold(Ev.c, IF Ev.e = "hold" THEN 1 ELSE -1)
    [] Ev.e = "ws" -> WriteStart(Ev.c)
    [] Ev.e = "raw" -> Raw(Ev.c)
    [] Ev.e = "disc" -> Disc(Ev.c)
    [] Ev.e = "kill" -> Kill(Ev.c, Ev.code)
    [] Ev.e = "we" -> Wrote(Ev.c, Ev.ok, Ev.fr)
    [] Ev.e = "cancel" -> CtxEnd(Ev.ctx)
    [] Ev.e = "q" -> Quiet(ToSet(Ev.pend), Ev.infl, Ev.mutex)
    [] OTHER -> FALSE
\* What happens inside is independent for different connections, so it suffices to consider it right before an event
\* that concerns the connection, one connection after the other.
Concerns(c) ==
  CASE Ev.e = "we" -> Ev.c = c
    [] Ev.e = "ret" -> Ev.id \in Pending /\ ops[Ev.id].k = "bcast" /\ c \in ops[Ev.id].must \cup ops[Ev.id].may
    [] Ev.e = "q" -> TRUE
    [] OTHER -> FALSE
Next == l <= Len(Traces[tid].ev) /\ (\/ \E c \in Cs : c >= foc /\ Concerns(c) /\ Internal(c) /\ foc' = c /\ UNCHANGED <<tid, l>>
                                     \/ Step /\ l' = l + 1 /\ foc' = 0 /\ UNCHANGED tid)
View == <<tid, l, foc, grp, q, hand, busy, ops, ended, nx, cn>>
TraceSpec == Init /\ [][Next]_<<vars, tid, l, foc>>
Mark == Reached(tid, l)
=============================================================================
