--------------------------- MODULE BatchTrace ---------------------------
(* Is every recorded execution with batching a behaviour of Batch? *)
EXTENDS Batch, TraceCheck
VARIABLES tid, l, foc
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ foc = 0 /\ cfg = [Traces[i].cfg EXCEPT !.ends = ToSet(@), !.fends = ToSet(@)] /\ Init0(cfg)
Ev == Traces[tid].ev[l]
Step ==
  CASE Ev.e = "call" -> Call(Ev.id, Ev)
    [] Ev.e = "ret" -> Ret(Ev.id, Ev.r, Ev.n, Ev.t)
    [] Ev.e \in {"hold", "unhold"} -> Hold(Ev.c, IF Ev.e = "hold" THEN 1 ELSE -1)
    [] Ev.e = "ws" -> WriteStart(Ev.c)
    [] Ev.e = "rawclose" -> Raw(Ev.c)
    [] Ev.e = "disc" -> Disc(Ev.c)
    [] Ev.e = "we" -> Wrote(Ev.c, Ev.ok, Ev.fr, Ev.t)
    [] Ev.e = "custom" -> Custom(Ev.c, Ev.ids, Ev.t)
    [] Ev.e = "customend" -> CustomEnd(Ev.c)
    [] Ev.e = "cancel" -> CtxEnd(Ev.ctx)
    [] Ev.e = "q" -> Quiet(ToSet(Ev.pend), Ev.infl, Ev.mutex, Ev.t)
    [] OTHER -> FALSE
\* What happens inside is independent for different connections, so it suffices to consider it right before an event
\* that concerns the connection, one connection after the other.
Concerns(c) ==
  CASE Ev.e \in {"we", "custom", "rawclose"} -> Ev.c = c
    [] Ev.e = "ret" -> /\ Ev.id \in Pending
                       /\ LET p == ops[Ev.id] IN
                          CASE p.k = "bb" -> c \in p.must \cup p.may
                            [] p.k \in {"fclose", "fcancel"} -> bind[c] = p.f
                            [] p.k = "enable" -> bind[c] = p.prev
                            [] p.k = "batch" -> p.c = c
                            [] OTHER -> FALSE
    [] Ev.e = "q" -> TRUE
    [] OTHER -> FALSE
Next0 == l <= Len(Traces[tid].ev) /\ (\/ \E c \in Cs : c >= foc /\ Concerns(c) /\ Internal(c, Ev.t) /\ foc' = c /\ UNCHANGED <<tid, l>>
                                      \/ Step /\ l' = l + 1 /\ foc' = 0 /\ UNCHANGED tid)
View == <<tid, l, foc, fl, cur, bind, acc, mt, lost, bq, nx, grp, busy, ops, ended, cn>>
TraceSpec == Init /\ [][Next0]_<<vars, tid, l, foc>>
Mark == Reached(tid, l)
=============================================================================
