--------------------------- MODULE RegistryTrace ---------------------------
(* Is every recorded execution around a manager a behaviour of Registry? *)
EXTENDS Registry, TraceCheck
VARIABLES tid, l
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ cfg = [Traces[i].cfg EXCEPT !.ends = ToSet(@)] /\ Init0(cfg)
Ev == Traces[tid].ev[l]
Step ==
  CASE Ev.e = "call" -> Call(Ev.id, Ev)
    [] Ev.e = "ret" -> Ret(Ev.id, Ev.r)
    [] Ev.e = "onreg" -> OnReg(Ev.c, Ev.key)
    [] Ev.e = "onunreg" -> OnUnreg(Ev.c, Ev.key)
    [] Ev.e = "raw" -> Raw(Ev.c)
    [] Ev.e = "disc" -> Disc(Ev.c)
    [] Ev.e = "kill" -> Kill(Ev.c, Ev.code)
    [] Ev.e = "we" -> Wrote(Ev.c, Ev.ok, Ev.fr)
    [] Ev.e = "cancel" -> UNCHANGED vars
    [] Ev.e = "q" -> Quiet(ToSet(Ev.pend), Ev.infl, Ev.mutex)
    [] OTHER -> FALSE
Next == l <= Len(Traces[tid].ev) /\ (\/ Internal /\ UNCHANGED <<tid, l>>
                                     \/ Step /\ l' = l + 1 /\ UNCHANGED tid)
View == <<tid, l, held, ops, rg, cn, soft>>
TraceSpec == Init /\ [][Next]_<<vars, tid, l>>
Mark == Reached(tid, l)
=============================================================================
