--------------------------- MODULE LifecycleTrace ---------------------------
(* Is every recorded life of some connections a behaviour of Lifecycle? *)
EXTENDS Lifecycle, TraceCheck
VARIABLES tid, l
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ Init0(Traces[i].cfg)
Ev == Traces[tid].ev[l]
Step ==
  CASE Ev.e = "dial" -> Dial(Ev.c)
    [] Ev.e = "dialed" -> Dialed(Ev.c, Ev.ok)
    [] Ev.e = "call" -> Call(Ev.c, Ev.k)
    [] Ev.e = "ret" -> Ret(Ev.c, Ev.k)
    [] Ev.e = "rawclose" -> RawClose(Ev.c)
    [] Ev.e = "disc" -> Disc(Ev.c)
    [] Ev.e = "gc" -> Gc(ToSet(Ev.left), ToSet(Ev.held))
    [] Ev.e = "q" -> Quiet(Ev.mutex)
    [] Ev.e = "end" -> End(Ev.gor)
    [] OTHER -> FALSE
Next == l <= Len(Traces[tid].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
View == <<tid, l, vars>>
TraceSpec == Init /\ [][Next]_<<vars, tid, l>>
Mark == Reached(tid, l)
=============================================================================
