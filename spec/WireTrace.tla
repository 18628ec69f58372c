----------------------------- MODULE WireTrace -----------------------------
(* Is every recorded execution of a connection's sending side a behaviour of Wire? *)
EXTENDS Wire, TraceCheck
VARIABLES tid, l
ToSet(s) == {s[i] : i \in 1..Len(s)}
Cfg(c) == [c EXCEPT !.msgs = [i \in 1..Len(c.msgs) |-> [c.msgs[i] EXCEPT !.tots = ToSet(@)]]]
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 1 /\ cfg = Cfg(Traces[i].cfg) /\ Init0(cfg)
Ev == Traces[tid].ev[l]
Frames(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.cand = ToSet(@)]]
Step ==
  CASE Ev.e = "call" -> Call(Ev.id, Ev)
    [] Ev.e = "ret" -> Ret(Ev.id, Ev.r)
    [] Ev.e = "cancel" -> CtxEnd(Ev.ctx)
    [] Ev.e = "ws" -> WriteStart(ToSet(Ev.own), Ev.dl)
    [] Ev.e = "we" -> WriteEnd(Ev.r, Ev.n, Frames(Ev.fr), Ev.torn, Ev.mut, Ev.dur)
    [] Ev.e = "rd" -> ReadStart(Ev.dl)
    [] Ev.e = "raw" -> RawClose
    [] Ev.e = "dlfail" -> DeadlineFails
    [] Ev.e = "disc" -> Disc
    [] Ev.e = "feed" -> Feed(Ev.k, Ev.code, Ev.rs)
    [] Ev.e = "adv" -> Tick
    [] Ev.e = "q" -> P(All, Ev.mutex = 0) /\ Quiet(ToSet(Ev.pend))
    [] Ev.e = "end" -> Finish(Ev.leaks)
    [] OTHER -> FALSE
Next == \/ TakeFrame /\ UNCHANGED <<tid, l>>
        \/ todo = <<>> /\ l <= Len(Traces[tid].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
View == <<tid, l, ops, msg, cur, infl, todo, ended, causes, life>>
TraceSpec == Init /\ [][Next]_<<vars, tid, l>>
Pos == IF todo = <<>> THEN l ELSE l - 1      \* a trace is accepted when its last frames are taken, too
Mark == Reached(tid, Pos)
=============================================================================
