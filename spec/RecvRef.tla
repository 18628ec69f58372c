------------------------------- MODULE RecvRef -------------------------------
(* A second, independent statement of what a peer's frame sequence means: a fold over the frames, for an
   application that reads every message whole.  Used to check Recv (RecvMC) and to generate stimuli (RecvEnum). *)
EXTENDS Integers, Sequences, FiniteSets

Base == [op |-> 1, fin |-> TRUE, rsv |-> FALSE, mask |-> TRUE, len |-> 2, have |-> 2, hdr |-> TRUE, u8 |-> TRUE,
         ck |-> "", code |-> 0, js |-> "bad", jl |-> 0, huge |-> FALSE]
Ctl(op, n) == [Base EXCEPT !.op = op, !.len = n, !.have = n, !.js = ""]
Close(ck, n, code) == [Ctl(8, n) EXCEPT !.ck = ck, !.code = code]

\* The alphabet: one frame per letter
Frame(x) ==
  CASE x = "T" -> Base
    [] x = "t" -> [Base EXCEPT !.fin = FALSE]
    [] x = "J" -> [Base EXCEPT !.js = "ok", !.jl = 2]
    [] x = "B" -> [Base EXCEPT !.op = 2, !.js = ""]
    [] x = "b" -> [Base EXCEPT !.op = 2, !.fin = FALSE, !.js = ""]
    [] x = "E" -> [Base EXCEPT !.len = 0, !.have = 0]
    [] x = "e" -> [Base EXCEPT !.len = 0, !.have = 0, !.fin = FALSE]
    [] x = "G" -> [Base EXCEPT !.op = 2, !.len = 5, !.have = 5, !.js = ""]
    [] x = "C" -> [Base EXCEPT !.op = 0, !.js = ""]
    [] x = "c" -> [Base EXCEPT !.op = 0, !.fin = FALSE, !.js = ""]
    [] x = "d" -> [Base EXCEPT !.op = 0, !.fin = FALSE, !.len = 0, !.have = 0, !.js = ""]
    [] x = "i" -> Ctl(9, 2)
    [] x = "I" -> Ctl(9, 0)
    [] x = "o" -> Ctl(10, 2)
    [] x = "X" -> [Base EXCEPT !.op = 3, !.js = ""]
    [] x = "Y" -> Ctl(11, 2)
    [] x = "R" -> [Base EXCEPT !.rsv = TRUE]
    [] x = "U" -> [Base EXCEPT !.mask = FALSE]
    [] x = "u" -> [Ctl(9, 2) EXCEPT !.mask = FALSE]
    [] x = "F" -> [Ctl(9, 2) EXCEPT !.fin = FALSE]
    [] x = "L" -> Ctl(9, 126)
    [] x = "K" -> Close("ok", 5, 1001)
    [] x = "k" -> Close("empty", 0, 1000)
    [] x = "1" -> Close("one", 1, 0)
    [] x = "Z" -> Close("code", 2, 1005)
    [] x = "W" -> Close("utf", 3, 1000)
    [] x = "V" -> [Base EXCEPT !.u8 = FALSE]
    [] x = "H" -> [Base EXCEPT !.hdr = FALSE, !.have = 0]
    [] x = "P" -> [Base EXCEPT !.op = 2, !.have = 1, !.js = ""]
    [] x = "p" -> [Ctl(9, 2) EXCEPT !.have = 1]
    [] x = "M" -> [Base EXCEPT !.huge = TRUE, !.js = ""]
    [] x = "m" -> [Base EXCEPT !.op = 0, !.huge = TRUE, !.js = ""]

Cuts == {"H", "P", "p"}      \* the stream ends there

R0 == [st |-> 0, sum |-> 0, n |-> 0, msgs |-> <<>>, pings |-> <<>>, codes |-> {}, cut |-> FALSE, i |-> 0]
\* One frame more. st: index of the first frame of the unfinished message, or 0.
Take(r, f, cfg) ==
  LET i == r.i + 1
      ctl == f.op >= 8
      over(k) == cfg.max >= 0 /\ k > cfg.max
      e == (IF f.op \notin {0, 1, 2, 8, 9, 10} \/ f.rsv \/ ~f.mask \/ (ctl /\ (~f.fin \/ f.len > 125)) THEN {1002} ELSE {})
           \cup (IF f.huge THEN {1002, 1009} ELSE {})
           \cup (IF ~ctl /\ ((f.op = 0) = (r.st = 0)) THEN {1002} ELSE {})
           \cup (IF over(f.len) THEN {1009} ELSE {})
           \cup (IF f.op = 0 /\ r.st # 0 /\ over(r.sum + f.len) THEN {1009} ELSE {})
           \cup (IF r.st # 0 /\ ~ctl /\ cfg.maxfrag > 0 /\ r.n >= cfg.maxfrag THEN {1008} ELSE {})
      q == [r EXCEPT !.i = i]
  IN  IF r.codes # {} \/ r.cut THEN q
      ELSE IF ~f.hdr THEN [q EXCEPT !.cut = TRUE]
      ELSE IF e # {} THEN [q EXCEPT !.codes = e]
      ELSE IF f.have < f.len THEN [q EXCEPT !.cut = TRUE]
      ELSE IF f.op = 9 THEN [q EXCEPT !.pings = Append(@, i)]
      ELSE IF f.op = 10 THEN q
      ELSE IF f.op = 8 THEN [q EXCEPT !.codes = CASE f.ck = "ok" -> {f.code} [] f.ck = "empty" -> {1000}
                                                  [] f.ck = "utf" -> {1002, 1007} [] OTHER -> {1002}]
      ELSE LET s == IF f.op = 0 THEN r.st ELSE i
               sum == IF f.op = 0 THEN r.sum + f.len ELSE f.len
               n == IF f.op = 0 THEN r.n + 1 ELSE 1
           IN IF ~f.fin THEN [q EXCEPT !.st = s, !.sum = sum, !.n = n]
              ELSE [q EXCEPT !.st = 0, !.msgs = Append(@, s)]
RECURSIVE Fold(_, _, _)
Fold(r, fr, cfg) == IF r.i = Len(fr) THEN r ELSE Fold(Take(r, fr[r.i + 1], cfg), fr, cfg)
Ref(fr, cfg) == Fold(R0, fr, cfg)
Over(r) == r.codes # {} \/ r.cut
=============================================================================
