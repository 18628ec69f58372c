----------------------------- MODULE RateLimit -----------------------------
(* The rate limiter (C16): a token bucket per connection.  Amounts are in thousandths of a message, time in
   milliseconds, so cfg.mps is what comes in per ms.  Every data message that is read is decided on once, at some
   moment between its first frame's arrival at a waiting reader and the end of the read: it costs 1000 if it is
   delivered, nothing if it is dropped.  One unit either way is left to rounding.  A connection that's
   being closed loses its bucket, so a message in the middle of being read may get through. *)
EXTENDS Integers, Sequences, FiniteSets, Blame
VARIABLES cfg,      \* [nc, mps, burst, hook]
          cn        \* per connection: [open, tok, last: what was in the bucket when, inq: messages that have (begun to) arrive
                    \*  and aren't decided on, full: those that have arrived completely, cur: the message decided on,
                    \*  dec: "", "deliver", "drop", hits: times the hook was called for it, rd: "", "whole", "next",
                    \*  prev: what was delivered last, why: it may be closing]
vars == <<cfg, cn>>
Cs == DOMAIN cn
Init0(c) == cn = [i \in 1..c.nc |-> [open |-> FALSE, tok |-> 0, last |-> 0, inq |-> <<>>, full |-> {}, cur |-> 0, dec |-> "", hits |-> 0,
                                     rd |-> "", prev |-> 0, why |-> FALSE]]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Set(c, r) == cn' = [cn EXCEPT ![c] = r] /\ UNCHANGED cfg

Open(c, t) == ~cn[c].open /\ Set(c, [cn[c] EXCEPT !.open = TRUE, !.tok = 1000 * cfg.burst, !.last = t])
Feed(c, m) == Set(c, [cn[c] EXCEPT !.inq = Append(@, m)])
Fed(c, m) == Set(c, [cn[c] EXCEPT !.full = @ \cup {m}])
Call(c, k) ==
  IF k = "close" THEN Set(c, [cn[c] EXCEPT !.why = TRUE])
  ELSE cn[c].rd = "" /\ Set(c, [cn[c] EXCEPT !.rd = k])

Level(x, t) == Min(1000 * cfg.burst, x.tok + (t - x.last) * cfg.mps)
\* The next message is decided on at time t
Decide(c, t) ==
  LET x == cn[c]
      b == Level(x, t)
      y == [x EXCEPT !.cur = Head(x.inq), !.inq = Tail(@), !.last = t, !.hits = 0] IN
  /\ x.rd # "" /\ x.dec = "" /\ x.inq # <<>> /\ t >= x.last
  /\ \/ P({"C16"}, b >= 999 \/ x.why) /\ Set(c, [y EXCEPT !.dec = "deliver", !.tok = Max(0, b - 1000)])
     \/ P({"C16"}, b <= 1000) /\ b < 2000 /\ Set(c, [y EXCEPT !.dec = "drop", !.tok = b])
Hit(c, bad) ==
  /\ P({"C16"}, cfg.hook /\ cn[c].dec = "drop" /\ cn[c].hits = 0)
  /\ Set(c, [cn[c] EXCEPT !.hits = 1, !.why = @ \/ bad])
Ret(c, r, m) ==
  LET x == cn[c]
      y == [x EXCEPT !.dec = "", !.cur = 0, !.rd = "", !.prev = x.cur] IN
  /\ x.rd # ""
  /\ CASE r = "msg" -> P({"C16"}, x.dec = "deliver" /\ m = x.cur /\ m \in x.full)
       [] r = "mismatch" -> P({"C16"}, x.dec = "deliver")
       [] r = "next" -> P({"C16"}, x.dec = "deliver")
       [] r = "limited" -> P({"C16"}, x.dec = "drop" /\ x.cur \in x.full /\ (cfg.hook => x.hits = 1))
       [] r = "fatal" -> P({"C16"}, x.why)
       [] OTHER -> P({"C16"}, FALSE)
  /\ Set(c, y)
\* What was read of the message delivered last
Part(c, m) == P({"C16"}, cn[c].prev = m) /\ UNCHANGED vars
Disc(c) == P({"C16"}, cn[c].why) /\ UNCHANGED vars
Quiet(mutex) ==
  /\ P({"C16"}, mutex = 0)
  /\ \A c \in Cs : LET x == cn[c] IN
       (x.rd # "" /\ ~x.why) =>     \* it waits for something that hasn't arrived
         P({"C16"}, (x.dec = "" /\ x.inq = <<>>) \/ (x.dec # "" /\ x.cur \notin x.full /\ ~(x.dec = "deliver" /\ x.rd = "next")))
  /\ UNCHANGED vars
=============================================================================
