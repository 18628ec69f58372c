-------------------------------- MODULE Wire --------------------------------
(* The sending side and the life of one connection, as its users and its peer see it
   (C05-C09, C19, and the pings of C17).

   Operations are called and return; in between, the connection hands bytes to the network in writes that
   start (WriteStart) and end (WriteEnd), successfully or not.  The frames those bytes form are taken one by one
   (TakeFrame).  At quiescence (Quiet) nothing can run: whatever is still blocked must have a right to be.

   A message is "open" from the call that starts it; cfg.msgs gives its type, the total lengths it may have (tots,
   empty for a streamed message: what has been written to it) and whether it is sent by the library on its own
   (async: broadcasts).  Which message and which part of it a frame carries is given by its payload: cand is the
   set of <<message, offset>> at which the payload is found (an empty payload fits anywhere). *)
EXTENDS Integers, Sequences, FiniteSets, Blame

VARIABLES
  cfg,      \* [ww, rw, disc, autoping, msgs, bp]
  ops,      \* operations in progress: id -> [k, m, ctx, post (called after the close), pw, other (pings at once)]
  msg,      \* per message: [st, sent, frames, avail, fail, called, ctx]
  cur,      \* the message of which some, but not the last, frame is on the wire (0: none)
  infl,     \* [n, own] writes in progress and whose they may be (0: a control frame, -1: anything)
  todo,     \* frames written and not yet taken
  ended,    \* contexts that have ended
  causes,   \* why the connection may close: [code, rs]; code 0: any valid one
  life      \* [cf, deadw, torn (the last write ended in the middle of a frame), failed, raw, dead, disc, killed, pingW, pongF, pongW, pingF]
vars == <<cfg, ops, msg, cur, infl, todo, ended, causes, life>>

LIB == [code |-> 0, rs |-> ""]
NewMsg == [st |-> "new", sent |-> 0, frames |-> 0, avail |-> 0, fail |-> FALSE, ctx |-> 0]
Init0(c) ==
  /\ ops = <<>> /\ msg = [i \in 1..Len(c.msgs) |-> NewMsg] /\ cur = 0
  /\ infl = [n |-> 0, own |-> {}] /\ todo = <<>> /\ ended = {} /\ causes = {}
  /\ life = [cf |-> FALSE, deadw |-> FALSE, torn |-> FALSE, failed |-> FALSE, raw |-> FALSE, dead |-> FALSE, disc |-> 0,
             killed |-> FALSE, pingW |-> 0, pongF |-> 0, pongW |-> 0, pingF |-> 0]

Pending == DOMAIN ops
PendingOn(m, ks) == \E o \in Pending : ops[o].m = m /\ ops[o].k \in ks
Ended(c) == c \in ended
Streamed(m) == cfg.msgs[m].tots = {}
\* A streaming writer somebody holds
Held(m) == msg[m].st = "live" /\ ~PendingOn(m, {"wclose"})
SomeHeld == \E m \in DOMAIN msg : Held(m)
\* The library has a reason of its own to close
LibCause == \/ LIB \in causes
            \/ \E o \in Pending : ops[o].m # 0 /\ ops[o].m = cur /\ Ended(msg[cur].ctx)   \* a message can't be finished
Reason == causes # {} \/ LibCause
Closing == life.dead \/ life.raw \/ (\E o \in Pending : ops[o].k = "close")
\* The connection is known to have closed: whatever is called from now on must fail
Post == life.dead \/ life.raw

ValidCode(c) == c \in {1000, 1001, 1002, 1003} \cup (1007..1011) \cup (3000..4999)

Writing == {"send", "next", "write", "flush", "wclose"}

-----------------------------------------------------------------------------
\* Operations

Call(o, e) ==     \* e: k, m, ctx, n (bytes of a Write), code, rs (of a close)
  /\ o \notin Pending /\ todo = <<>>
  /\ ops' = [x \in Pending \cup {o} |->
              IF x # o THEN (IF e.k = "ping" /\ ops[x].k = "ping" THEN [ops[x] EXCEPT !.other = TRUE] ELSE ops[x]) ELSE
              [other |-> \E q \in Pending : ops[q].k = "ping", k |-> e.k, m |-> e.m, ctx |-> IF e.k \in {"write", "flush", "wclose"} THEN msg[e.m].ctx ELSE e.ctx,
               post |-> Post, pw |-> life.pingW]]
  /\ msg' = CASE e.k \in {"send", "bcast"} -> [msg EXCEPT ![e.m].st = IF e.k = "send" THEN "send" ELSE "async", ![e.m].ctx = e.ctx]
              [] e.k = "next" -> [msg EXCEPT ![e.m].st = "want", ![e.m].ctx = e.ctx]
              [] e.k = "write" -> [msg EXCEPT ![e.m].avail = @ + e.n]
              [] OTHER -> msg
  /\ causes' = CASE e.k = "close" -> causes \cup {[code |-> IF ValidCode(e.code) THEN e.code ELSE 0,
                                                    rs |-> IF e.rslen <= 123 THEN e.rs ELSE ""]}
                 [] e.k = "bcast" /\ cfg.bp = 1 -> causes \cup {LIB}       \* it may find the queue full
                 [] OTHER -> causes
  /\ UNCHANGED <<cfg, cur, infl, todo, ended, life>>

Leave(o) == ops' = [x \in Pending \ {o} |-> ops[x]]
Same == UNCHANGED <<cfg, cur, infl, todo, ended>>

All == {"C05", "C06", "C07", "C08", "C09", "C10", "C17", "C19"}
\* What a call may return, apart from success
Refusal(o, r) ==
  LET p == ops[o] IN
  CASE r = "fatal" -> P({"C07", "C08", "C09"}, Reason)
    [] r = "ctx" -> /\ P(All, p.k \in Writing \cup {"bcast", "badjson", "badop"})
                    /\ P({"C07", "C09"}, Ended(p.ctx))
                    /\ p.k \in Writing => P({"C07"}, p.m = 0 \/ (msg[p.m].frames = 0 \/ p.k \in {"write", "flush"}))
                    /\ p.k \in {"send", "next"} => P({"C08"}, ~p.post)
                    /\ p.k = "send" => P({"C09"}, ~msg[p.m].fail)
    [] r = "json" -> P({"C07"}, p.k = "badjson")
    [] r = "opcode" -> P({"C06", "C07"}, p.k = "badop")
    [] r = "pingsent" -> /\ P(All, p.k = "ping")
                         /\ P({"C08"}, ~p.post)
                         /\ P({"C17"}, p.post \/ life.pingW > 0 \/ cfg.autoping \/ p.other)
    [] r \in {"nobatch", "closed"} -> P(All, p.k = "batch")
    [] OTHER -> FALSE

\* When it may succeed
Success(o) ==
  LET p == ops[o] IN
  CASE p.k \in {"send", "wclose"} -> P(IF p.post THEN {"C06", "C08", "C09"} ELSE {"C06", "C09"}, msg[p.m].st = "sent")
    [] p.k = "next" -> P({"C08"}, ~p.post) /\ P({"C05", "C06"}, ~SomeHeld)
    [] p.k = "write" -> TRUE
    [] p.k = "flush" -> P({"C06", "C09"}, msg[p.m].sent = msg[p.m].avail) /\ P({"C08"}, ~p.post)
    [] p.k = "ping" -> P({"C17", "C09"}, life.pingW > p.pw) /\ P({"C08"}, ~p.post)
    [] p.k = "read" -> P({"C08"}, ~p.post)
    [] p.k = "close" -> P({"C08"}, life.raw)
    [] p.k \in {"bcast", "wstale"} -> TRUE
    [] p.k \in {"badjson", "badop"} -> P({"C06", "C07"}, FALSE)
    [] p.k = "batch" -> P({"C08"}, FALSE)
    [] OTHER -> FALSE

Ret(o, r) ==
  /\ o \in Pending /\ todo = <<>>
  /\ IF r = "ok" THEN Success(o) ELSE Refusal(o, r)
  /\ LET p == ops[o] IN
     /\ msg' = IF p.m = 0 \/ p.k \in {"bcast", "wstale"} THEN msg
               ELSE CASE p.k = "next" /\ r = "ok" -> [msg EXCEPT ![p.m].st = "live"]
                      [] p.k \in {"write", "flush"} /\ r # "ok" -> [msg EXCEPT ![p.m].fail = TRUE]
                      [] p.k \in {"send", "next", "wclose"} /\ msg[p.m].st # "sent" -> [msg EXCEPT ![p.m].st = "given up"]
                      [] OTHER -> msg
     /\ life' = IF r = "fatal" \/ p.k = "close" THEN [life EXCEPT !.dead = TRUE] ELSE life
     \* a message that was given up half-way: the connection must close
     /\ causes' = IF cur # 0 /\ p.m = cur /\ p.k \in {"send", "wclose"} THEN causes \cup {LIB} ELSE causes
  /\ Leave(o) /\ Same

CtxEnd(c) == ended' = ended \cup {c} /\ UNCHANGED <<cfg, ops, msg, cur, infl, todo, causes, life>>

-----------------------------------------------------------------------------
\* The network

WriteStart(own, dl) ==
  /\ todo = <<>>
  /\ P({"C09"}, dl > 0 /\ dl <= cfg.ww)           \* every write runs under a deadline of its own, of at most WriteWait
  /\ infl' = [n |-> infl.n + 1, own |-> infl.own \cup own]
  /\ UNCHANGED <<cfg, ops, msg, cur, todo, ended, causes, life>>

WriteEnd(r, n, frames, torn, mut, dur) ==
  /\ P({"C09"}, dur <= cfg.ww)                    \* ... that nobody moves meanwhile
  /\ todo = <<>> /\ infl.n > 0
  /\ P({"C06", "C19"}, ~mut)                       \* the bytes didn't change under the network's feet
  /\ n > 0 => P({"C05"}, ~life.deadw)              \* nothing follows a write that failed part-way
  /\ infl' = IF infl.n = 1 THEN [n |-> 0, own |-> {}] ELSE [infl EXCEPT !.n = @ - 1]
  /\ todo' = frames
  /\ IF r = "ok" THEN life' = [life EXCEPT !.torn = torn] /\ UNCHANGED <<causes, msg>>
     ELSE /\ life' = [life EXCEPT !.torn = torn, !.failed = TRUE, !.deadw = @ \/ n > 0 \/ torn]
          /\ causes' = causes \cup {LIB}
          /\ msg' = [m \in DOMAIN msg |-> IF infl.own = {m} THEN [msg[m] EXCEPT !.fail = TRUE] ELSE msg[m]]
  /\ UNCHANGED <<cfg, ops, cur, ended>>

CloseAllowed(code, rs) ==
  \/ \E c \in causes : c # LIB /\ (IF c.code = 0 THEN ValidCode(code) ELSE code = c.code) /\ rs = c.rs
  \/ LibCause /\ ValidCode(code)

\* May the frame carry these bytes of message m?
Carries(f, m, off) ==
  LET t == cfg.msgs[m]
      to == off + f.len IN
  /\ msg[m].st \in {"send", "live", "async"} /\ ~msg[m].fail
  /\ off = msg[m].sent
  /\ IF cur = 0 THEN f.op = t.op /\ msg[m].frames = 0 ELSE m = cur /\ f.op = 0
  /\ t.async \/ PendingOn(m, {"send", "write", "flush", "wclose"})
  /\ IF Streamed(m) THEN to <= msg[m].avail ELSE \E x \in t.tots : to <= x
  /\ f.fin => /\ IF Streamed(m) THEN to = msg[m].avail ELSE to \in t.tots
              /\ t.async \/ PendingOn(m, {"send", "wclose"})
Carry(f, m, off) ==
  /\ msg' = [msg EXCEPT ![m].sent = off + f.len, ![m].frames = @ + 1, ![m].st = IF f.fin THEN "sent" ELSE @]
  /\ cur' = IF f.fin THEN 0 ELSE m
  /\ UNCHANGED life
Places(f) == IF f.len = 0 THEN {<<m, msg[m].sent>> : m \in DOMAIN msg} ELSE f.cand
DataFrame(f) ==
  /\ P({"C05"}, IF cur = 0 THEN f.op # 0 ELSE f.op = 0)          \* no message inside another
  /\ LET G == {c \in Places(f) : Carries(f, c[1], c[2])} IN
     IF G # {} THEN \E c \in G : Carry(f, c[1], c[2])
     ELSE P(IF Places(f) = {} THEN {"C06", "C19"} ELSE {"C06"}, FALSE) /\ UNCHANGED <<msg, cur, life>>
ControlFrame(f) ==
  /\ P({"C05"}, f.fin /\ f.len <= 125)
  /\ CASE f.op = 9 -> /\ P({"C17"}, life.pingW <= life.pongF)    \* one ping outstanding at most
                      /\ P({"C17"}, cfg.autoping \/ \E o \in Pending : ops[o].k = "ping")
                      /\ life' = [life EXCEPT !.pingW = @ + 1]
       [] f.op = 10 -> /\ P({"C17"}, f.ping = life.pongW + 1 /\ f.ping <= life.pingF)    \* in order, once
                       /\ life' = [life EXCEPT !.pongW = @ + 1]
       [] f.op = 8 -> /\ P({"C08"}, CloseAllowed(f.code, f.rs))
                      /\ life' = [life EXCEPT !.cf = TRUE]
       [] OTHER -> FALSE
  /\ UNCHANGED <<msg, cur>>

TakeFrame ==
  /\ todo # <<>>
  /\ LET f == Head(todo) IN
     /\ P(IF f.op = 8 THEN {"C05", "C08"} ELSE {"C05"}, f.bad = "") /\ P({"C05", "C08"}, ~life.cf)    \* legal, and nothing follows a close frame
     /\ IF f.op \in 0..2 THEN DataFrame(f)
        ELSE IF f.op \in 8..10 THEN ControlFrame(f)
        ELSE P({"C05"}, FALSE) /\ UNCHANGED <<msg, cur, life>>
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<cfg, ops, infl, ended, causes>>

ReadStart(dl) ==          \* a network read that has to wait
  /\ P({"C09", "C17"}, dl >= 0 /\ dl <= cfg.rw) /\ UNCHANGED vars

DeadlineFails == causes' = causes \cup {LIB} /\ UNCHANGED <<cfg, ops, msg, cur, infl, todo, ended, life>>

RawClose ==
  /\ todo = <<>> /\ ~life.raw /\ P({"C07", "C08", "C09"}, Reason)
  /\ P({"C05"}, life.torn => life.failed \/ infl.n > 0 \/ LIB \in causes)   \* frames are written completely
  /\ life' = [life EXCEPT !.raw = TRUE]
  /\ UNCHANGED <<cfg, ops, msg, cur, infl, todo, ended, causes>>

Disc ==                   \* OnDisconnect runs
  /\ P({"C08"}, life.disc = 0) /\ P({"C07", "C08", "C09"}, Reason)
  /\ life' = [life EXCEPT !.disc = 1]
  /\ UNCHANGED <<cfg, ops, msg, cur, infl, todo, ended, causes>>

-----------------------------------------------------------------------------
\* The peer

Feed(k, code, rs) ==
  /\ life' = CASE k = "ping" -> [life EXCEPT !.pingF = @ + 1]
               [] k = "pong" -> [life EXCEPT !.pongF = @ + 1]
               [] k = "kill" -> [life EXCEPT !.killed = TRUE]
               [] OTHER -> life
  /\ causes' = IF k # "kill" THEN causes ELSE causes \cup {IF code = 0 THEN LIB ELSE [code |-> code, rs |-> rs]}
  /\ UNCHANGED <<cfg, ops, msg, cur, infl, todo, ended>>

\* Time passes: reads and stalled writes may have timed out
Tick == /\ causes' = IF infl.n > 0 \/ cfg.autoping \/ \E o \in Pending : ops[o].k = "read" THEN causes \cup {LIB} ELSE causes
        /\ UNCHANGED <<cfg, ops, msg, cur, infl, todo, ended, life>>

-----------------------------------------------------------------------------
\* Quiescence: nothing can run. P: the operations that have not returned.

MayWaitTurn(o) ==         \* C07: waiting for the writer
  /\ ops[o].k \in {"send", "next"} /\ ~Ended(ops[o].ctx) /\ ~Closing

MayOwn(o) ==              \* the write in progress may be this operation's
  -1 \in infl.own \/ 0 \in infl.own \/ ops[o].m \in infl.own

HasTurn(o) == ops[o].k \in {"write", "flush", "wclose"}
\* While a write is in progress. What has to close the connection (and whoever else does) waits for its end.
MayWait(o) ==
  CASE ops[o].k \in {"write", "flush"} -> ~Ended(ops[o].ctx) \/ MayOwn(o) \/ Reason
    [] ops[o].k \in {"wclose", "ping", "close", "read"} -> TRUE
    [] ops[o].k = "bcast" -> cfg.bp = 2 /\ ~Ended(ops[o].ctx)
    [] ops[o].k \in {"send", "next"} -> MayWaitTurn(o)
    [] OTHER -> FALSE
\* o may be the one send whose turn it is
MayHaveTurn(o) ==
  /\ ops[o].k = "send" /\ ~SomeHeld /\ ~\E q \in Pending : HasTurn(q)
  /\ ~Ended(ops[o].ctx) \/ MayOwn(o) \/ msg[ops[o].m].frames > 0 \/ Reason

Legit(o) ==               \* with no write in progress
  CASE ops[o].k \in {"send", "next"} -> SomeHeld /\ MayWaitTurn(o)
    [] ops[o].k = "read" -> ~Closing /\ ~life.killed /\ life.pongW = life.pingF
    [] ops[o].k = "bcast" -> cfg.bp = 2 /\ ~Ended(ops[o].ctx)
    [] OTHER -> FALSE

\* Whom it concerns that o is stuck
Stuck(o) == CASE ops[o].k \in Writing -> {"C07", "C08", "C09"}
              [] ops[o].k = "ping" -> {"C08", "C09", "C17"}
              [] ops[o].k = "bcast" -> {"C14", "C09"}
              [] OTHER -> {"C08", "C09"}
Quiet(S) ==
  /\ S = Pending /\ todo = <<>>
  /\ IF infl.n > 0
     THEN LET B == {o \in S : ~MayWait(o)} IN
          \/ Cardinality(B) <= 1 /\ \A o \in B : MayHaveTurn(o)
          \/ \A o \in B : P(Stuck(o), FALSE)
     ELSE /\ \A o \in S : P(Stuck(o), Legit(o))
          /\ P({"C08", "C09"}, (life.dead \/ life.failed \/ life.cf) => life.raw)
          /\ P({"C08"}, (life.raw /\ cfg.disc) => life.disc = 1)
          /\ P({"C05"}, life.torn => life.failed \/ LIB \in causes)
          /\ P({"C07"}, (cur # 0 /\ ~life.raw) => Held(cur))         \* never left mid-message
  /\ UNCHANGED vars

\* The end: everything was closed, nothing is left behind
Finish(leaks) ==
  /\ P({"C08"}, Pending = {} /\ life.raw /\ infl.n = 0)
  /\ P({"C10"}, leaks = 0)
  /\ UNCHANGED vars
=============================================================================
