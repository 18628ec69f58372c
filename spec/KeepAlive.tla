----------------------------- MODULE KeepAlive -----------------------------
(* Pings and the life of connections over time (C17).  Time is in milliseconds, every event says when it happens.

   The server pings each connection at every multiple of cfg.pe after it was opened, unless a ping is already
   outstanding.  A pong that matches ends that, a pong that doesn't closes the connection with 1002, a pong nobody
   waits for is ignored.  Frames of the peer are handled in order, and only while the application reads.  A read runs
   under a deadline: cfg.rw from the beginning of the message's reading or from the last pong, whatever is later; it
   is what closes a connection whose peer stays silent, and nothing else does.  Every ping of the peer is answered,
   in order, with what it contained. *)
EXTENDS Integers, Sequences, FiniteSets, Blame
VARIABLES cfg,      \* [nc, pe: PingEvery, rw: ReadWait]
          cn        \* per connection, see Init0
vars == <<cfg, cn>>
Cs == DOMAIN cn
Conn0 == [open |-> FALSE, next |-> 0,        \* when the next tick is
          out |-> FALSE, due |-> FALSE,      \* a ping is outstanding; a ping has to be sent now
          pre |-> FALSE,                     \* a ping that is about to be sent has been answered already
          ops |-> <<>>,                      \* explicit pings in progress: id -> [sent: one was since, busy: one was outstanding]
          inq |-> <<>>, at |-> 0,            \* what has arrived and isn't handled; when that or the reader last changed
          rd |-> "",                         \* "", "new": the reading of a new message, "cont"
          lo |-> 0, dl |-> -1, cause |-> FALSE,  \* the connection lives until lo at least; the read deadline; there was a reason to set it
          ans |-> <<>>,                      \* pings that have to be answered
          codes |-> {},                      \* why it may be closing: the close codes, 0: any
          raw |-> FALSE, cf |-> FALSE, disc |-> FALSE]
Init0(c) == cn = [i \in 1..c.nc |-> Conn0]
Set(c, r) == cn' = [cn EXCEPT ![c] = r] /\ UNCHANGED cfg
Why(x) == x.codes # {}
Alive(x) == x.open /\ ~Why(x)
Reading(x) == x.rd # "" /\ x.inq # <<>>

-----------------------------------------------------------------------------
Open(c, t) == ~cn[c].open /\ Set(c, [cn[c] EXCEPT !.open = TRUE, !.next = t + cfg.pe, !.at = t])

\* A tick, at the connection's next tick time. What's been handled before that, has been handled before.
Tick(c) ==
  LET x == cn[c]
      y == [x EXCEPT !.next = @ + cfg.pe] IN
  /\ x.open /\ ~x.raw /\ ~(Reading(x) /\ x.at < x.next)
  /\ P({"C17"}, ~x.due)                    \* the last one was sent
  /\ IF x.out THEN Set(c, y)
     ELSE \/ Set(c, [y EXCEPT !.due = Alive(x)])
          \/ DOMAIN x.ops # {} /\ Set(c, y)       \* somebody is at it

Sent(x) == [o \in DOMAIN x.ops |-> [sent |-> TRUE, busy |-> TRUE]]
\* A ping begins to be sent
PingOut(c, t) ==
  LET x == cn[c] IN
  /\ P({"C17"}, ~x.out /\ (x.due \/ DOMAIN x.ops # {}))
  /\ P({"C17"}, x.due /\ DOMAIN x.ops = {} => t = x.next - cfg.pe)
  /\ Set(c, [x EXCEPT !.out = ~x.pre, !.pre = FALSE, !.due = FALSE, !.ops = Sent(x)])

\* The reader handles the next frame
Handle(c) ==
  LET x == cn[c]
      f == Head(x.inq)
      y == [x EXCEPT !.inq = Tail(@)] IN
  /\ Reading(x)
  /\ CASE f.k = "ping" -> Set(c, [y EXCEPT !.ans = Append(@, f.n), !.cause = TRUE])
       [] f.k = "data" -> Set(c, [y EXCEPT !.cause = TRUE])
       [] f.k = "kill" -> Set(c, [y EXCEPT !.codes = @ \cup {0}])
       [] f.k = "pong" ->
            \/ x.out /\ f.n = 1 /\ Set(c, [y EXCEPT !.out = FALSE, !.lo = x.at + cfg.rw, !.cause = TRUE])
            \/ (x.out \/ x.due \/ DOMAIN x.ops # {}) /\ f.n # 1 /\ Set(c, [y EXCEPT !.codes = @ \cup {1002}])
            \/ ~x.out /\ Set(c, [y EXCEPT !.cause = TRUE])
            \/ ~x.out /\ (x.due \/ DOMAIN x.ops # {}) /\ f.n = 1 /\ Set(c, [y EXCEPT !.pre = TRUE, !.lo = x.at + cfg.rw, !.cause = TRUE])

-----------------------------------------------------------------------------
Feed(c, k, n, t) == Set(c, [cn[c] EXCEPT !.inq = Append(@, [k |-> k, n |-> n]), !.at = t])

CallRead(c, k, t) ==
  LET x == cn[c] IN
  x.rd = "" /\ Set(c, [x EXCEPT !.rd = k, !.at = t, !.cause = @ \/ k = "new", !.lo = IF k = "new" THEN t + cfg.rw ELSE @])
RetRead(c, ok, t) ==
  LET x == cn[c] IN
  /\ x.rd # ""
  /\ IF ok THEN Set(c, [x EXCEPT !.rd = ""])
     ELSE P({"C17"}, Why(x) \/ t >= x.lo) /\ Set(c, [x EXCEPT !.rd = "", !.codes = @ \cup (IF Why(x) THEN {} ELSE {0})])
CallPing(c, id) ==
  LET x == cn[c] IN
  Set(c, [x EXCEPT !.ops = [o \in DOMAIN x.ops \cup {id} |-> IF o # id THEN [x.ops[o] EXCEPT !.busy = TRUE]
                                                            ELSE [sent |-> FALSE, busy |-> x.out \/ x.due \/ DOMAIN x.ops # {}]]])
RetPing(c, id, r, t) ==
  LET x == cn[c] IN
  /\ id \in DOMAIN x.ops
  /\ CASE r = "ok" -> P({"C17"}, x.ops[id].sent)
       [] r = "pingsent" -> P({"C17"}, x.ops[id].busy \/ t = x.next \/ t = x.next - cfg.pe)
       [] r = "fatal" -> P({"C17"}, Why(x) \/ (x.rd # "" /\ t >= x.lo))
  /\ Set(c, [x EXCEPT !.ops = [o \in DOMAIN x.ops \ {id} |-> x.ops[o]]])
CallClose(c) == Set(c, [cn[c] EXCEPT !.codes = @ \cup {1000}])

PongOut(c, n) ==
  LET x == cn[c] IN
  P({"C17"}, x.ans # <<>> /\ Head(x.ans) = n) /\ Set(c, [x EXCEPT !.ans = Tail(@)])

\* The read deadline is set, d from now
Deadline(c, d, t) ==
  LET x == cn[c] IN
  /\ Why(x) \/ P({"C17"}, d >= 0 /\ d <= cfg.rw /\ x.cause)
  /\ Set(c, [x EXCEPT !.dl = t + d, !.cause = FALSE])

\* It closes
Closes(c, what, code, t) ==
  LET x == cn[c] IN
  /\ P({"C17"}, Why(x) \/ (x.rd # "" /\ t >= x.lo))
  /\ what = "cf" => P({"C17"}, 0 \in x.codes \/ code \in x.codes \/ (x.rd # "" /\ t >= x.lo))
  /\ Set(c, [x EXCEPT !.raw = @ \/ what = "raw", !.due = FALSE, !.codes = IF Why(x) THEN @ ELSE {0}])

Quiet(mutex, t) ==
  /\ P({"C17"}, mutex = 0)
  /\ \A c \in Cs : LET x == cn[c] IN x.open =>
       /\ P({"C17"}, Why(x) => x.raw)
       /\ P({"C17"}, x.raw \/ ~x.due)
       /\ P({"C17"}, DOMAIN x.ops = {})
       /\ (x.rd # "" /\ ~x.raw) => /\ P({"C17"}, x.inq = <<>> /\ x.ans = <<>>)
                                   /\ P({"C17"}, x.dl > t)          \* it won't wait longer than that
  /\ UNCHANGED vars
\* Nothing that had to happen before t is missing
Timely(t) == \A c \in Cs : LET x == cn[c] IN (x.open /\ ~x.raw) => x.next >= t
=============================================================================
