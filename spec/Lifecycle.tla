----------------------------- MODULE Lifecycle -----------------------------
(* What is left of connections that have closed (C10): nothing.  A connection is dialed, used by operations, and closes.
   From the moment it has closed, no operation on it is in progress and the application has forgotten it, nothing
   may refer to it anymore: no structure of the library (manager, rooms, rate limiter, flusher, queues) and none of its
   goroutines.  In the end, when no connection is left and the flushers are done, no goroutine of the library is left. *)
EXTENDS Integers, Sequences, FiniteSets, Blame
VARIABLES cn,       \* per connection: [st, disc, ops: number of operations in progress]
          wide      \* the number of operations on all connections in progress (they may refer to any of them)
vars == <<cn, wide>>
Wide == {"bcast", "batch", "lookup", "rooms", "shutdown"}
Cs == DOMAIN cn
Init0(c) == cn = [i \in 1..c.nc |-> [st |-> "none", disc |-> 0, ops |-> 0]] /\ wide = 0
ToSet(s) == {s[i] : i \in 1..Len(s)}

Dial(c) == cn[c].st = "none" /\ cn' = [cn EXCEPT ![c].st = "dialing"] /\ UNCHANGED wide
\* The handshake is over. A connection may have closed (in the hook, say) before.
Dialed(c, ok) ==
  /\ cn[c].st \in {"dialing", "closed"}
  /\ ok \/ P({"C10"}, cn[c].st = "closed")              \* a failed handshake leaves no network connection open
  /\ cn' = [cn EXCEPT ![c].st = IF ok THEN (IF @ = "closed" THEN @ ELSE "open") ELSE "closed"]
  /\ UNCHANGED wide
\* Operation of kind k, on connection c (0: on none in particular).
Count(c, k, n) ==
  /\ cn' = IF c = 0 THEN cn ELSE [cn EXCEPT ![c].ops = @ + n]
  /\ wide' = IF k \in Wide THEN wide + n ELSE wide
Call(c, k) == Count(c, k, 1)
Ret(c, k) == (c # 0 => cn[c].ops > 0) /\ (k \in Wide => wide > 0) /\ Count(c, k, -1)
RawClose(c) == cn[c].st \in {"dialing", "open"} /\ cn' = [cn EXCEPT ![c].st = "closed"] /\ UNCHANGED wide
Disc(c) == cn' = [cn EXCEPT ![c].disc = @ + 1] /\ UNCHANGED wide
\* left: the connections that something refers to. held: those the application does.
Gc(left, held) ==
  /\ P({"C10"}, wide > 0 \/ \A c \in left \ held : ~(cn[c].st = "closed" /\ cn[c].ops = 0))
  /\ held \subseteq left                                 \* (what isn't garbage is found)
  /\ UNCHANGED vars
Quiet(mutex) == P({"C10"}, mutex = 0) /\ UNCHANGED vars
End(gor) == P({"C10"}, gor = 0 \/ wide > 0 \/ \E c \in Cs : cn[c].ops > 0) /\ UNCHANGED vars
=============================================================================
