------------------------------ MODULE RoomsMC ------------------------------
(* Rooms closed with an environment: NC connections that join, leave, move, close, break; rooms that are closed; a
   shutdown.  Up to Par operations at once (within the domain: a room isn't joined while it is being closed, a
   connection isn't moved twice at once), at most N stimuli.  With Emits they are printed, for replay. *)
EXTENDS Rooms, TLC
CONSTANTS NC, N, Par, Looks, Emits
VARIABLES hist, down, born
mcvars == <<vars, hist, down, born>>
RKey == <<1, 2, 1, 2>>
Init == \E h \in BOOLEAN :
          /\ cfg = [nc |-> NC, ckey |-> [c \in 1..NC |-> 0], rkey |-> RKey, hooks |-> h, bp |-> 0, ends |-> 1..NC] /\ Init0(cfg)
          /\ hist = <<0, "">> /\ down = FALSE /\ born = 0
E(k, c, key, r, args) == [k |-> k, c |-> c, key |-> key, room |-> r, args |-> args, excl |-> <<>>, res |-> <<>>, done |-> FALSE, code |-> 1000]
Spare(k) == rmap[k] # 0 \/ \E r \in 1..Len(RKey) : RKey[r] = k /\ r \notin used   \* the model has a room object left
Busy(ks) == \E o \in Pending : ops[o].k \in ks
Adders == {"radd", "rconnect", "rmove"}
Enders == {"rclose", "rmshut"}
Known(c) == \E x \in mem : x.c = c
Begun == {c \in Cs : c <= born}
Wrong == \E o \in Pending : ops[o].k = "rgetall" /\ ~ops[o].hit
Stim(letter, e) == Call(hist[1] + 1, e) /\ hist' = <<hist[1] + 1, hist[2] \o letter \o " ">>
Stimulus ==
  /\ hist[1] < N /\ Cardinality(Pending) < Par /\ ~Wrong /\ ~down /\ (Par = 1 => ENABLED Quiet({}, 0, 0))
  /\ \/ \E c \in Cs, k \in 1..2 : /\ c \notin Begun /\ (c = 1 \/ c - 1 \in Begun) /\ Spare(k) /\ ~Busy(Enders)
                                  /\ Stim("n" \o ToString(c) \o ToString(k), E("rconnect", c, k, 0, <<1>>)) /\ born' = c /\ UNCHANGED down
     \/ \E c \in Begun, k \in 1..2 : /\ rmap[k] # 0 /\ ~Busy(Enders) /\ ~cn[c].raw
                                     /\ Stim("a" \o ToString(c) \o ToString(k), E("radd", c, 0, rmap[k], <<2>>)) /\ UNCHANGED <<down, born>>
     \/ \E c \in Begun, k \in 1..2 : /\ rmap[k] # 0
                                     /\ Stim("d" \o ToString(c) \o ToString(k), E("rrem", c, 0, rmap[k], <<3>>)) /\ UNCHANGED <<down, born>>
     \/ \E k \in 1..2 : /\ rmap[k] # 0 /\ Stim("D" \o ToString(k), E("rremall", 0, 0, rmap[k], <<>>)) /\ UNCHANGED <<down, born>>
     \/ \E k \in 1..2 : /\ rmap[k] # 0 /\ ~Busy(Adders \cup Enders)
                        /\ Stim("C" \o ToString(k), E("rclose", 0, 0, rmap[k], <<>>)) /\ UNCHANGED <<down, born>>
     \/ \E k \in 1..2 : /\ Spare(k) /\ ~Busy(Enders) /\ Stim("m" \o ToString(k), E("rmadd", 0, k, 0, <<>>)) /\ UNCHANGED <<down, born>>
     \/ \E c \in Begun, k \in 1..2 : /\ rmap[k] # 0 /\ ~Busy(Enders \cup {"rmove"}) /\ ~cn[c].raw
                                     /\ \E k2 \in 1..2 : Stim("M" \o ToString(c) \o ToString(k) \o ToString(k2), E("rmove", c, k2, rmap[k], <<>>)) /\ UNCHANGED <<down, born>>
     \/ \E c \in Begun : ~cn[c].raw /\ Stim("x" \o ToString(c), E("close", c, 0, 0, <<>>)) /\ UNCHANGED <<down, born>>
     \/ \E c \in Begun : ~cn[c].raw /\ Kill(c, 0) /\ hist' = <<hist[1] + 1, hist[2] \o "k" \o ToString(c) \o " ">> /\ UNCHANGED <<down, born>>
     \/ ~Busy(Adders \cup Enders \cup {"rmadd"}) /\ Stim("S", E("rmshut", 0, 0, 0, <<>>)) /\ down' = TRUE /\ UNCHANGED born
     \/ Looks /\ \E k \in 1..2, S \in {<<>>, <<1>>, <<2>>, <<1, 2>>} :
          rmap[k] # 0 /\ Stim("g" \o ToString(k), [E("rgetall", 0, 0, rmap[k], <<>>) EXCEPT !.res = S]) /\ UNCHANGED <<down, born>>
H == \E w \in owed : Hook(w.k, w.r, w.c, w.args)
C == \E c \in Cs : Raw(c) \/ (cn[c].raw /\ Disc(c))
R == \E o \in Pending : Ret(o, "ok")
\* for stimuli that come one at a time the order of what they cause doesn't matter
Impl == IF ~Emits THEN Internal \/ H \/ C \/ R
        ELSE IF ENABLED Internal THEN Internal ELSE IF ENABLED H THEN H ELSE IF ENABLED C THEN C ELSE R
Rest == Pending = {} /\ ENABLED Quiet({}, 0, 0)
Next == Stimulus \/ (Impl /\ UNCHANGED <<hist, down, born>>) \/ ((Rest \/ Wrong) /\ UNCHANGED mcvars)
Spec == Init /\ [][Next]_mcvars
-----------------------------------------------------------------------------
\* C12, restated.  The manager finds a room under the key it was made for
Mapped == \A k \in Keys : rmap[k] # 0 => RKey[rmap[k]] = k /\ rmap[k] \in used
\* a member at most once per room
Once == \A x, y \in mem : x.r = y.r /\ x.c = y.c => x = y
\* a join or leave that is owed was caused by somebody who is still at it, or by the connection's closing
Owing == \A w \in owed : (w.o # 0 => w.o \in Pending) /\ (w.o = 0 => w.k = "leave" /\ HasWhy(w.c))
\* at rest: no closed connection is a member, after a shutdown nothing is left, every open connection is where it was
AtRest == Rest => /\ \A x \in mem : ~cn[x.c].raw
                  /\ owed = {}
                  /\ down => \A k \in Keys : rmap[k] = 0
\* after a shutdown the members of its rooms are closed
Emptied == (Rest /\ down) => \A x \in mem : x.r \notin {rmap[k] : k \in Keys}
Safe == \A c \in Cs : ~HasWhy(c) => ~cn[c].raw /\ cn[c].disc = 0
Emit == (Emits /\ Rest /\ hist[1] = N) => PrintT(<<"SEQ", hist[2]>>)
=============================================================================
