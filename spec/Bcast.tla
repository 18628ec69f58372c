------------------------------- MODULE Bcast -------------------------------
(* Broadcasts to groups of connections: a manager (group 0) and rooms (C13, C14).

   Who is in a group is known up to overlaps: "in", "out" or "maybe" while something that changes it is under way.
   Each connection has a queue of at most cfg.q messages and a listener, which holds one message (hand) and puts it
   on the wire.  A broadcast queues its message to the members one by one (Enq), or passes over those whose queue is
   full as configured (Skip). *)
EXTENDS Conns
VARIABLES cfg,      \* [nc, ckey, rkey, q, bp, mctx: context of each message (0: none);
            \*  only to prune the search: ends: the connections that end up closed, wires: what each sends]
          grp,      \* [group, connection] -> [st, a: adds, r: removes in progress, mix]
          q,        \* per connection: the queue (of messages, or -1 - context of one that is never sent)
          hand,     \* per connection: the message in the listener's hands (0: none)
          busy,     \* per connection: [w: writes in progress, held: somebody has the writer]
          ops,      \* broadcasts and membership changes in progress
          ended,    \* contexts that have ended
          nx        \* per connection: which of the messages it sends is queued next
vars == <<cfg, grp, q, hand, busy, ops, ended, nx, cn, soft>>
ToSet(s) == {s[i] : i \in 1..Len(s)}
Cs == DOMAIN cn
Groups == 0..Len(cfg.rkey)
Init0(c) == /\ cn = [i \in 1..c.nc |-> NewC] /\ soft = FALSE /\ ops = <<>> /\ ended = {} /\ nx = [i \in 1..c.nc |-> 1]
            /\ grp = [g \in 0..Len(c.rkey) |-> [i \in 1..c.nc |-> [st |-> "out", a |-> 0, r |-> 0, mix |-> FALSE]]]
            /\ q = [i \in 1..c.nc |-> <<>>] /\ hand = [i \in 1..c.nc |-> 0] /\ busy = [i \in 1..c.nc |-> [w |-> 0, held |-> 0]]
Pending == DOMAIN ops

\* Is c in group g?
Known(x) == IF x.a = 0 /\ x.r = 0 THEN x.st ELSE IF x.st = "in" /\ x.r = 0 THEN "in" ELSE IF x.st = "out" /\ x.a = 0 THEN "out" ELSE "maybe"
In(G, f, g, c) == IF Known(G[g][c]) = "in" /\ f[c].why # {} THEN "maybe" ELSE Known(G[g][c])
BeginAdd(x) == [x EXCEPT !.a = @ + 1, !.mix = @ \/ x.r > 0]
BeginRem(x) == [x EXCEPT !.r = @ + 1, !.mix = @ \/ x.a > 0]
EndAdd(x) == [x EXCEPT !.a = @ - 1, !.st = IF x.mix THEN "maybe" ELSE "in", !.mix = @ /\ x.a + x.r > 1]
EndRem(x) == [x EXCEPT !.r = @ - 1, !.st = IF x.mix THEN "maybe" ELSE "out", !.mix = @ /\ x.a + x.r > 1]
BeginBlur(x) == [x EXCEPT !.a = @ + 1, !.r = @ + 1, !.mix = TRUE]
Outside(x) == [x EXCEPT !.st = "out"]
EndBlur(x) == [x EXCEPT !.a = @ - 1, !.r = @ - 1, !.st = "maybe", !.mix = x.a + x.r > 2]

Excluded(p) == IF p.g = 0 THEN {c \in Cs : cfg.ckey[c] \in ToSet(p.excl)} ELSE ToSet(p.excl)
\* Who has to get broadcast p, and who may, given who is in the group now
Update(os, G, f) ==
  [o \in DOMAIN os |->
    IF os[o].k # "bcast" THEN os[o] ELSE
    LET p == os[o]
        out == {c \in p.must : In(G, f, p.g, c) # "in"} IN
    [p EXCEPT !.must = @ \ out, !.may = @ \cup out \cup ({c \in Cs : In(G, f, p.g, c) # "out"} \ Excluded(p))]]

\* The memberships an operation adds, and removes
Rooms(k) == {g \in Groups \ {0} : cfg.rkey[g] = k}
Adds(p) == CASE p.k = "mreg" -> {<<0, p.c>>}
             [] p.k = "radd" -> {<<p.r, p.c>>}
             [] p.k = "rconnect" -> IF p.r # 0 THEN {<<p.r, p.c>>} ELSE {}
             [] OTHER -> {}
Rems(p) == CASE p.k \in {"rrem", "rmove"} -> {<<p.r, p.c>>}
             [] p.k \in {"rremall", "rclose"} -> {p.r} \X Cs
             [] OTHER -> {}
Blurs(p) == CASE p.k = "rmove" -> {g \in Rooms(p.key) : TRUE} \X {p.c}
              [] p.k = "rconnect" -> IF p.r = 0 THEN Rooms(p.key) \X {p.c} ELSE {}
              [] OTHER -> {}
Change(G, S, f(_)) == [g \in DOMAIN G |-> [c \in DOMAIN G[g] |-> IF <<g, c>> \in S THEN f(G[g][c]) ELSE G[g][c]]]

Call(o, e) ==
  LET p == [k |-> e.k, c |-> e.c, key |-> e.key, r |-> e.room, g |-> e.room, excl |-> e.excl, m |-> e.m, ctx |-> e.ctx,
            must |-> {}, may |-> {}, enq |-> {}, skip |-> {},
            rep |-> IF e.k # "mreg" THEN {} ELSE {c \in Cs \ {e.c} : cfg.ckey[c] = e.key /\ grp[0][c].st # "out" /\ grp[0][c].a = 0 /\ grp[0][c].r = 0},
            n |-> IF e.done /\ e.k = "bcast" /\ e.res # <<>> THEN e.res[1] ELSE -1] IN     \* n: what it will return (prunes the search)
  /\ cn' = CASE e.k = "close" -> AddWhy(cn, {e.c}, e.code, TRUE)
             [] e.k = "mshut" -> AddWhy(cn, Cs, 1000, FALSE)
             [] e.k = "rmshut" -> AddWhy(cn, Cs, 1001, FALSE)
             [] e.k = "mreg" -> AddWhy(cn, {c \in Cs \ {e.c} : cfg.ckey[c] = e.key}, 1001, FALSE)
             [] OTHER -> cn
  /\ grp' = Change(Change(Change(grp, Adds(p), BeginAdd), Rems(p), BeginRem), Blurs(p), BeginBlur)
  /\ LET p2 == IF e.k # "bcast" THEN p ELSE
                 [p EXCEPT !.must = {c \in Cs : In(grp', cn', p.g, c) = "in"} \ Excluded(p),
                           !.may = {c \in Cs : In(grp', cn', p.g, c) = "maybe"} \ Excluded(p)] IN
     ops' = Update([x \in Pending \cup {o} |-> IF x = o THEN p2 ELSE ops[x]], grp', cn')
  /\ UNCHANGED <<nx, cfg, q, hand, busy, ended, soft>>

Seen(c, m) == m \in ToSet(cfg.wires[c])
\* What stands for message m in c's queue: one that c never sends is as good as any other with that context
Tok(c, m) == IF Seen(c, m) THEN m ELSE -cfg.mctx[m] - 1
Dead(t) == t < 0 /\ -t - 1 \in ended
Todo(p) == (p.must \cup p.may) \ (p.enq \cup p.skip)
Full(c) == Len(q[c]) >= cfg.q
Closing(c) == cn[c].why # {}       \* its listener may have gone, or thrown away what was queued
Enq(o, c) ==
  /\ c \in Todo(ops[o]) /\ (~Full(c) \/ Closing(c)) /\ (IF Seen(c, ops[o].m) THEN nx[c] <= Len(cfg.wires[c]) /\ cfg.wires[c][nx[c]] = ops[o].m ELSE c \in cfg.ends \/ ops[o].ctx # 0)
  /\ ops[o].n >= 0 => Cardinality(ops[o].enq) < ops[o].n
  /\ q' = IF cn[c].raw \/ (Closing(c) /\ ~Seen(c, ops[o].m)) THEN q ELSE [q EXCEPT ![c] = Append(@, Tok(c, ops[o].m))]
  /\ nx' = IF Seen(c, ops[o].m) THEN [nx EXCEPT ![c] = @ + 1] ELSE nx
  /\ ops' = [ops EXCEPT ![o].enq = @ \cup {c}]
  /\ UNCHANGED <<cfg, grp, hand, busy, ended, cn, soft>>
Skip(o, c) ==
  /\ c \in Todo(ops[o]) /\ (Full(c) \/ Closing(c)) /\ cfg.bp # 2 /\ ~Seen(c, ops[o].m)
  /\ cn' = IF cfg.bp = 1 THEN AddWhy(cn, {c}, 1008, TRUE) ELSE cn
  /\ cfg.bp = 1 => c \in cfg.ends
  /\ ops' = Update([ops EXCEPT ![o].skip = @ \cup {c}], grp, cn')
  /\ UNCHANGED <<nx, cfg, grp, q, hand, busy, ended, soft>>
\* The listener takes a message
Deq(c) ==
  /\ hand[c] = 0 /\ q[c] # <<>>
  /\ hand' = [hand EXCEPT ![c] = Head(q[c])] /\ q' = [q EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<nx, cfg, grp, busy, ops, ended, cn, soft>>
\* A message whose context has ended need not be sent
Discard(c) ==
  /\ IF hand[c] # 0 THEN Dead(hand[c]) /\ hand' = [hand EXCEPT ![c] = 0] /\ UNCHANGED q
     ELSE q[c] # <<>> /\ Dead(Head(q[c])) /\ q' = [q EXCEPT ![c] = Tail(@)] /\ UNCHANGED hand
  /\ UNCHANGED <<nx, cfg, grp, busy, ops, ended, cn, soft>>
Internal(c) == (\E o \in Pending : ops[o].k = "bcast" /\ (Enq(o, c) \/ Skip(o, c))) \/ Deq(c) \/ Discard(c)

Ret(o, r, n) ==
  /\ o \in Pending
  /\ LET p == ops[o] IN
     /\ p.k = "bcast" =>
          /\ P({"C13"}, n = Cardinality(p.enq))
          /\ CASE r = "ok" -> P({"C13", "C14"}, p.must \subseteq p.enq \cup p.skip)
               [] r = "ctx" -> P({"C13", "C14"}, p.ctx \in ended)
               [] r = "badjson" -> P({"C13"}, p.enq = {} /\ p.skip = {})
               [] OTHER -> P({"C13", "C14"}, FALSE)
     /\ LET G == Change(Change(Change(grp, Adds(p), EndAdd), Rems(p), EndRem), Blurs(p), EndBlur) IN
        grp' = Change(G, {0} \X p.rep, Outside)        \* they have been replaced
  /\ ops' = Update([x \in Pending \ {o} |-> ops[x]], grp', cn)
  /\ UNCHANGED <<nx, cfg, q, hand, busy, ended, cn, soft>>

CtxEnd(c) == ended' = ended \cup {c} /\ UNCHANGED <<nx, cfg, grp, q, hand, busy, ops, cn, soft>>
Hold(c, d) == busy' = [busy EXCEPT ![c].held = @ + d] /\ UNCHANGED <<nx, cfg, grp, q, hand, ops, ended, cn, soft>>
Same == UNCHANGED <<nx, cfg, grp, q, hand, busy, ended, soft>>
Raw(c) == /\ RawClosed(c)
          /\ q' = [q EXCEPT ![c] = <<>>] /\ hand' = [hand EXCEPT ![c] = 0]      \* nothing of it will be sent
          /\ UNCHANGED <<nx, cfg, grp, busy, ops, ended, soft>>
Disc(c) == Disconnected(c) /\ UNCHANGED ops /\ Same
Kill(c, code) == cn' = AddWhy(cn, {c}, code, FALSE) /\ ops' = Update(ops, grp, cn') /\ Same
WriteStart(c) == busy' = [busy EXCEPT ![c].w = @ + 1] /\ UNCHANGED <<nx, cfg, grp, q, hand, ops, ended, cn, soft>>

\* c's message m is complete on the wire: it must be the next one
Sent(c, m, H, Q) == IF H[c] # 0 THEN H[c] = m ELSE Q[c] # <<>> /\ Head(Q[c]) = m
RECURSIVE Take(_, _, _)
Take(c, fr, s) ==      \* s = [h, q, ok]
  IF fr = <<>> THEN s ELSE
  LET f == Head(fr) IN
  IF f.k # "msg" THEN Take(c, Tail(fr), s)
  ELSE IF s.h = f.v /\ f.v # 0 THEN Take(c, Tail(fr), [s EXCEPT !.h = 0])
  ELSE IF s.h = 0 /\ s.q # <<>> /\ Head(s.q) = f.v THEN Take(c, Tail(fr), [s EXCEPT !.q = Tail(@)])
  ELSE Take(c, Tail(fr), [s EXCEPT !.ok = FALSE])
Wrote(c, ok, fr) ==
  /\ \A i \in 1..Len(fr) : fr[i].k = "close" => CodeAllowed(c, fr[i].v)
  /\ LET s == Take(c, fr, [h |-> hand[c], q |-> q[c], ok |-> TRUE]) IN
     /\ P({"C13"}, s.ok)
     /\ hand' = [hand EXCEPT ![c] = s.h] /\ q' = [q EXCEPT ![c] = s.q]
  /\ busy' = [busy EXCEPT ![c].w = @ - 1]
  /\ cn' = IF ok THEN cn ELSE AddWhy(cn, {c}, 0, TRUE)
  /\ ops' = Update(ops, grp, cn')
  /\ UNCHANGED <<nx, cfg, grp, ended, soft>>

\* May broadcast o still be waiting?
MayWait(o) == /\ cfg.bp = 2 /\ ops[o].ctx \notin ended
              /\ \E c \in Todo(ops[o]) : (Full(c) \/ Closing(c)) /\ ~cn[c].raw
Quiet(S, infl, mutex) ==
  /\ S = Pending /\ P(Everyone, mutex = 0)
  /\ \A o \in S : ops[o].k = "bcast" => P({"C13", "C14"}, MayWait(o))
  /\ \A c \in Cs : cn[c].why = {} =>
       \* a listener that can take a message has done so, and one that can write has written all
       /\ P({"C13", "C14"}, hand[c] # 0 \/ q[c] = <<>>)
       /\ (busy[c].w = 0 /\ busy[c].held = 0) => P({"C13", "C14"}, hand[c] = 0)
  /\ infl = 0 => AllClosed
  \* what has closed is nowhere anymore
  /\ grp' = IF infl # 0 THEN grp ELSE
       [g \in DOMAIN grp |-> [c \in Cs |-> IF cn[c].raw /\ grp[g][c].a = 0 /\ grp[g][c].r = 0 THEN Outside(grp[g][c]) ELSE grp[g][c]]]
  /\ UNCHANGED <<nx, cfg, q, hand, busy, ops, ended, cn, soft>>
=============================================================================
