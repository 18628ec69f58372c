------------------------------- MODULE Batch -------------------------------
(* Batching (C15, C21): messages are accepted one by one, for each connection in some order (acc), and leave in batches,
   each the next few accepted ones.  Batch broadcasts go through a queue per connection (bq) first.

   Every connection belongs to the flusher that was current when it was made (bind, 0: none).  A flusher flushes every
   cfg.every[f] ms; once it is closed it has flushed everything and nothing is accepted anymore; when its context ends
   nothing is accepted or sent anymore. *)
EXTENDS Conns
VARIABLES cfg,      \* [nc, q, bp, max, every, size; only to prune the search: seen: what each connection sends, in order;
                    \*  ends: the connections that end up closed, fends: the flushers that do]
          fl,       \* per flusher: [st: "none", "open", "closing", "closed"; ctx: "live", "ending", "ended";
                    \*               lo, hi: it started between these moments (hi: -1: not known yet)]
          cur,      \* the upgrader's flusher
          bind, acc,
          mt,       \* when each message was handed over
          lost,     \* per connection: when messages were accepted that are never sent
          bq, nx,   \* nx: which of the messages it sends is accepted next
          grp,      \* [0: manager, 1: room] -> connection -> "out", "maybe", "in"
          busy,     \* per connection: [w: writes in progress, held: somebody has the writer, cust: its custom sender is running]
          ops, ended
vars == <<cfg, fl, cur, bind, acc, mt, lost, bq, nx, grp, busy, ops, ended, cn, soft>>
ToSet(s) == {s[i] : i \in 1..Len(s)}
Cs == DOMAIN cn
Pending == DOMAIN ops
Init0(c) == /\ cn = [i \in 1..c.nc |-> NewC] /\ soft = FALSE /\ ops = <<>> /\ ended = {} /\ cur = 0
            /\ fl = [f \in 1..Len(c.every) |-> [st |-> "none", ctx |-> "live", lo |-> 0, hi |-> -1]]
            /\ mt = [m \in 1..Len(c.size) |-> 0]
            /\ bind = [i \in 1..c.nc |-> 0] /\ acc = [i \in 1..c.nc |-> <<>>] /\ lost = [i \in 1..c.nc |-> {}]
            /\ bq = [i \in 1..c.nc |-> <<>>] /\ nx = [i \in 1..c.nc |-> 1]
            /\ grp = [g \in 0..1 |-> [i \in 1..c.nc |-> "out"]]
            /\ busy = [i \in 1..c.nc |-> [w |-> 0, held |-> 0, cust |-> FALSE]]

\* Can c accept messages; must it?
Takes(c) == bind[c] # 0 /\ ~cn[c].raw /\ fl[bind[c]].st \in {"open", "closing"} /\ fl[bind[c]].ctx # "ended"
Sure(c) == Takes(c) /\ cn[c].why = {} /\ fl[bind[c]].st = "open" /\ fl[bind[c]].ctx = "live"
In(G, f, g, c) == IF G[g][c] = "in" /\ f[c].why # {} THEN "maybe" ELSE G[g][c]
Update(os, G, f) ==
  [o \in DOMAIN os |->
    IF os[o].k # "bb" THEN os[o] ELSE
    LET p == os[o]
        out == {c \in p.must : In(G, f, p.g, c) # "in"} IN
    [p EXCEPT !.must = @ \ out, !.may = @ \cup out \cup ({c \in Cs : In(G, f, p.g, c) # "out"} \ p.excl)]]
Groups(p) == IF p.k # "join" THEN {} ELSE IF p.g = 2 THEN {0, 1} ELSE {p.g}
SetG(G, S, c, v) == [g \in DOMAIN G |-> IF g \in S THEN [G[g] EXCEPT ![c] = v] ELSE G[g]]
Enabling == \E o \in Pending : ops[o].k = "enable"
FlDead == cur = 0 \/ fl[cur].st = "closed" \/ fl[cur].ctx = "ended"

Call(o, e) ==
  LET p == [k |-> e.k, c |-> e.c, f |-> e.f, prev |-> IF e.k = "enable" THEN e.fl ELSE 0, g |-> e.grp, excl |-> ToSet(e.excl), m |-> e.m, ctx |-> e.ctx,
            must |-> {}, may |-> {}, enq |-> {}, skip |-> {}, acc |-> FALSE,
            takes |-> ~e.done \/ e.r = "ok", n |-> IF e.done /\ e.k = "bb" THEN e.n ELSE -1,
            swap |-> Enabling, dead |-> ~Enabling /\ FlDead] IN
  /\ cn' = CASE e.k = "close" -> AddWhy(cn, {e.c}, e.code, TRUE)
             [] e.k = "fcancel" -> AddWhy(cn, {c \in Cs : bind[c] = e.f}, 0, FALSE)   \* a batch may be cut short
             [] OTHER -> cn
  /\ fl' = CASE e.k = "fclose" -> [fl EXCEPT ![e.f].st = IF @ = "open" THEN "closing" ELSE @]
             [] e.k = "fcancel" -> [fl EXCEPT ![e.f].ctx = IF @ = "live" THEN "ending" ELSE @]
             [] e.k = "enable" ->
                  [f \in DOMAIN fl |-> IF f = e.f THEN [st |-> "open", ctx |-> "live", lo |-> e.t, hi |-> -1]
                                       ELSE IF f = e.fl /\ fl[f].st = "open" THEN [fl[f] EXCEPT !.st = "closing"] ELSE fl[f]]
             [] OTHER -> fl
  /\ mt' = IF e.k \in {"batch", "bb"} THEN [mt EXCEPT ![e.m] = e.t] ELSE mt
  /\ bind' = IF e.k = "join" THEN [bind EXCEPT ![e.c] = e.fl] ELSE bind
  /\ grp' = SetG(grp, Groups(p), e.c, "maybe")
  /\ LET p2 == IF e.k # "bb" THEN p ELSE
                 [p EXCEPT !.must = {c \in Cs : In(grp', cn', p.g, c) = "in"} \ p.excl,
                           !.may = {c \in Cs : In(grp', cn', p.g, c) = "maybe"} \ p.excl]
         os == [x \in Pending \cup {o} |-> IF x = o THEN p2 ELSE ops[x]] IN
     ops' = Update(IF e.k # "enable" THEN os ELSE [x \in DOMAIN os |-> [os[x] EXCEPT !.swap = TRUE, !.dead = FALSE]], grp', cn')
  /\ UNCHANGED <<cfg, cur, acc, lost, bq, nx, busy, ended, soft>>

Seen(c, m) == m \in ToSet(cfg.seen[c])
Next(c, m) == nx[c] <= Len(cfg.seen[c]) /\ cfg.seen[c][nx[c]] = m
Accept(c, m, t) ==      \* c accepts m at time t
  IF Seen(c, m) THEN /\ Next(c, m) /\ acc' = [acc EXCEPT ![c] = Append(@, [m |-> m, t |-> t])]
                     /\ nx' = [nx EXCEPT ![c] = @ + 1] /\ UNCHANGED lost
  ELSE (c \in cfg.ends \/ bind[c] \in cfg.fends) /\ lost' = [lost EXCEPT ![c] = @ \cup {t}] /\ UNCHANGED <<acc, nx>>
AcceptD(o, c, t) ==
  /\ ops[o].k = "batch" /\ ops[o].c = c /\ ~ops[o].acc /\ ops[o].takes /\ Takes(c)
  /\ Accept(c, ops[o].m, t) /\ ops' = [ops EXCEPT ![o].acc = TRUE]
  /\ UNCHANGED <<cfg, fl, cur, bind, bq, grp, busy, ended, cn, soft, mt>>
AcceptB(c, t) ==
  /\ bq[c] # <<>>
  /\ \/ /\ Takes(c) /\ Head(bq[c]) > 0 /\ Accept(c, Head(bq[c]), t)
     \/ /\ Head(bq[c]) < 0 /\ (IF Sure(c) THEN Accept(c, -1, t) ELSE UNCHANGED <<acc, lost, nx>>)
  /\ bq' = [bq EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<cfg, fl, cur, bind, grp, busy, ops, ended, cn, soft, mt>>

\* One more may be in the listener's hands
Full(c) == Len(bq[c]) >= cfg.q
Todo(p) == (p.must \cup p.may) \ (p.enq \cup p.skip)
Enq(o, c) ==
  /\ ops[o].k = "bb" /\ c \in Todo(ops[o]) /\ (Len(bq[c]) <= cfg.q \/ cn[c].why # {})
  /\ ops[o].n >= 0 => Cardinality(ops[o].enq) < ops[o].n
  /\ ~Seen(c, ops[o].m) \/ ~\E i \in 1..(nx[c] - 1) : cfg.seen[c][i] = ops[o].m
  /\ bq' = IF cn[c].raw \/ (cn[c].why # {} /\ ~Seen(c, ops[o].m)) THEN bq
           ELSE [bq EXCEPT ![c] = Append(@, IF Seen(c, ops[o].m) THEN ops[o].m ELSE -1)]
  /\ ops' = [ops EXCEPT ![o].enq = @ \cup {c}]
  /\ UNCHANGED <<cfg, fl, cur, bind, acc, lost, nx, grp, busy, ended, cn, soft, mt>>
Skip(o, c) ==
  /\ ops[o].k = "bb" /\ c \in Todo(ops[o]) /\ (Full(c) \/ cn[c].why # {}) /\ cfg.bp # 2 /\ ~Seen(c, ops[o].m)
  /\ cfg.bp = 1 => c \in cfg.ends
  /\ cn' = IF cfg.bp = 1 THEN AddWhy(cn, {c}, 1008, TRUE) ELSE cn
  /\ ops' = Update([ops EXCEPT ![o].skip = @ \cup {c}], grp, cn')
  /\ UNCHANGED <<cfg, fl, cur, bind, acc, lost, bq, nx, grp, busy, ended, soft, mt>>
Internal(c, t) == (\E o \in Pending : AcceptD(o, c, t) \/ Enq(o, c) \/ Skip(o, c)) \/ AcceptB(c, t)

Ret(o, r, n, t) ==
  /\ o \in Pending
  /\ LET p == ops[o]
         b == IF p.c = 0 THEN 0 ELSE bind[p.c] IN
     /\ p.k = "batch" =>
          CASE r = "ok" -> P({"C15", "C21"}, p.acc)
            [] r = "flusher" -> P({"C15", "C21"}, b # 0 /\ fl[b].st \in {"closing", "closed"})
            [] r = "ctx" -> P({"C15", "C21"}, b # 0 /\ fl[b].ctx # "live")
            [] r = "closed" -> P({"C15", "C21"}, cn[p.c].why # {})
            [] r = "nobatch" -> P({"C15", "C21"}, b = 0)
            [] OTHER -> P({"C15", "C21"}, FALSE)
     /\ p.k = "badbatch" => P({"C15", "C21"}, r = "json" \/ (r = "nobatch" /\ b = 0))
     /\ p.k = "bb" =>
          /\ P({"C14", "C15", "C21"}, n = Cardinality(p.enq))
          /\ CASE r = "ok" -> /\ P({"C14", "C15", "C21"}, p.must \subseteq p.enq \cup p.skip)
                              /\ P({"C21"}, ~p.dead \/ (p.must \cup p.may = {} /\ cur # 0))
               [] r = "flusher" -> P({"C15", "C21"}, p.swap \/ (cur # 0 /\ fl[cur].st \in {"closing", "closed"}))
               [] r = "ctx" -> P({"C15", "C21"}, p.ctx \in ended \/ p.swap \/ (cur # 0 /\ fl[cur].ctx # "live"))
               [] r = "nobatch" -> P({"C15", "C21"}, p.swap \/ cur = 0)
               [] OTHER -> P({"C15", "C21"}, FALSE)
     /\ fl' = CASE p.k = "fclose" -> [fl EXCEPT ![p.f].st = "closed"]
                [] p.k = "fcancel" -> [fl EXCEPT ![p.f].ctx = "ended"]
                [] p.k = "enable" -> [f \in DOMAIN fl |-> IF f = p.f THEN [fl[f] EXCEPT !.hi = t] ELSE IF f = p.prev THEN [fl[f] EXCEPT !.st = "closed"] ELSE fl[f]]
                [] OTHER -> fl
     /\ cur' = IF p.k = "enable" THEN p.f ELSE cur
     /\ grp' = SetG(grp, Groups(p), p.c, "in")
  /\ ops' = Update([x \in Pending \ {o} |-> ops[x]], grp', cn)
  /\ UNCHANGED <<cfg, bind, acc, lost, bq, nx, busy, ended, cn, soft, mt>>

Same == UNCHANGED <<cfg, fl, cur, bind, acc, lost, nx, grp, ended, soft, mt>>
CtxEnd(c) == ended' = ended \cup {c} /\ UNCHANGED <<cfg, fl, cur, bind, acc, lost, bq, nx, grp, busy, ops, cn, soft, mt>>
Hold(c, d) == busy' = [busy EXCEPT ![c].held = @ + d] /\ Same /\ UNCHANGED <<bq, ops, cn>>
WriteStart(c) == busy' = [busy EXCEPT ![c].w = @ + 1] /\ Same /\ UNCHANGED <<bq, ops, cn>>
Raw(c) == RawClosed(c) /\ bq' = [bq EXCEPT ![c] = <<>>] /\ Same /\ UNCHANGED <<busy, ops>>
Disc(c) == Disconnected(c) /\ Same /\ UNCHANGED <<bq, busy, ops>>

RECURSIVE Sum(_)
Sum(ids) == IF ids = <<>> THEN 0 ELSE cfg.size[Head(ids)] + Sum(Tail(ids))
\* ids may be a batch: the next accepted messages, within the limit
IsBatch(A, ids) ==
  /\ ids # <<>> /\ 0 \notin ToSet(ids) /\ Len(ids) <= Len(A)
  /\ \A i \in 1..Len(ids) : A[i].m = ids[i]
  /\ Len(ids) > 1 => Sum(ids) <= cfg.max
\* At time t, has there been a reason to send the batch ids: was it time to flush, or is the next message too big to join it?
Due(c, A, ids, t) ==
  LET f == fl[bind[c]]
      k == (t - f.lo) \div cfg.every[bind[c]] IN
  \/ c \in cfg.ends \/ bind[c] \in cfg.fends \/ f.st # "open"
  \/ k >= 1 /\ (f.hi < 0 \/ f.hi + k * cfg.every[bind[c]] >= mt[ids[Len(ids)]])
  \/ Len(A) > Len(ids) /\ Sum(ids) + cfg.size[A[Len(ids) + 1].m] > cfg.max
Drop(A, n) == SubSeq(A, n + 1, Len(A))
RECURSIVE Take(_, _, _, _)
Take(c, A, fr, t) ==       \* A with the batches of fr taken out; <<[m |-> -1]>> if they aren't its next ones
  IF fr = <<>> THEN A ELSE
  LET f == Head(fr) IN
  IF f.k \in {"close", "bad"} THEN Take(c, A, Tail(fr), t)
  ELSE IF f.k = "batch" /\ IsBatch(A, f.ids) /\ P({"C15"}, Due(c, A, f.ids, t)) THEN Take(c, Drop(A, Len(f.ids)), Tail(fr), t)
  ELSE <<[m |-> -1]>>
Wrote(c, ok, fr, t) ==
  /\ P({"C05"}, \A i \in 1..Len(fr) : fr[i].k # "bad")         \* no legal frame, or none in this place
  /\ \A i \in 1..Len(fr) : fr[i].k = "close" => CodeAllowed(c, fr[i].v)
  /\ LET A == Take(c, acc[c], fr, t) IN
     /\ P({"C15", "C21"}, A # <<[m |-> -1]>>)
     /\ acc' = [acc EXCEPT ![c] = IF A = <<[m |-> -1]>> THEN <<>> ELSE A]
  /\ busy' = [busy EXCEPT ![c].w = @ - 1]
  /\ cn' = IF ok THEN cn ELSE AddWhy(cn, {c}, 0, TRUE)
  /\ ops' = Update(ops, grp, cn')
  /\ UNCHANGED <<cfg, fl, cur, bind, lost, bq, nx, grp, ended, soft, mt>>
Custom(c, ids, t) ==
  /\ P({"C15"}, ~busy[c].cust /\ IsBatch(acc[c], ids) /\ Due(c, acc[c], ids, t))
  /\ acc' = [acc EXCEPT ![c] = IF IsBatch(@, ids) THEN Drop(@, Len(ids)) ELSE @]
  /\ busy' = [busy EXCEPT ![c].cust = TRUE]
  /\ UNCHANGED <<cfg, fl, cur, bind, lost, bq, nx, grp, ops, ended, cn, soft, mt>>
CustomEnd(c) == busy' = [busy EXCEPT ![c].cust = FALSE] /\ Same /\ UNCHANGED <<bq, ops, cn>>

\* Nothing can happen anymore at time t
Quiet(S, infl, mutex, t) ==
  /\ S = Pending /\ P({"C14", "C15", "C21"}, mutex = 0)
  /\ \A o \in S : P({"C14", "C15", "C21"}, ops[o].k \in {"close", "join"})
  /\ \A c \in Cs : (cn[c].why = {} /\ bind[c] # 0) =>
       LET f == fl[bind[c]] IN
       /\ P({"C15"}, bq[c] = <<>>)
       /\ (busy[c].w = 0 /\ busy[c].held = 0 /\ ~busy[c].cust /\ f.ctx = "live") =>
            /\ P({"C15"}, \A i \in 1..Len(acc[c]) : acc[c][i].t + cfg.every[bind[c]] >= t)
            /\ P({"C15"}, \A x \in lost[c] : x + cfg.every[bind[c]] >= t)
            /\ f.st = "closed" => P({"C21"}, acc[c] = <<>> /\ lost[c] = {})
  /\ infl = 0 => AllClosed
  /\ UNCHANGED vars
=============================================================================
