------------------------------ MODULE Registry ------------------------------
(* A connection manager as its users see it (C11, and C20 for it).

   Calls take effect somewhere between call and return (RegEff, ShutEff); a connection leaves the registry somewhere
   after it got a reason to close (UnregEff).  A call that only looks must return what was true at one moment of it. *)
EXTENDS Conns
VARIABLES cfg,      \* [nc, ckey: key of each connection (0: never registered), hooks, bp,
            \*  ends: those whose network connection ends up closed (only to prune the search)]
          held,     \* key -> connection (0: none)
          ops,      \* operations in progress
          rg        \* per connection [eff: "no", "in", "out"; on, off: runs of the hooks]
vars == <<cfg, held, ops, rg, cn, soft>>
Keys == 1..3
Init0(c) == /\ held = [k \in Keys |-> 0] /\ ops = <<>> /\ soft = FALSE
            /\ cn = [i \in 1..c.nc |-> NewC] /\ rg = [i \in 1..c.nc |-> [eff |-> "no", on |-> 0, off |-> 0]]
Pending == DOMAIN ops
Cs == DOMAIN cn
ToSet(s) == {s[i] : i \in 1..Len(s)}
Image(h, ex) == {h[k] : k \in Keys \ ex} \ {0}

\* Is what the looking operation p will return true when h is held?
True(p, h) == CASE p.k = "mget" -> p.res = <<h[p.key]>>
                [] p.k = "mgetall" -> ToSet(p.res) = Image(h, ToSet(p.excl)) /\ Cardinality(ToSet(p.res)) = Len(p.res)
                [] OTHER -> FALSE
Look(os, h) == [o \in DOMAIN os |-> IF ~os[o].hit /\ True(os[o], h) THEN [os[o] EXCEPT !.hit = TRUE] ELSE os[o]]

Call(o, e) ==
  /\ ops' = Look([x \in Pending \cup {o} |-> IF x # o THEN ops[x] ELSE
              [k |-> e.k, c |-> e.c, key |-> e.key, excl |-> e.excl, res |-> e.res, hit |-> FALSE, eff |-> FALSE, old |-> 0, snap |-> {}]], held)
  /\ cn' = CASE e.k = "close" -> AddWhy(cn, {e.c}, e.code, TRUE)
             [] e.k = "rmshut" -> AddWhy(cn, Cs, 1001, FALSE)
             [] OTHER -> cn
  /\ soft' = (soft \/ (e.k = "bcast" /\ cfg.bp = 1))
  /\ UNCHANGED <<cfg, held, rg>>

RegEff(o) ==
  /\ o \in Pending /\ ops[o].k = "mreg" /\ ~ops[o].eff
  /\ LET k == ops[o].key  c == ops[o].c IN
     /\ held' = [held EXCEPT ![k] = c]
     /\ ops' = Look([ops EXCEPT ![o].eff = TRUE, ![o].old = held[k]], held')
     /\ cn' = AddWhy(cn, {held[k]} \ {0}, 1001, TRUE)
     /\ rg' = [rg EXCEPT ![c].eff = "in"]
  /\ UNCHANGED <<cfg, soft>>
UnregEff(c) ==
  /\ rg[c].eff = "in" /\ HasWhy(c) /\ c \in cfg.ends
  /\ rg' = [rg EXCEPT ![c].eff = "out"]
  /\ held' = [k \in Keys |-> IF held[k] = c THEN 0 ELSE held[k]]
  /\ ops' = Look(ops, held')
  /\ UNCHANGED <<cfg, cn, soft>>
ShutEff(o) ==
  /\ o \in Pending /\ ops[o].k = "mshut" /\ ~ops[o].eff
  /\ ops' = [ops EXCEPT ![o].eff = TRUE, ![o].snap = Image(held, {})]
  /\ cn' = AddWhy(cn, Image(held, {}), 1000, TRUE)
  /\ UNCHANGED <<cfg, held, rg, soft>>
Internal == (\E o \in Pending : RegEff(o) \/ ShutEff(o)) \/ (\E c \in Cs : UnregEff(c))

OnReg(c, k) ==
  /\ P({"C11"}, rg[c].eff # "no" /\ rg[c].on = 0 /\ k = cfg.ckey[c])
  /\ rg' = [rg EXCEPT ![c].on = @ + 1] /\ UNCHANGED <<cfg, held, ops, cn, soft>>
OnUnreg(c, k) ==
  /\ P({"C11", "C20"}, rg[c].eff # "no" /\ rg[c].off = 0 /\ HasWhy(c) /\ k = cfg.ckey[c])
  /\ rg' = [rg EXCEPT ![c].off = @ + 1] /\ UNCHANGED <<cfg, held, ops, cn, soft>>

Registering(c) == \E o \in Pending : ops[o].k = "mreg" /\ ops[o].c = c
Gone(c, who) == P(who, rg[c].eff # "in") /\ (cfg.hooks => P(who, rg[c].eff = "out" => rg[c].off = 1))
Ret(o, r) ==
  /\ o \in Pending
  /\ LET p == ops[o] IN
     CASE p.k = "mreg" -> /\ P({"C11"}, p.eff /\ r = "ok")
                          /\ cfg.hooks => P({"C11"}, rg[p.c].on = 1)
                          /\ p.old # 0 => P({"C11"}, cn[p.old].raw)
       [] p.k \in {"mget", "mgetall"} -> P({"C11", "C20"}, p.hit)
       [] p.k = "mshut" -> P({"C20"}, p.eff) /\ \A c \in p.snap : P({"C20"}, cn[c].raw /\ held[cfg.ckey[c]] # c)
       [] p.k = "close" -> /\ P({"C08"}, cn[p.c].raw)
                           /\ (Sole(p.c) /\ ~Registering(p.c)) => Gone(p.c, {"C11"})
       [] OTHER -> TRUE
  /\ ops' = [x \in Pending \ {o} |-> ops[x]]
  /\ UNCHANGED <<cfg, held, rg, cn, soft>>

Same == UNCHANGED <<cfg, held, ops, rg, soft>>
Raw(c) == RawClosed(c) /\ Same
Disc(c) == Disconnected(c) /\ Same
Kill(c, code) == cn' = AddWhy(cn, {c}, code, FALSE) /\ Same
Wrote(c, ok, fr) ==
  /\ \A i \in 1..Len(fr) : fr[i].k = "close" => CodeAllowed(c, fr[i].v)
  /\ cn' = IF ok THEN cn ELSE AddWhy(cn, {c}, 0, TRUE)
  /\ Same

Quiet(S, infl, mutex) ==
  /\ S = Pending /\ P(Everyone, mutex = 0)
  /\ infl = 0 =>
     /\ \A o \in S : P({"C20"} \cup (IF ops[o].k = "close" THEN {"C08"} ELSE {"C11"}), ops[o].k = "bcast" /\ cfg.bp = 2)
     /\ AllClosed
     /\ \A c \in Cs :
          /\ P({"C11", "C20"}, rg[c].eff = "out" => cn[c].raw)
          /\ (cfg.hooks /\ rg[c].eff # "no") => P({"C11"}, rg[c].on = 1)
          /\ cn[c].raw => Gone(c, {"C11", "C20"})
  /\ UNCHANGED vars
=============================================================================
