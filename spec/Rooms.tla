------------------------------- MODULE Rooms -------------------------------
(* Rooms and their manager as their users see them (C12, and C20 for the room manager).

   Every call that changes something takes effect in steps between call and return; the hooks it owes (join, leave) run
   before it returns.  A closing connection leaves its rooms by itself (CloseLeave).  A call that only looks must
   return what was true at one moment of it. *)
EXTENDS Conns, TLC
VARIABLES cfg,      \* [nc, rkey: key of each room object, hooks, bp, ends]
          rmap,     \* key -> room (0: none)
          used,     \* rooms that have been registered
          mem,      \* set of [r, c, args: those given when it joined]
          owed,     \* hooks that have to run: [k, r, c, args, o: by which operation (0: the closing connection)]
          ops       \* operations in progress
vars == <<cfg, rmap, used, mem, owed, ops, cn, soft>>
Keys == 1..3
Init0(c) == /\ rmap = [k \in Keys |-> 0] /\ used = {} /\ mem = {} /\ owed = {} /\ ops = <<>> /\ soft = FALSE
            /\ cn = [i \in 1..c.nc |-> NewC @@ [stale |-> {}]]
Pending == DOMAIN ops
Cs == DOMAIN cn
ToSet(s) == {s[i] : i \in 1..Len(s)}
Members(mm, r) == {x.c : x \in {y \in mm : y.r = r}}
Member(c, r) == c \in Members(mem, r)

True(p, rm, mm) == CASE p.k = "rmget" -> p.res = <<rm[p.key]>>
                     [] p.k = "rmkeys" -> ToSet(p.res) = {k \in Keys : rm[k] # 0} /\ Cardinality(ToSet(p.res)) = Len(p.res)
                     [] p.k = "rgetall" -> ToSet(p.res) = Members(mm, p.r) \ ToSet(p.excl) /\ Cardinality(ToSet(p.res)) = Len(p.res)
                     [] OTHER -> FALSE
Look(os, rm, mm) == [o \in DOMAIN os |-> IF ~os[o].hit /\ True(os[o], rm, mm) THEN [os[o] EXCEPT !.hit = TRUE] ELSE os[o]]

\* the first step of each operation
First(k) == CASE k \in {"rconnect", "rmadd"} -> "map"
              [] k = "radd" -> "add"
              [] k \in {"rrem", "rremall", "rclose", "rmove"} -> "rem"
              [] k = "rmshut" -> "maps"
              [] OTHER -> "done"
Call(o, e) ==
  /\ ops' = Look([x \in Pending \cup {o} |-> IF x # o THEN ops[x] ELSE
              [k |-> e.k, c |-> e.c, key |-> e.key, r |-> e.room, args |-> e.args, excl |-> e.excl, res |-> e.res, done |-> e.done,
               hit |-> FALSE, st |-> First(e.k), snap |-> {}]], rmap, mem)
  /\ cn' = CASE e.k = "close" -> AddWhy(cn, {e.c}, e.code, TRUE)
             [] e.k = "mshut" -> AddWhy(cn, Cs, 1000, FALSE)
             [] e.k = "mreg" -> AddWhy(cn, {c \in Cs \ {e.c} : cfg.ckey[c] = e.key}, 1001, FALSE)
             [] OTHER -> cn
  /\ soft' = (soft \/ (e.k = "bcast" /\ cfg.bp = 1))
  /\ UNCHANGED <<cfg, rmap, used, mem, owed>>

Owe(S) == owed' = IF cfg.hooks THEN owed \cup S ELSE owed
At(o, st) == o \in Pending /\ ops[o].st = st
Go(o, st, rm, mm) == ops' = Look([ops EXCEPT ![o].st = st], rm, mm)

\* rm.Add (also as part of Connect): the key's room, or a new one
MapEff(o) ==
  /\ At(o, "map")
  /\ \E r \in 1..Len(cfg.rkey) :
       /\ cfg.rkey[r] = ops[o].key /\ (ops[o].done => ops[o].res = <<r>>)
       /\ rmap[ops[o].key] = r \/ (rmap[ops[o].key] = 0 /\ r \notin used)
       /\ rmap' = [rmap EXCEPT ![ops[o].key] = r] /\ used' = used \cup {r}
       /\ ops' = Look([ops EXCEPT ![o].st = IF ops[o].k = "rmadd" THEN "done" ELSE "add", ![o].r = r], rmap', mem)
  /\ UNCHANGED <<cfg, mem, owed, cn, soft>>
AddEff(o) ==
  /\ At(o, "add")
  /\ LET p == ops[o] IN
     \/ /\ ~Member(p.c, p.r)
        /\ mem' = mem \cup {[r |-> p.r, c |-> p.c, args |-> p.args]}
        /\ Owe({[k |-> "join", r |-> p.r, c |-> p.c, args |-> p.args, o |-> o]})
     \/ /\ Member(p.c, p.r) \/ HasWhy(p.c)      \* a closing connection needn't join
        /\ UNCHANGED <<mem, owed>>
  /\ Go(o, "done", rmap, mem')
  /\ UNCHANGED <<cfg, rmap, used, cn, soft>>
\* S leaves room r by operation o.  The hook of one that is closing already may still be about to run: should the
\* connection be added again meanwhile, that hook ends the new membership with the arguments of the old one.
Leaving(o, r, S, args) ==
  /\ cn' = [c \in Cs |-> IF c \in S /\ HasWhy(c)
                          THEN [cn[c] EXCEPT !.stale = @ \cup {<<r, x.args>> : x \in {y \in mem : y.r = r /\ y.c = c}}] ELSE cn[c]]
  /\ mem' = {x \in mem : ~(x.r = r /\ x.c \in S)}
  /\ Owe({[k |-> "leave", r |-> r, c |-> c, args |-> args, o |-> o] : c \in S})
RemEff(o) ==
  /\ At(o, "rem")
  /\ LET p == ops[o] IN
     CASE p.k = "rrem" -> Leaving(o, p.r, {p.c} \cap Members(mem, p.r), p.args) /\ Go(o, "done", rmap, mem')
       [] p.k = "rremall" -> Leaving(o, p.r, Members(mem, p.r), <<>>) /\ Go(o, "done", rmap, mem')
       [] p.k = "rclose" -> Leaving(o, p.r, Members(mem, p.r), <<>>) /\ Go(o, "unmap", rmap, mem')
       [] p.k = "rmove" -> /\ Leaving(o, p.r, {p.c} \cap Members(mem, p.r), <<>>)
                           /\ \/ Go(o, "find", rmap, mem')
                              \/ ~Member(p.c, p.r) /\ Go(o, "done", rmap, mem')     \* not a member: may do nothing
  /\ UNCHANGED <<cfg, rmap, used, soft>>
FindEff(o) ==
  /\ At(o, "find")
  /\ LET r == rmap[ops[o].key] IN
     ops' = [ops EXCEPT ![o].st = IF r = 0 THEN "done" ELSE "add", ![o].r = r]
  /\ UNCHANGED <<cfg, rmap, used, mem, owed, cn, soft>>
UnmapEff(o) ==
  /\ At(o, "unmap")
  /\ rmap' = [k \in Keys |-> IF rmap[k] = ops[o].r THEN 0 ELSE rmap[k]]
  /\ Go(o, "done", rmap', mem)
  /\ UNCHANGED <<cfg, used, mem, owed, cn, soft>>
\* Shutdown: every room goes, every member is closed
ShutEff(o) ==
  /\ At(o, "maps")
  /\ LET R == {rmap[k] : k \in Keys} \ {0}
         S == {x \in mem : x.r \in R} IN
     /\ rmap' = [k \in Keys |-> 0]
     /\ ops' = Look([ops EXCEPT ![o].st = "done", ![o].snap = S], rmap', mem)
     /\ cn' = AddWhy(cn, {x.c : x \in S}, 1001, FALSE)
  /\ UNCHANGED <<cfg, used, mem, owed, soft>>
CloseLeave(x) ==
  /\ x.c \in cfg.ends /\ HasWhy(x.c)
  /\ mem' = mem \ {x}
  /\ \E a \in {x.args} \cup {s[2] : s \in {y \in cn[x.c].stale : y[1] = x.r}} :
       Owe({[k |-> "leave", r |-> x.r, c |-> x.c, args |-> a, o |-> 0]})
  /\ cn' = [cn EXCEPT ![x.c].must = TRUE]
  /\ ops' = Look(ops, rmap, mem')
  /\ UNCHANGED <<cfg, rmap, used, soft>>
Internal == \/ \E o \in Pending : MapEff(o) \/ AddEff(o) \/ RemEff(o) \/ FindEff(o) \/ UnmapEff(o) \/ ShutEff(o)
            \/ \E x \in mem : CloseLeave(x)

Hook(k, r, c, args) ==
  /\ LET W == {w \in owed : w.k = k /\ w.r = r /\ w.c = c /\ w.args = args} IN
     IF W # {} THEN \E w \in W : owed' = owed \ {w}
     ELSE P({"C12", "C20"}, FALSE) /\ UNCHANGED owed
  /\ UNCHANGED <<cfg, rmap, used, mem, ops, cn, soft>>

Adding(c) == \E o \in Pending : ops[o].c = c /\ ops[o].k \in {"radd", "rconnect", "rmove"}
Out(c, who) == P(who, ~\E x \in mem : x.c = c) /\ P(who, ~\E w \in owed : w.c = c /\ w.o = 0)
Ret(o, r) ==
  /\ o \in Pending
  /\ LET p == ops[o] IN
     /\ CASE p.k \in {"rmget", "rmkeys", "rgetall"} -> P({"C12", "C20"}, p.hit)
          [] p.k = "rmshut" -> P({"C20"}, \A x \in p.snap : x \notin mem \/ cn[x.c].raw)
          [] p.k = "close" -> /\ P({"C08"}, cn[p.c].raw)
                              /\ (Sole(p.c) /\ ~Adding(p.c)) => Out(p.c, {"C12"})
          [] OTHER -> TRUE
     /\ P({"C12"} \cup (IF p.k = "rmshut" THEN {"C20"} ELSE {}), p.st = "done")
     /\ P({"C12"}, ~\E w \in owed : w.o = o)
  /\ ops' = [x \in Pending \ {o} |-> ops[x]]
  /\ UNCHANGED <<cfg, rmap, used, mem, owed, cn, soft>>

Same == UNCHANGED <<cfg, rmap, used, mem, owed, ops, soft>>
Raw(c) == RawClosed(c) /\ Same
Disc(c) == Disconnected(c) /\ Same
Kill(c, code) == cn' = AddWhy(cn, {c}, code, FALSE) /\ Same
Wrote(c, ok, fr) ==
  /\ \A i \in 1..Len(fr) : fr[i].k = "close" => CodeAllowed(c, fr[i].v)
  /\ cn' = IF ok THEN cn ELSE AddWhy(cn, {c}, 0, TRUE)
  /\ Same

Quiet(S, infl, mutex) ==
  /\ S = Pending /\ P(Everyone, mutex = 0)
  /\ infl = 0 =>
     /\ \A o \in S : P({"C20"} \cup (IF ops[o].k = "close" THEN {"C08"} ELSE {"C12"}), ops[o].k = "bcast" /\ cfg.bp = 2)
     /\ AllClosed
     /\ P({"C12", "C20"}, owed = {})
     /\ \A x \in mem : P({"C12", "C20"}, ~cn[x.c].raw)
  /\ UNCHANGED vars
=============================================================================
