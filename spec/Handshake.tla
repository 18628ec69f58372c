----------------------------- MODULE Handshake -----------------------------
(* Upgrading HTTP requests (C18).  Several requests may be in progress on one upgrader.

   A request is [get, up, co, ver, key, proto]: whether its method is GET, the tokens of its Upgrade, Connection and
   Sec-WebSocket-Protocol headers (all lines), its version and what kind of key it has.  The upgrader is configured by
   cfg = [sup: supported protocols, reject: clients without one are rejected, mws: what each middleware does (0: nothing,
   otherwise the status of the error it returns; 400 for an error of no particular type), hook: it has OnConnect]. *)
EXTENDS Integers, Sequences, FiniteSets, Blame
VARIABLES cfg, rq      \* per request: [req, mw: middlewares that have run, st, hooks, hij, wire, proto]
vars == <<cfg, rq>>
Rs == DOMAIN rq
ANY == {"C18"}

Websocket == {"websocket", "WebSocket", "WEBSOCKET", "wEbSoCkEt"}
Upgrade == {"upgrade", "Upgrade", "UPGRADE", "upGrade"}
Has(s, T) == \E i \in 1..Len(s) : s[i] \in T
\* The errors a request deserves
Faults(q) == (IF q.get THEN {} ELSE {405}) \cup (IF Has(q.up, Websocket) THEN {} ELSE {426})
        \cup (IF Has(q.co, Upgrade) /\ q.ver = "13" /\ q.key = "ok" THEN {} ELSE {400})
Ix(q) == {i \in 1..Len(q.proto) : Has(cfg.sup, {q.proto[i]})}
Chosen(q) == IF Ix(q) = {} THEN "" ELSE q.proto[CHOOSE i \in Ix(q) : \A j \in Ix(q) : i <= j]
NoProto(q) == cfg.reject /\ Chosen(q) = ""
\* The first middleware that fails (0: none)
Bad == LET B == {i \in 1..Len(cfg.mws) : cfg.mws[i] # 0} IN IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : i <= j
Accepted(q) == Faults(q) = {} /\ ~NoProto(q) /\ Bad = 0

Init0(c) == rq = <<>>
Set(r, x) == rq' = [rq EXCEPT ![r] = x] /\ UNCHANGED cfg

Call(q) == rq' = Append(rq, [req |-> q, mw |-> 0, st |-> "called", status |-> 0, hooks |-> 0, hij |-> "", frames |-> 0, raw |-> FALSE])
           /\ UNCHANGED cfg
\* Middlewares run in order, on requests that are otherwise valid, and none after one that failed
Mw(r, i) ==
  LET x == rq[r] IN
  /\ P(ANY, x.st = "called" /\ x.hij = "" /\ x.status = 0)
  /\ P(ANY, Faults(x.req) = {} /\ i = x.mw + 1 /\ (Bad = 0 \/ i <= Bad))
  /\ Set(r, [x EXCEPT !.mw = i])
\* The connection is taken over
Hijack(r, ok) ==
  LET x == rq[r] IN
  /\ P(ANY, x.st = "called" /\ x.hij = "" /\ x.status = 0)
  /\ P(ANY, Accepted(x.req) /\ x.mw = Len(cfg.mws))
  /\ Set(r, [x EXCEPT !.hij = IF ok THEN "ok" ELSE "fail"])
HttpError(r, status) ==
  LET x == rq[r]
      q == x.req IN
  /\ P(ANY, x.st = "called" /\ x.hij # "ok" /\ x.status = 0)
  /\ IF x.hij = "fail" THEN P(ANY, status >= 500)
     ELSE \/ Faults(q) # {} /\ P(ANY, status \in Faults(q))
          \/ Faults(q) = {} /\ NoProto(q) /\ status = 400
          \/ Faults(q) = {} /\ Bad # 0 /\ x.mw = Bad /\ status = cfg.mws[Bad]
          \/ P(ANY, FALSE)
  /\ Set(r, [x EXCEPT !.status = status])
\* The response arrives: [status, up, co, accept, proto, ext], and nothing before it
Answer(r, a) ==
  LET x == rq[r] IN
  /\ P(ANY, x.hij = "ok" /\ x.st = "called")
  /\ P(ANY, a.status = 101 /\ a.up /\ a.co /\ a.accept /\ ~a.ext /\ a.proto = Chosen(x.req))
  /\ Set(r, [x EXCEPT !.st = "answered"])
\* It could not be sent
AnswerFails(r) == rq[r].hij = "ok" /\ rq[r].st = "called" /\ Set(r, [rq[r] EXCEPT !.st = "failed"])
Frame(r) == P(ANY, rq[r].st = "answered") /\ UNCHANGED vars
Hook(r) ==
  LET x == rq[r] IN
  P(ANY, x.st = "answered" /\ x.hooks = 0) /\ Set(r, [x EXCEPT !.hooks = 1])
RawClose(r) == Set(r, [rq[r] EXCEPT !.raw = TRUE])
\* Upgrade returns, with a connection whose sub-protocol is proto or an error
Ret(r, ok, proto) ==
  LET x == rq[r] IN
  /\ IF ok THEN P(ANY, x.st = "answered" /\ (cfg.hook => x.hooks = 1) /\ proto = Chosen(x.req))
     ELSE P(ANY, (x.status # 0 /\ x.hij # "ok") \/ x.st = "failed") /\ P(ANY, x.hooks = 0)
  /\ P({"C18", "C10"}, x.st = "failed" => x.raw)
  /\ Set(r, [x EXCEPT !.st = IF ok THEN "upgraded" ELSE "rejected"])
Quiet(mutex) == P(ANY, mutex = 0 /\ \A r \in Rs : rq[r].st \in {"upgraded", "rejected"}) /\ UNCHANGED vars
=============================================================================
