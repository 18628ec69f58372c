------------------------------- MODULE Conns -------------------------------
(* What managers, rooms and broadcasts need to know about each connection: why it may close and how far it got. *)
EXTENDS Integers, Sequences, FiniteSets, Blame
VARIABLES cn,       \* per connection [why: status codes (0: any), n: reasons, must: it has to close, raw, disc]
          soft      \* broadcasts may have closed slow connections with 1008

NewC == [why |-> {}, n |-> 0, must |-> FALSE, raw |-> FALSE, disc |-> 0]
HasWhy(c) == cn[c].why # {} \/ soft
\* f with one more reason for each connection of S to close
AddWhy(f, S, code, must) ==
  [c \in DOMAIN f |-> IF c \in S THEN [f[c] EXCEPT !.why = @ \cup {code}, !.n = @ + 1, !.must = @ \/ must] ELSE f[c]]
\* Whoever closes c with the only reason there is has done everything when it returns
Sole(c) == cn[c].n = 1 /\ ~soft

Everyone == {"C08", "C11", "C12", "C13", "C14", "C20"}
RawClosed(c) == /\ P(Everyone, ~cn[c].raw /\ HasWhy(c))
                /\ cn' = [cn EXCEPT ![c].raw = TRUE]
Disconnected(c) == /\ P({"C08", "C20"}, cn[c].disc = 0) /\ P(Everyone, HasWhy(c))
                   /\ cn' = [cn EXCEPT ![c].disc = 1]
\* A close frame with this code
CodeAllowed(c, code) == P({"C08", "C14", "C20"}, code \in cn[c].why \/ 0 \in cn[c].why \/ (soft /\ code = 1008))

AllClosed == \A c \in DOMAIN cn :
  /\ P({"C08", "C09", "C11", "C14", "C20"}, cn[c].must => cn[c].raw)
  /\ P({"C08", "C20"}, cn[c].raw => cn[c].disc = 1)
=============================================================================
