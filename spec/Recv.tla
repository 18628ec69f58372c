-------------------------------- MODULE Recv --------------------------------
(* The receiving side of one connection, as its user sees it (C01-C04).

   The peer's byte stream is a sequence `fr` of frames, possibly malformed, possibly cut short.  The application
   calls read operations; each call takes frames from the stream (Accept), may answer (pongs, a close frame), and
   returns.  The actions say which returns are allowed; how much of a message one Read takes, and when a frame is
   taken, is left open as far as the contracts leave it open.

   A frame is a record
     op, fin, rsv, mask, len     header fields (op 0..15)
     have                        number of payload bytes that arrived (< len: the stream ends in the payload)
     hdr                         FALSE: the stream ends in this frame's header
     u8                          (data, first frame of a message) is the whole message valid UTF-8
     ck, code                    (close) "empty","one","code","utf","ok" and its status code
     js, jl                      (text, first frame) "ok": starts with a JSON value of jl bytes, "bad": it doesn't, "": not JSON *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,    \* [max, maxfrag, u8chk]
  fr,     \* the frames
  fi,     \* index of the next frame to take
  m,      \* current message: s = index of its first frame (0: none), acc = bytes of it in the frames taken,
          \* tot = bytes delivered, fin = last frame taken, frags, total = announced length, cut = payload cut short
  call,   \* the read call in progress: k = kind ("none"), got = it has taken the first frame of its message
  dead,   \* {} or the set of status codes the close frame may carry; 0 stands for any
  clo,    \* "open", "sent" (close frame sent), "raw" (network connection closed)
  pq      \* pings taken and not answered yet
vars == <<cfg, fr, fi, m, call, dead, clo, pq>>

NoMsg == [s |-> 0, acc |-> 0, tot |-> 0, fin |-> TRUE, frags |-> 0, total |-> 0, cut |-> FALSE]
NoCall == [k |-> "none", got |-> FALSE]
ANY == 0

Init0 == fi = 1 /\ m = NoMsg /\ call = NoCall /\ dead = {} /\ clo = "open" /\ pq = <<>>

Control(f) == f.op \in 8..10
Data(f) == f.op \in 1..2
Known(f) == Control(f) \/ f.op \in 0..2
\* kinds of calls that begin a new message
Begins(k) == k \in {"msg", "bin", "str", "json", "next"}
\* kinds that read a message whole and check its encoding
Whole(k) == k \in {"msg", "bin", "str"}

Skipping == Begins(call.k) /\ ~call.got
Unfinished == m.s # 0 /\ ~m.fin

\* Status codes of the protocol violations in frame f, as such and at this place
Malformed(f) ==
     (IF ~Known(f) \/ f.rsv \/ ~f.mask \/ (Control(f) /\ (~f.fin \/ f.len > 125)) THEN {1002} ELSE {})
  \cup (IF f.huge THEN {1002, 1009} ELSE {})           \* a length that is none
Misplaced(f) ==
     (IF (f.op = 0 /\ ~Unfinished) \/ (Data(f) /\ Unfinished) THEN {1002} ELSE {})
Limited == cfg.max >= 0
TooBig(f) == IF Limited /\ f.len > cfg.max THEN {1009} ELSE {}
SumTooBig(f) == IF Limited /\ f.op = 0 /\ Unfinished /\ m.total + f.len > cfg.max THEN {1009} ELSE {}
TooMany(f) == IF f.op = 0 /\ Unfinished /\ cfg.maxfrag > 0 /\ m.frags >= cfg.maxfrag THEN {1008} ELSE {}

Call(k) ==
  /\ call = NoCall
  /\ call' = [k |-> k, got |-> FALSE]
  /\ UNCHANGED <<cfg, fr, fi, m, dead, clo, pq>>

\* May the call in progress take another frame?
Wants ==
  /\ call.k # "none" /\ dead = {} /\ ~m.cut
  /\ \/ Skipping
     \/ Unfinished
Die(codes) == dead' = codes /\ UNCHANGED <<cfg, fr, m, call, clo, pq>>

Accept ==
  /\ Wants /\ fi <= Len(fr) /\ fr[fi].hdr
  /\ LET f == fr[fi]
         bad == Malformed(f) \cup Misplaced(f) \cup TooBig(f)
         lim == SumTooBig(f) \cup TooMany(f)
     IN
     \/ /\ bad # {} \/ lim # {}                 \* refused
        /\ Die(bad \cup lim) /\ fi' = fi
     \/ /\ bad = {} /\ (lim = {} \/ Skipping)   \* the limits of a message that is skipped need not be enforced
        /\ fi' = fi + 1
        /\ CASE Control(f) /\ f.have < f.len ->  Die({ANY})
             [] f.op = 8 /\ f.have = f.len -> Die(IF f.ck = "ok" THEN {f.code}
                                                  ELSE IF f.ck = "empty" THEN {1000}
                                                  ELSE IF f.ck = "utf" THEN {1002, 1007} ELSE {1002})
             [] f.op = 9 /\ f.have = f.len -> pq' = Append(pq, fi) /\ UNCHANGED <<cfg, fr, m, call, dead, clo>>
             [] f.op = 10 /\ f.have = f.len -> UNCHANGED <<cfg, fr, m, call, dead, clo, pq>>
             [] Data(f) -> /\ m' = [s |-> fi, acc |-> f.have, tot |-> 0, fin |-> f.fin, frags |-> 1,
                                    total |-> f.len, cut |-> f.have < f.len]
                           /\ call' = [call EXCEPT !.got = TRUE]
                           /\ UNCHANGED <<cfg, fr, dead, clo, pq>>
             [] f.op = 0 -> /\ m' = [m EXCEPT !.acc = @ + f.have, !.fin = f.fin, !.frags = @ + 1,
                                              !.total = @ + f.len, !.cut = f.have < f.len]
                            /\ UNCHANGED <<cfg, fr, call, dead, clo, pq>>

\* The fragment limit may be enforced before the frame that breaks it arrives: the message isn't finished.
TooManyEarly ==
  /\ Wants /\ Unfinished /\ cfg.maxfrag > 0 /\ m.frags >= cfg.maxfrag
  /\ Die({1008}) /\ fi' = fi

\* The stream ended (or the read timed out) while the call needed more.
Ended ==
  /\ call.k # "none" /\ dead = {}
  /\ m.cut \/ (Wants /\ (fi > Len(fr) \/ (fi <= Len(fr) /\ ~fr[fi].hdr)))
  /\ Die({ANY}) /\ fi' = fi

\* A text message that is read whole must be UTF-8.
BadText ==
  /\ Whole(call.k) /\ call.got /\ m.fin /\ ~m.cut /\ dead = {}
  /\ fr[m.s].op = 1 /\ cfg.u8chk /\ ~fr[m.s].u8
  /\ Die({1007}) /\ fi' = fi

Internal == Accept \/ TooManyEarly \/ Ended \/ BadText

ValidCode(c) == c \in {1000, 1001, 1002, 1003} \cup (1007..1011) \cup (3000..4999)

Pong(cand) ==      \* cand: the pings whose payload it carries
  /\ clo = "open" /\ pq # <<>> /\ Head(pq) \in cand
  /\ pq' = Tail(pq)
  /\ UNCHANGED <<cfg, fr, fi, m, call, dead, clo>>

\* echo: the frame carries the reason of the close frame received (or there was none)
CloseFrame(code, echo) ==
  /\ clo = "open" /\ dead # {}
  /\ IF ANY \in dead THEN ValidCode(code) ELSE code \in dead
  /\ (fi > 1 /\ fr[fi-1].op = 8 /\ fr[fi-1].ck = "ok" /\ dead = {fr[fi-1].code}) => echo
  /\ clo' = "sent"
  /\ UNCHANGED <<cfg, fr, fi, m, call, dead, pq>>

RawClose ==
  /\ dead # {} /\ clo = "sent"
  /\ clo' = "raw"
  /\ UNCHANGED <<cfg, fr, fi, m, call, dead, pq>>

\* Returns. cand: the messages (indices of first frames) of which the returned bytes are what they should be.
Back == call' = NoCall /\ UNCHANGED <<cfg, fr, fi, dead, clo, pq>>

RetFatal ==
  /\ call.k # "none" /\ dead # {} /\ clo = "raw"
  /\ Back /\ UNCHANGED m

Want(k) == IF k = "bin" THEN {2} ELSE IF k \in {"str", "json"} THEN {1} ELSE {1, 2}
Complete == call.got /\ m.fin /\ ~m.cut

RetWhole(op, cand) ==      \* "msg", "bin", "str" returned a message
  /\ Whole(call.k) /\ dead = {} /\ Complete
  /\ m.s \in cand /\ op = fr[m.s].op /\ op \in Want(call.k)
  /\ (op = 1 /\ cfg.u8chk) => fr[m.s].u8
  /\ m' = [m EXCEPT !.tot = m.acc] /\ Back

RetMismatch ==             \* message of another type
  /\ Begins(call.k) /\ call.got /\ dead = {} /\ fr[m.s].op \notin Want(call.k)
  /\ Back /\ UNCHANGED m

RetNext(op) ==
  /\ call.k = "next" /\ call.got /\ dead = {} /\ op = fr[m.s].op
  /\ Back /\ UNCHANGED m

RetRead(n, k, eof, cand) ==  \* Read of a slice of n bytes returned k
  /\ call.k = "read" /\ dead = {} /\ m.s # 0
  /\ k <= n /\ m.tot + k <= m.acc
  /\ k > 0 => m.s \in cand
  /\ eof => m.fin /\ ~m.cut /\ m.tot + k = m.acc
  /\ m' = [m EXCEPT !.tot = @ + k] /\ Back

RetJSON(ok, cand) ==
  /\ call.k = "json" /\ call.got /\ fr[m.s].op = 1
  /\ dead = {} \/ (ok /\ dead = {ANY} /\ clo = "raw")    \* the stream ended after the value
  /\ IF ok THEN fr[m.s].js = "ok" /\ m.s \in cand /\ m.acc >= fr[m.s].jl
           ELSE fr[m.s].js # "ok"
  /\ Back /\ UNCHANGED m

\* A Read after the end of the message
Quiet == call = NoCall /\ (dead = {} => pq = <<>>) /\ (dead # {} => clo = "raw")
=============================================================================
