----------------------------- MODULE TraceCheck -----------------------------
(* Judging recorded executions: each is an initial state of its own; the search records how far each gets.  A search
   that gets too big, on its own or because all together do, is given up (UNDECIDED), which says nothing about the
   code. *)
EXTENDS Naturals, Sequences, Json, TLC, TLCExt, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
TagsEnv == IF "PROP" \in DOMAIN IOEnv /\ IOEnv.PROP # "" THEN {IOEnv.PROP} ELSE {}
Limit == IF "LIMIT" \in DOMAIN IOEnv THEN atoi(IOEnv.LIMIT) ELSE 30000
All == 2 * Len(Traces) + 1
Bound == IF TLCGet(All) > 30 * Limit THEN Limit \div 20 ELSE Limit
\* state constraint: trace t has got to event l
Reached(t, l) == /\ IF l > TLCGet(t) THEN TLCSet(t, l) ELSE TRUE
                 /\ TLCSet(Len(Traces) + t, TLCGet(Len(Traces) + t) + 1)
                 /\ TLCSet(All, TLCGet(All) + 1)
                 /\ IF TLCGet(Len(Traces) + t) <= Bound THEN TRUE ELSE TLCSet(Len(Traces) + t, Limit + 1) /\ FALSE
Prep == \A i \in 1..(2 * Len(Traces) + 1) : TLCSet(i, 0)
ASSUME Prep
Report == \A i \in 1..Len(Traces) :
  TLCGet(i) # Len(Traces[i].ev) + 1 =>
    PrintT(<<IF TLCGet(Len(Traces) + i) > Limit THEN "UNDECIDED" ELSE "REJECT", i, TLCGet(i)>>)
=============================================================================
