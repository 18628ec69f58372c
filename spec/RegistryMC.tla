----------------------------- MODULE RegistryMC -----------------------------
(* Registry closed with an environment: NC connections that register, close, break; shutdowns; looks.
   Up to Par operations at once; at most N stimuli.  Checked: the contract can always be fulfilled (no deadlock), and
   what it means for users (invariants below).  With Par = 1 the stimuli are printed, for replay on the code (ENUM). *)
EXTENDS Registry, TLC
CONSTANTS NC, N, Par, Looks, Emits
VARIABLES hist
mcvars == <<vars, hist>>
Init == \E ck \in [1..NC -> 1..2], h \in BOOLEAN :
          /\ cfg = [nc |-> NC, ckey |-> ck, hooks |-> h, bp |-> 0, ends |-> 1..NC] /\ Init0(cfg)
          /\ hist = <<0, "">>
Op(k, c, key, res, code) == [k |-> k, c |-> c, key |-> key, excl |-> <<>>, res |-> res, code |-> code]
\* an operation that only looks and was given a result that never was true will not return
Wrong == \E o \in Pending : ops[o].k \in {"mget", "mgetall"} /\ ~ops[o].hit
Begun == {c \in Cs : rg[c].eff # "no" \/ \E o \in Pending : ops[o].k = "mreg" /\ ops[o].c = c}
Stim(letter, e) == Call(hist[1] + 1, e) /\ hist' = <<hist[1] + 1, hist[2] \o letter \o " ">>
Stimulus ==
  /\ hist[1] < N /\ Cardinality(Pending) < Par /\ ~Wrong /\ (Par = 1 => ENABLED Quiet({}, 0, 0))
  /\ \/ \E c \in Cs : /\ c \notin Begun /\ (c = 1 \/ c - 1 \in Begun)
                      /\ Stim("r" \o ToString(c) \o ToString(cfg.ckey[c]), Op("mreg", c, cfg.ckey[c], <<>>, 0))
     \/ \E c \in Begun : /\ ~cn[c].raw \/ cn[c].n < 2
                         /\ Stim("x" \o ToString(c), Op("close", c, 0, <<>>, 1000))
     \/ \E c \in Begun : /\ ~cn[c].raw /\ Kill(c, 0) /\ hist' = <<hist[1] + 1, hist[2] \o "k" \o ToString(c) \o " ">>
     \/ Stim("s", Op("mshut", 0, 0, <<>>, 0))
     \/ Looks /\ \E k \in 1..2, c \in 0..NC : Stim("g" \o ToString(k), Op("mget", 0, k, <<c>>, 0))
     \/ Looks /\ \E S \in {<<>>, <<1>>, <<2>>, <<1, 2>>} : Stim("a", Op("mgetall", 0, 0, S, 0))
H == cfg.hooks /\ \E c \in Cs : OnReg(c, cfg.ckey[c]) \/ OnUnreg(c, cfg.ckey[c])
C == \E c \in Cs : Raw(c) \/ (cn[c].raw /\ Disc(c))
R == \E o \in Pending : Ret(o, "ok")
\* for stimuli that come one at a time the order of what they cause doesn't matter
Impl == IF ~Emits THEN Internal \/ H \/ C \/ R
        ELSE IF ENABLED Internal THEN Internal ELSE IF ENABLED H THEN H ELSE IF ENABLED C THEN C ELSE R
Rest == Pending = {} /\ ENABLED Quiet({}, 0, 0)
Next == Stimulus \/ (Impl /\ UNCHANGED hist) \/ ((Rest \/ Wrong) /\ UNCHANGED mcvars)
Spec == Init /\ [][Next]_mcvars
-----------------------------------------------------------------------------
\* C11, restated: what is found under a key registered under it, and hasn't been unregistered
Found == \A k \in Keys : held[k] # 0 => rg[held[k]].eff = "in" /\ cfg.ckey[held[k]] = k
\* who is registered and not held anymore has a reason to be closed: replaced, closing
Lost == \A c \in Cs : rg[c].eff = "in" /\ held[cfg.ckey[c]] # c => HasWhy(c)
\* hooks at most once, and unregistering never without a reason
Hooks == \A c \in Cs : rg[c].on <= 1 /\ rg[c].off <= 1 /\ (rg[c].off = 1 => HasWhy(c))
\* at rest: nothing closed is found, and every connection that left has had both hooks
AtRest == Rest => \A c \in Cs : /\ cn[c].raw => \A k \in Keys : held[k] # c
                                /\ (cfg.hooks /\ cn[c].raw /\ rg[c].eff # "no") => rg[c].on = 1 /\ rg[c].off = 1
\* a connection nobody gave a reason to close stays open and found
Safe == \A c \in Cs : ~HasWhy(c) => ~cn[c].raw /\ cn[c].disc = 0 /\ (rg[c].eff = "in" => held[cfg.ckey[c]] = c)
Emit == (Emits /\ Rest /\ hist[1] = N) => PrintT(<<"SEQ", hist[2]>>)
=============================================================================
