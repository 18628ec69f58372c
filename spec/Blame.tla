------------------------------- MODULE Blame -------------------------------
(* Which property a condition belongs to.

   A condition of a contract is written P({"C05", ...}, cond): the properties it is part of.  Normally TAGS = {} and
   every condition counts.  To find out whether an execution that isn't a behaviour of a contract breaks property X
   (or only others) it is checked again with TAGS = {X}: conditions that aren't part of X are ignored then. *)
CONSTANT TAGS
Enforced(tags) == TAGS = {} \/ tags \cap TAGS # {}
P(tags, cond) == cond \/ ~Enforced(tags)
=============================================================================
