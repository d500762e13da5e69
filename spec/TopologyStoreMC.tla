--------------------------- MODULE TopologyStoreMC ---------------------------
(* Exhaustive exploration of the store over a small universe; every state's
   view and every transition is printed for replay into the real store.      *)
EXTENDS TopologyStore, Json, IOUtils

U == ndJsonDeserialize(IOEnv.VERIF_UNIVERSE)[1]

VARIABLE st
AllOps(s) ==
  {[op |-> o, x |-> x] : o \in {"AddSite", "RemoveSite"}, x \in DOMAIN U.site}
  \union {[op |-> o, x |-> x] : o \in {"AddSector", "RemoveSector"}, x \in DOMAIN U.sector}
  \union {[op |-> "RemoveLink", x |-> x] : x \in DOMAIN U.link}
  \union {[op |-> "AddLink", x |-> x, a |-> "-", b |-> "-"] : x \in DOMAIN U.link \ DOMAIN s.links}
  \union {[op |-> "AddLink", x |-> p[1], a |-> p[2], b |-> p[3]] :
            p \in {q \in Rng(U.sectored) : q[1] \notin DOMAIN s.links
                                           /\ q[2] \in s.sectors /\ q[3] \in s.sectors}}
  \union {[op |-> o, x |-> d] : o \in {"AddDemand", "RemoveDemand"}, d \in Rng(U.demand)}

Init == st = Empty(U)
Next == \E op \in AllOps(st) :
          LET r == Apply(U, st, op)
          IN /\ st' = r.st
             /\ PrintT("EDGE " \o ToJson([k |-> "E", f |-> st, op |-> op, ok |-> r.ok, t |-> r.st]))
Soundness == Sound(U, st)
Show == PrintT("EDGE " \o ToJson([k |-> "S", s |-> st, v |-> View(U, st)]))
=============================================================================
