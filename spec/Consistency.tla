----------------------------- MODULE Consistency -----------------------------
(* Which networks are accepted as consistent before planning and reporting.

   c.site[s] = [type, status]; c.sec[k] = [site, status];
   c.link[l] = [tx, rx, wireless, status, ts, rs]  (ts, rs: sector or "none") *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Active   == {"PROPOSED", "EXISTING"}
Inactive == {"UNAVAILABLE", "UNREACHABLE"}
Links(c) == DOMAIN c.link
Rev(c, l) == {m \in Links(c) : c.link[m].tx = c.link[l].rx /\ c.link[m].rx = c.link[l].tx}
Access(c, l) == c.link[l].wireless /\ c.site[c.link[l].rx].type = "CN"

Ends(c, l) == {c.site[c.link[l].tx].status, c.site[c.link[l].rx].status}
Named(c, l) == {c.link[l].ts, c.link[l].rs}
SecStatus(c, l) == {c.sec[k].status : k \in Named(c, l) \ {"none"}}

\* the equipment at both ends of a connection carries its status
LinkOk(c, l) ==
  LET s == c.link[l].status
      \* wired links use no sectors
      on(S) == ~c.link[l].wireless \/ ("none" \notin Named(c, l) /\ SecStatus(c, l) \subseteq S)
  IN CASE s = "EXISTING" -> Ends(c, l) = {"EXISTING"} /\ on({"EXISTING"})
       [] s = "PROPOSED" -> Ends(c, l) \subseteq Active /\ on(Active)
       [] s = "CANDIDATE" -> Ends(c, l) \intersect Inactive = {} /\ SecStatus(c, l) \intersect Inactive = {}
       [] OTHER -> TRUE

Consistent(c) ==
  \A l \in Links(c) :
    /\ ~Access(c, l) => Rev(c, l) # {}
    /\ \A m \in Rev(c, l) : c.link[m].status = c.link[l].status
    /\ LinkOk(c, l)

Fails(c) ==
  CASE c.kind = "check" ->
         (IF c.accepted = Consistent(c) THEN {} ELSE IF c.accepted THEN {"contradiction_accepted"} ELSE {"consistent_refused"})
         \union (IF c.same THEN {} ELSE {"network_changed"})
    [] c.kind = "crash" -> {"crash_" \o c.what}
=============================================================================
