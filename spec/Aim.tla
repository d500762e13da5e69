--------------------------------- MODULE Aim ---------------------------------
(* Re-aiming the sectors of a finished plan.

   c.site, c.link (with ts, rs, chan before), c.given: before, with channel;
   c.sec, c.out[l] = [ts, rs, chan, status], c.sstat[s]: after;
   c.rule = [dn, total, diff, nf, ratio].                                   *)
EXTENDS Sectors

On == {"PROPOSED", "EXISTING"}
WL(c) == {l \in DOMAIN c.link : c.link[l].wireless}
ActiveLinks(c) == {l \in WL(c) : c.link[l].status \in On}
Ends2(c, l) == {c.link[l].tx, c.link[l].rx}
Busy(c, s) == \E l \in ActiveLinks(c) : s \in Ends2(c, l)
NoStatus(S, K) == [k \in K |-> [S[k] EXCEPT !.status = "", !.channel = 0]]
Kept(c, s) ==
  /\ Of(c.sec, s) = Of(c.given, s)
  /\ NoStatus(c.sec, Of(c.sec, s)) = NoStatus(c.given, Of(c.given, s))

Rev2(c, l) == {m \in DOMAIN c.link : c.link[m].tx = c.link[l].rx /\ c.link[m].rx = c.link[l].tx}

\* links: an active link is inside the steering range of both its sectors
AimLinks(c) ==
  LET amb(l) == OkFuzzy(c, c.link[l].tx, c.link[l].rx, FALSE) \/ OkFuzzy(c, c.link[l].rx, c.link[l].tx, FALSE)
      A(l) == Nearest(c, c.link[l].tx, c.link[l].rx, FALSE)
      B(l) == Nearest(c, c.link[l].rx, c.link[l].tx, FALSE)
      \* a link between sites left alone keeps its assignment
      alone(l) == /\ ~Busy(c, c.link[l].tx) /\ ~Busy(c, c.link[l].rx)
                  /\ c.link[l].ts # "none"
                  /\ c.site[c.link[l].rx].type # "CN"   \* an unserved CN has no direction
  IN (IF \A l \in ActiveLinks(c) : amb(l) \/ (/\ c.out[l].ts \in Reach(c, c.link[l].tx, c.link[l].rx, FALSE)
                                             /\ c.out[l].rs \in Reach(c, c.link[l].rx, c.link[l].tx, FALSE))
      THEN {} ELSE {"active_link_out_of_range"})
     \union (IF \A l \in WL(c) : amb(l) \/ IF alone(l) THEN c.out[l].ts = c.link[l].ts /\ c.out[l].rs = c.link[l].rs
                  ELSE IF c.link[l].ts # "none" /\ Kept(c, c.link[l].tx) /\ Kept(c, c.link[l].rx) THEN TRUE
                  ELSE IF A(l) # {} /\ B(l) # {} THEN c.out[l].ts \in A(l) /\ c.out[l].rs \in B(l)
                  ELSE c.out[l].ts = "none" /\ c.out[l].rs = "none"
             THEN {} ELSE {"link_sector"})
     \union (IF \A l \in DOMAIN c.link \ WL(c) : c.out[l].ts = "none" THEN {} ELSE {"wired_link_has_sector"})
     \union (IF \A l \in DOMAIN c.link : c.out[l].status = c.link[l].status THEN {} ELSE {"link_status_changed"})
     \union (IF \A l \in ActiveLinks(c) : c.out[l].chan = c.link[l].chan THEN {} ELSE {"link_channel_changed"})

AimSectors(c) ==
  LET serves(k, S) == \E l \in ActiveLinks(c) : c.link[l].status \in S /\ k \in {c.out[l].ts, c.out[l].rs}
      node(k) == {j \in DOMAIN c.sec : c.sec[j].site = c.sec[k].site /\ c.sec[j].node = c.sec[k].node}
      st(k) == IF \E j \in node(k) : serves(j, {"EXISTING"}) THEN "EXISTING"
               ELSE IF \E j \in node(k) : serves(j, {"PROPOSED"}) THEN "PROPOSED" ELSE "CANDIDATE"
      \* on an untouched site, nodes in use stay in use
      idle(s) == ~Busy(c, s)
  IN (IF \A s \in DOMAIN c.site : idle(s) => Kept(c, s) THEN {} ELSE {"idle_site_re_aimed"})
     \union (IF \A s \in DOMAIN c.site : Kept(c, s) \/ Sound(c.sec, s, c.site[s], AzTol, AzTol) THEN {} ELSE {"layout_unsound"})
     \union (IF \A s \in DOMAIN c.site : Busy(c, s) /\ ~Kept(c, s) =>
                  \A k \in Of(c.sec, s) : c.sec[k].status = st(k) THEN {} ELSE {"sector_status"})
     \union (IF \A k \in DOMAIN c.sec : \A j \in node(k) : c.sec[k].status \in On <=> c.sec[j].status \in On THEN {} ELSE {"node_half_active"})
     \union (IF \A k \in DOMAIN c.sec : serves(k, On) => c.sec[k].status \in On THEN {} ELSE {"active_link_on_inactive_sector"})
     \union (IF \A s \in DOMAIN c.site : c.sstat[s] = c.site[s].status THEN {} ELSE {"site_status_changed"})

\* without rules in the way, aiming at the chosen links is never worse than
\* the aim at all candidate links: distance- and type-weighted squared error
Best(c, S, s, n) ==
  LET e == [k \in Of(S, s) |-> AngleDist(S[k].az, Bearing(c.site[s], c.site[n]))]
      k0 == CHOOSE k \in Of(S, s) : \A j \in Of(S, s) : FLe(e[k], e[j])
  IN e[k0]
RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN "0.0" ELSE LET x == CHOOSE y \in D : TRUE IN FAdd(f[x], SumOver(f, D \ {x}))
Aimed(c, S, s) ==
  LET N == {n \in DOMAIN c.site : \E l \in ActiveLinks(c) : Ends2(c, l) = {s, n}}
      f == [n \in N |-> FMul(FMul(Sq(Best(c, S, s, n)), Haversine(c.site[s], c.site[n])),
                              IF c.site[n].type = "CN" THEN "1.0" ELSE "8.0")]
  IN SumOver(f, N)
Fits(c, s) ==
  LET N == {n \in DOMAIN c.site : \E l \in ActiveLinks(c) : Ends2(c, l) = {s, n}}
  IN Cardinality(N) <= c.total_limit /\ Cardinality({n \in N : c.site[n].type # "CN"}) <= c.dn_limit
NoWorse(c) ==
  IF c.free /\ \E s \in DOMAIN c.site : /\ Busy(c, s) /\ Fits(c, s) /\ Of(c.given, s) # {}
         /\ c.site[s].type # "CN"
         /\ FLt(FAdd(FMul(Aimed(c, c.given, s), "1.000001"), "1e-3"), Aimed(c, c.sec, s))
  THEN {"aim_worse_than_before"} ELSE {}

Fails(c) ==
  CASE c.kind = "aim" -> AimLinks(c) \union AimSectors(c) \union NoWorse(c)
    [] c.kind = "refused" -> IF c.may THEN {} ELSE {"re_aiming_refused"}
    [] c.kind = "crash" -> {"crash_" \o c.what}
=============================================================================
