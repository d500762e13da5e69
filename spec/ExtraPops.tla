----------------------------- MODULE ExtraPops -----------------------------
(* Where a network that asks for more POPs should get them.

   c is a plan of Capacity with c.cfg.extra, the number of POPs asked for.
   Every candidate DN that stands alone (no POP and no active DN in the same
   place) could become a POP; only the hop from a POP to a CN and the demand
   attached to a site count.  The POPs that are given stay.                 *)
EXTENDS Capacity

InputPops(c) == {s \in Sites(c) : c.site[s].type = "POP" /\ c.site[s].status \notin Dead}
Convertible(c) ==
  {s \in Sites(c) : /\ c.site[s].type = "DN" /\ c.site[s].status = "CANDIDATE"
                    /\ \A t \in Group(c, s) : c.site[t].type # "POP" /\ ~(c.site[t].type = "DN" /\ c.site[t].status \in Given)}
HandMost(c, V) == IF V = {} THEN c.cfg.pop ELSE FMaxSeq(SetToSeq(V))
\* the network of single hops
Access(c) ==
  LET up == Convertible(c) IN
  [c EXCEPT !.site = [s \in Sites(c) |-> IF s \in up THEN [c.site[s] EXCEPT !.type = "POP"]
                                         ELSE IF s \in InputPops(c) /\ c.site[s].status = "CANDIDATE" THEN [c.site[s] EXCEPT !.status = "PROPOSED"]
                                         ELSE c.site[s]],
            !.link = [l \in {l \in Links(c) : c.site[c.link[l].rx].type = "CN"} |-> c.link[l]],
            !.cfg.hand = HandMost(c, {c.link[l].cap : l \in {l \in Links(c) : c.site[c.link[l].rx].type = "CN"}}),
            !.cfg.blind = TRUE, !.cfg.always = FALSE, !.cfg.common = FALSE]
Places(c, S) == {c.site[s].at : s \in S}
Lesser(a, b) == IF a <= b THEN a ELSE b
Quota(c) == Lesser(c.cfg.extra, Cardinality(Places(c, Convertible(c))))

ChoiceFails(c0) == IF c0.kind = "crash" THEN {"crash"} ELSE
  LET c == [c0 EXCEPT !.blocked = {}]
      a == Access(c)
      q == Quota(c)
      CC == Options(a)
      news(S) == S \cap Convertible(c)
      full == Largest({S \in CC : Cardinality(news(S)) = q})
      any == Largest({S \in CC : Cardinality(news(S)) <= q})
      best(SS) == FSub(TotalNeed(c), Best({Most(a, S) : S \in SS}))
  IN IF c.out = <<>> THEN (IF full # {} /\ FLt(FAdd(best(full), Tol), TotalNeed(c)) THEN {"gave-up"} ELSE {})
     ELSE LET r == c.out[1]
              on == Range(r.on)
              short == SumF([d \in DOMAIN c.dem |-> r.short[d]], DOMAIN c.dem)
          IN FlowFaults(a, r, on)
             \cup (IF on \subseteq Sites(c) THEN {} ELSE {"unknown-site"})
             \cup {"dead-site" : s \in {s \in on : c.site[s].status \in Dead}}
             \cup {"two-in-one-place" : s \in {s \in on : Cardinality(on \cap Group(c, s)) > 1}}
             \cup {"lost-pop" : s \in {s \in InputPops(c) \ on : InputPops(c) \cap Group(c, s) = {s}
                                        /\ \E l \in Links(a) : a.link[l].tx = s /\ a.link[l].rx \in on /\ Real(a, l)}}
             \cup (IF Cardinality(news(on)) <= q THEN {} ELSE {"too-many"})
             \cup {"not-eligible" : s \in {s \in on : c.site[s].type = "DN" /\ c.site[s].status = "CANDIDATE" /\ s \notin Convertible(c)}}
             \cup {"idle-site" : s \in {s \in news(on) : FLeT(FlowOf(r, "SRC>" \o s), "0", "0.000001")}}
             \cup {"delivered" : d \in {d \in DOMAIN c.dem : ~FNear(FAdd(Delivered(c, r, d), r.short[d]), c.dem[d].need, Tol)}}
             \cup (IF FLeT(r.objective, best(full), Tol) THEN {} ELSE {"not-best"})
             \cup (IF FLeT(best(any), r.objective, Tol) THEN {} ELSE {"impossible-objective"})
             \cup (IF FNear(short, r.objective, Tol) THEN {} ELSE {"objective"})

-----------------------------------------------------------------------------
(* ---- the POPs that are added ------------------------------------------- *)
(* c.before and c.after describe a network: site, sec, link, dem as
     site: name -> [type, at, sku, status, where, building, subs, label]
     sec:  name -> [site, node, pos, az, chan, status]
     link: name -> [tx, rx, ts, rs, wired, status, conf, cap, rsl, mcs]
     dem:  name -> set of sites;   c.chosen the DNs that carry demand.       *)
Same(f, g) == DOMAIN f \subseteq DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
CopyFails(c) == IF c.kind = "crash" THEN {"crash"} ELSE
  LET b == c.before
      a == c.after
      chosen == Range(c.chosen)
      newS == DOMAIN a.site \ DOMAIN b.site
      newK == DOMAIN a.sec \ DOMAIN b.sec
      newL == DOMAIN a.link \ DOMAIN b.link
      twin(d) == {s \in newS : a.site[s] = [b.site[d] EXCEPT !.type = "POP", !.status = "CANDIDATE", !.subs = 0, !.label = b.site[d].label \o "_POP"]}
      origin(s) == {d \in chosen : s \in twin(d)}
      sect(k) == {m \in newK : \E d \in chosen : b.sec[k].site = d /\ \E s \in twin(d) : a.sec[m] = [b.sec[k] EXCEPT !.site = s, !.status = "CANDIDATE"]}
      copied == {l \in DOMAIN b.link : b.link[l].ts # "none" /\
                   \/ b.link[l].tx \in chosen /\ b.site[b.link[l].rx].type # "POP"
                   \/ b.link[l].rx \in chosen /\ b.site[b.link[l].tx].type # "POP"}
      \* what a link of the old network becomes when one end is replaced
      dead(l) == b.link[l].status \in Dead
      okStatus(l, m) == IF dead(l) THEN a.link[m].status \in Dead ELSE a.link[m].status = "CANDIDATE"
      rest(v) == [wired |-> v.wired, conf |-> v.conf, cap |-> v.cap, rsl |-> v.rsl, mcs |-> v.mcs]
      twinTx(l, m) == /\ b.link[l].tx \in chosen /\ a.link[m].tx \in twin(b.link[l].tx) /\ a.link[m].rx = b.link[l].rx
                      /\ b.link[l].ts # "none" /\ a.link[m].ts \in sect(b.link[l].ts) /\ a.link[m].rs = b.link[l].rs
      twinRx(l, m) == /\ b.link[l].rx \in chosen /\ a.link[m].rx \in twin(b.link[l].rx) /\ a.link[m].tx = b.link[l].tx
                      /\ b.link[l].rs # "none" /\ a.link[m].rs \in sect(b.link[l].rs) /\ a.link[m].ts = b.link[l].ts
      made(l, m) == rest(a.link[m]) = rest(b.link[l]) /\ okStatus(l, m)
  IN (IF Same(b.site, a.site) /\ Same(b.sec, a.sec) /\ Same(b.link, a.link) THEN {} ELSE {"changed-old"})
     \cup {"no-pop" : d \in {d \in chosen : Cardinality(twin(d)) # 1}}
     \cup {"stray-pop" : s \in {s \in newS : origin(s) = {}}}
     \cup {"sector" : k \in {k \in DOMAIN b.sec : b.sec[k].site \in chosen /\ Cardinality(sect(k)) # 1}}
     \cup {"stray-sector" : m \in {m \in newK : ~\E k \in DOMAIN b.sec : m \in sect(k)}}
     \cup {"no-tx-link" : l \in {l \in copied : b.link[l].tx \in chosen /\ b.site[b.link[l].rx].type # "POP"
                                    /\ ~\E m \in newL : twinTx(l, m) /\ made(l, m)}}
     \cup {"no-rx-link" : l \in {l \in copied : b.link[l].rx \in chosen /\ b.site[b.link[l].tx].type # "POP"
                                    /\ ~\E m \in newL : twinRx(l, m) /\ made(l, m)}}
     \cup {"stray-link" : m \in {m \in newL : ~a.link[m].wired /\ ~\E l \in DOMAIN b.link : (twinTx(l, m) \/ twinRx(l, m)) /\ made(l, m)}}
     \cup {"pop-to-pop" : m \in {m \in newL : a.link[m].tx \in newS /\ a.link[m].rx \in newS}}
     \cup (IF DOMAIN a.dem = DOMAIN b.dem THEN {} ELSE {"demands"})
     \cup {"demand" : d \in {d \in DOMAIN a.dem \cap DOMAIN b.dem :
              LET old == Range(b.dem[d]) IN Range(a.dem[d]) # old \cup UNION {twin(s) : s \in old \cap chosen}}}
=============================================================================
