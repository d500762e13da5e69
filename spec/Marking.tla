------------------------------ MODULE Marking ------------------------------
(* Hop counts from the POPs and the marking of what cannot be reached.      *)
EXTENDS Network

HopGraph(n, F) == LinkEdges(n, F)
Hops(n, F) == IF Pops(n, F) = {} THEN << >> ELSE HopMap(HopGraph(n, F), Pops(n, F))

HopFacts(c) ==
  LET F == Rng(c.filter)
      h == Hops(c.net, F)
      rep == [x \in {c.hops[i][1] : i \in 1..Len(c.hops)} |->
                (CHOOSE i \in 1..Len(c.hops) : c.hops[i][1] = x)]
      D == IF Pops(c.net, F) = {} THEN {} ELSE DOMAIN h
  IN (IF DOMAIN rep = D THEN {} ELSE {"hop_domain"})
     \union (IF \A x \in DOMAIN rep \intersect D : c.hops[rep[x]][2] = h[x] THEN {} ELSE {"hop_count"})
     \union (IF Rng(c.demands) = {d \in Demands(c.net) : Rng(c.net.demand[d]) \intersect D # {}} THEN {} ELSE {"demand_reach"})

\* marking: after = [site, link, sector] of statuses; c.sector[k] = [site, status]
Cut(n, max) ==
  LET F == Reachable  h == Hops(n, F)
      D == IF Pops(n, F) = {} THEN {} ELSE DOMAIN h
  IN {x \in Sites(n) : n.site[x].status = "CANDIDATE" /\ (x \notin D \/ (max > 0 /\ h[x] > max))}

MarkFacts(c) ==
  LET n == c.net  cut == Cut(n, c.max)
      frozen(s) == s \in {"EXISTING", "UNAVAILABLE"}
      site(x) == IF x \in cut THEN "UNREACHABLE" ELSE n.site[x].status
      link(l) == IF (n.link[l].tx \in cut \/ n.link[l].rx \in cut) /\ ~frozen(n.link[l].status)
                 THEN "UNREACHABLE" ELSE n.link[l].status
      sec(k) == IF site(c.sector[k].site) = "UNREACHABLE" THEN "UNREACHABLE" ELSE c.sector[k].status
  IN (IF \A x \in Sites(n) : c.after.site[x] = site(x) THEN {} ELSE {"marked_sites"})
     \union (IF \A l \in Links(n) : c.after.link[l] = link(l) THEN {} ELSE {"marked_links"})
     \union (IF \A k \in DOMAIN c.sector : c.after.sector[k] = sec(k) THEN {} ELSE {"marked_sectors"})
     \union (IF c.again = c.after THEN {} ELSE {"marking_not_stable"})
     \union (IF c.same THEN {} ELSE {"network_changed"})

Fails(c) ==
  CASE c.kind = "hops" -> HopFacts(c)
    [] c.kind = "mark" -> MarkFacts(c)
    [] c.kind = "crash" -> {"crash_" \o c.what}
=============================================================================
