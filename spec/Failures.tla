------------------------------ MODULE Failures ------------------------------
(* Which demands lose service when one link or one site fails, which links
   are chosen as adversarial, whether a second route exists, which links a
   routing policy uses.                                                      *)
EXTENDS Network

Backhaul(n, F) == {l \in Usable(n, F) : LinkKind(n, l) = "WIRELESS_BACKHAUL"}
Both(p) == {<<p[1], p[2]>>, <<p[2], p[1]>>}
Hops(n, F) == {Both(Pair(n, l)) : l \in Backhaul(n, F)}
LostWithout(n, E, cut) == Served(n, E) \ Served(n, E \ cut)

EdgeFacts(c) ==
  LET n == c.net  E == Edges(n, Active)
      rep == {<<c.edges[i].u, c.edges[i].v>> : i \in 1..Len(c.edges)}
      lost(i) == Rng(c.edges[i].lost)
  IN (IF {Both(p) : p \in rep} = Hops(n, Active) /\ Cardinality(rep) = Cardinality(Hops(n, Active))
      THEN {} ELSE {"edges_examined"})
     \union (IF \A i \in 1..Len(c.edges) : lost(i) = LostWithout(n, E, Both(<<c.edges[i].u, c.edges[i].v>>))
             THEN {} ELSE {"edge_losses"})

SiteFacts(c) ==
  LET n == c.net  E == Edges(n, Active)
      out(x) == {e \in E : e[1] = x}
      want(t) == {x \in {y \in Sites(n) : n.site[y].type = t} : LostWithout(n, E, out(x)) # {}}
      ok(rep, t) == /\ {rep[i].s : i \in 1..Len(rep)} = want(t)
                    /\ \A i \in 1..Len(rep) : Rng(rep[i].lost) = LostWithout(n, E, out(rep[i].s))
  IN (IF ok(c.pops, "POP") THEN {} ELSE {"pop_losses"})
     \union (IF ok(c.dns, "DN") THEN {} ELSE {"dn_losses"})

ServedFacts(c) ==
  LET n == c.net IN
  (IF Rng(c.served) = Served(n, Edges(n, Active)) THEN {} ELSE {"served_demands"})
  \union (IF Rng(c.servable) = Served(n, Edges(n, Reachable)) THEN {} ELSE {"servable_demands"})

----------------------------------------------------------------------------
\* Adversarial links.  Co-located sites that can no longer be selected are not
\* candidates: a selected CN may still be upgraded, a DN or POP may not change.
Rank(t) == IF t = "POP" THEN 3 ELSE IF t = "DN" THEN 2 ELSE 1
Colocated(n, x) == {y \in Sites(n) : n.site[y].pos = n.site[x].pos}
Frozen(n, x) ==
  LET act == {y \in Colocated(n, x) : n.site[y].status \in Active}
      top == CHOOSE r \in {Rank(n.site[y].type) : y \in act} :
               \A y \in act : Rank(n.site[y].type) <= r
  IN IF act = {} THEN FALSE
     ELSE LET r == Rank(n.site[x].type)
          IN \/ (top > 1 /\ r # top)
             \/ (r = top /\ n.site[x].status \notin Active)
CandEdges(n) ==
  LET zero == {Pair(n, l) : l \in {k \in Links(n) : n.link[k].cap = 0}}
      gone == {x \in Sites(n) : Frozen(n, x)}
  IN {e \in Edges(n, Reachable) : e \notin zero /\ e[1] \notin gone /\ e[2] \notin gone}

\* res: the chosen directed pairs; prop, cand: proposed and candidate edges
Chosen(n, propE, hops, candE, count, res) ==
  LET R == res
      dis(h) == Cardinality(LostWithout(n, propE, h))
      hop(p) == Both(p)
      H == {hop(p) : p \in R}
      breaks(cut) == Served(n, candE) \ Served(n, candE \ cut) # {}
      eligible == {h \in hops : dis(h) > 0 /\ h \intersect candE # {}}
      out == eligible \ H
      before(h) == UNION {g \in H : dis(g) >= dis(h)}
      full == Cardinality(R) >= count
  IN IF count <= 0 THEN (IF R = {} THEN {} ELSE {"chosen_without_quota"})
     ELSE (IF R \subseteq UNION hops THEN {} ELSE {"chosen_not_backhaul_of_plan"})
       \union (IF \A h \in H : h \in hops /\ dis(h) > 0 THEN {} ELSE {"chosen_disrupts_nothing"})
       \union (IF \A p \in R : \A q \in Both(p) : q \in candE => q \in R THEN {} ELSE {"reverse_not_chosen"})
       \union (IF ~breaks(UNION H) THEN {} ELSE {"chosen_cut_off_demand"})
       \union (IF Cardinality(R) <= count + 1 THEN {} ELSE {"too_many_chosen"})
       \union (IF \A h \in out : (~full \/ \E g \in H : dis(g) < dis(h)) => breaks(before(h) \union h)
               THEN {} ELSE {"not_worst_first"})

AdversarialFacts(c) ==
  LET n == c.net
      act == {l \in Links(n) : n.link[l].status \in Active /\ LinkKind(n, l) = "WIRELESS_BACKHAUL"}
      num == Cardinality(act) * c.ratio_pct
      count == num \div 100 + (IF num % 100 = 0 THEN 0 ELSE 1)
  IN Chosen(n, Edges(n, Active), Hops(n, Active), CandEdges(n), count, {<<p[1], p[2]>> : p \in Rng(c.res)})

SelectionFacts(c) ==
  LET n == c.net
  IN Chosen(n, Edges(n, Active), Hops(n, Active), Edges(n, Reachable), c.count, {<<p[1], p[2]>> : p \in Rng(c.res)})

----------------------------------------------------------------------------
\* Second routes.
RECURSIVE HopsOfChain(_, _)
HopsOfChain(n, ch) ==   \* backhaul hops of a chain SRC, pop, ..., d
  {<<ch[i], ch[i + 1]>> : i \in {k \in 2..(Len(ch) - 2) : n.site[ch[k + 1]].type # "CN"}}
RouteFacts(c) ==
  LET n == c.net  E == Edges(n, Active)
      h == HopMap(E, {Src})
      conn == Served(n, E)
      direct == {d \in conn : h[d] = 2}
      chains(d) == ChainsTo(E, h, d)
      again(d, ch) == d \in Fed(E \ HopsOfChain(n, ch))
      rep == Rng(c.double)
  IN (IF Rng(c.cut) = Demands(n) \ conn THEN {} ELSE {"disconnected_class"})
     \union (IF Rng(c.direct) = direct THEN {} ELSE {"pop_attached_class"})
     \union (IF rep \subseteq conn \ direct THEN {} ELSE {"double_class_overlap"})
     \union (IF \A d \in conn \ direct :
                  IF d \in rep THEN \E ch \in chains(d) : again(d, ch)
                  ELSE \E ch \in chains(d) : ~again(d, ch)
             THEN {} ELSE {"second_route"})
     \union (IF c.unchanged THEN {} ELSE {"graph_changed"})

----------------------------------------------------------------------------
\* Routing.
Inf == 1000000
Sat(x) == IF x > Inf THEN Inf ELSE x
McsCost(m) == IF m > 12 THEN 1 ELSE IF m >= 9 THEN 1 ELSE IF m >= 4 THEN 3 ELSE IF m >= 2 THEN 15 ELSE Inf
Weights(n, F, hopcount) ==
  [e \in Edges(n, F) |->
     IF hopcount THEN 1
     ELSE IF e[1] = Src \/ e[2] \in Demands(n) THEN 1
     ELSE McsCost(n.link[CHOOSE l \in Usable(n, F) : Pair(n, l) = e].mcs)]
Nodes(E) == {e[1] : e \in E} \union {e[2] : e \in E}
RECURSIVE Relax(_, _, _, _)
Relax(E, W, d, k) ==
  IF k = 0 THEN d
  ELSE LET nd == [x \in DOMAIN d |->
             LET via == {Sat(d[e[1]] + W[e]) : e \in {y \in E : y[2] = x}}
             IN CHOOSE m \in via \union {d[x]} : \A z \in via \union {d[x]} : m <= z]
       IN IF nd = d THEN d ELSE Relax(E, W, nd, k - 1)
Far == 2 * Inf
CostFrom(E, W, s, N) ==
  Relax(E, W, [x \in N |-> IF x = s THEN 0 ELSE Far], Cardinality(N))
\* Sat keeps "reachable only at infinite cost" (Inf) apart from unreachable:
\* a node is unreachable when it is not fed at all.

RoutedBy(n, E, W, used, d) ==
  LET D == CostFrom(E, W, Src, Nodes(E) \union {Src})
      U == {e \in E : e[1] = Src \/ e[2] = d \/ e \in used}
      DU == CostFrom(U, W, Src, Nodes(E) \union {Src})
  IN d \in Fed(U) /\ DU[d] = D[d]

UsedOnRoute(n, E, W, used, conn) ==
  \A u \in used : \E d \in conn :
    LET D == CostFrom(E, W, Src, Nodes(E) \union {Src})
        T == CostFrom({<<e[2], e[1]>> : e \in E}, [e \in {<<x[2], x[1]>> : x \in E} |-> W[<<e[2], e[1]>>]],
                      d, Nodes(E) \union {Src})
    IN /\ u[1] \in Fed(E) /\ d \in ReachFrom(E, {u[2]})
       /\ Sat(Sat(D[u[1]] + W[u]) + T[u[2]]) = D[d]

PlainRouting(n, used, hopcount) ==
  LET E == {e \in Edges(n, Active) : TRUE}  W == Weights(n, Active, hopcount)
      conn == Served(n, E)
  IN (IF used \subseteq LinkEdges(n, Active) THEN {} ELSE {"routed_over_unusable"})
     \union (IF \A d \in conn : RoutedBy(n, E, W, used, d) THEN {} ELSE {"demand_not_routed_cheapest"})
     \union (IF used \subseteq LinkEdges(n, Active) /\ ~UsedOnRoute(n, E, W, used, conn) THEN {"link_on_no_route"} ELSE {})

\* Zones: every node belongs to its nearest POP in hops (decided only when the
\* nearest POP is unique for every node).
ZoneRouting(n, used) ==
  LET E == Edges(n, Active)  W == Weights(n, Active, FALSE)
      P == Pops(n, Active)
      h == HopMap(E, {Src})
      fed == Fed(E) \ {Src}
      near(x) == {p \in P : LET hp == HopMap(E, {p}) IN x \in DOMAIN hp /\ hp[x] = h[x] - 1}
      unique == \A x \in fed : Cardinality(near(x)) = 1
      zone(p) == {x \in fed : near(x) = {p}}
      conn == Served(n, E)
      zE(p) == {e \in E : e[1] \in zone(p) \union {Src} /\ e[2] \in zone(p)}
      restrict(p) == [e \in zE(p) |-> W[e]]
  IN IF ~unique THEN {}
     ELSE (IF \A d \in conn : \E p \in P : near(d) = {p} /\ RoutedBy(n, zE(p), restrict(p), used, d)
           THEN {} ELSE {"demand_not_routed_in_zone"})
       \union (IF \A u \in used : \E p \in P : u \in zE(p)
                    /\ UsedOnRoute(n, zE(p), restrict(p), {u}, conn \intersect zone(p))
               THEN {} ELSE {"zone_link_on_no_route"})

RoutingFacts(c) ==
  LET used == {<<p[1], p[2]>> : p \in Rng(c.used)}
  IN CASE c.policy = "SHORTEST_PATH" -> PlainRouting(c.net, used, TRUE)
       [] c.policy = "MCS_COST_PATH" -> PlainRouting(c.net, used, FALSE)
       [] c.policy = "DPA_PATH" -> ZoneRouting(c.net, used)

Fails(c) ==
  CASE c.kind = "crash" -> {"crash_" \o c.what}
    [] c.kind = "edge" -> EdgeFacts(c)
    [] c.kind = "site" -> SiteFacts(c)
    [] c.kind = "served" -> ServedFacts(c)
    [] c.kind = "adversarial" -> AdversarialFacts(c)
    [] c.kind = "selection" -> SelectionFacts(c)
    [] c.kind = "routes" -> RouteFacts(c)
    [] c.kind = "routing" -> RoutingFacts(c)
=============================================================================
