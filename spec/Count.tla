------------------------------- MODULE Count -------------------------------
(* Numbers of components, capital cost and POP capacity of a network.

   c.site[s] = [type, status, loc, sku, cost]   (loc: co-location label,
   cost: node cost of its device); c.sec[k] = [site, node, status, channel];
   c.link[l] = [tx, rx, wireless, status, ts, rs, cap]; c.demand[d] = sites  *)
EXTENDS F, Integers, Sequences, FiniteSets, TLC

On == {"PROPOSED", "EXISTING"}
Reachable == On \union {"CANDIDATE"}
All == {"PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"}
Real(f) == DOMAIN f \ {"none"}
Sites(c, S, T) == {s \in Real(c.site) : c.site[s].status \in S /\ c.site[s].type \in T}
SType(c, k) == IF c.site[c.sec[k].site].type = "CN" THEN "CN" ELSE "DN"
Secs(c, S, T) == {k \in Real(c.sec) : c.sec[k].status \in S /\ SType(c, k) \in T}
Nodes(c, S, T) == {<<c.sec[k].site, c.sec[k].node>> : k \in Secs(c, S, T)}
LType(c, l) ==
  LET v == c.link[l]
  IN IF ~v.wireless THEN "wired"
     ELSE IF "CN" \in {c.site[v.tx].type, c.site[v.rx].type} THEN "access" ELSE "backhaul"
Place(c, s) == <<c.site[s].loc, c.site[s].type>>
\* both directions, and links between the same two places and types, are one
Pairs(c, S, T) == {{Place(c, c.link[l].tx), Place(c, c.link[l].rx)} : l \in {m \in Real(c.link) : c.link[m].status \in S /\ LType(c, m) \in T}}
\* at one place at most one site of each type counts
Places(c, s0, T) == {<<c.site[s].loc, c.site[s].type>> : s \in {x \in s0 : c.site[x].type \in T}}

RECURSIVE Grow(_, _)
Grow(c, X) ==
  LET Y == X \union {c.link[l].rx : l \in {m \in Real(c.link) : c.link[m].status \in Reachable
                        /\ c.link[m].tx \in X /\ c.site[c.link[m].rx].status \in Reachable}}
  IN IF X = Y THEN X ELSE Grow(c, Y)
Connected(c) == Grow(c, Sites(c, Reachable, {"POP"}))
DemandOn(c, T) == {s \in Sites(c, On, T) : \E d \in Real(c.demand) : \E i \in DOMAIN c.demand[d] : c.demand[d][i] = s}
Backup(c, drop) ==
  {s \in Sites(c, On, {"CN"}) :
     Cardinality({l \in Real(c.link) : c.link[l].rx = s /\ c.link[l].ts # "none" /\ c.sec[c.link[l].ts].status \in On
                    /\ c.link[l].status \notin drop}) > 1}

Num(S) == Cardinality(S)
\* name of the reported number -> value
Expected(c) ==
  LET A == Real(c.site)  con == Connected(c)
  IN [active_sites |-> Num(Sites(c, On, {"POP", "DN", "CN"})),
      active_pop_sites |-> Num(Sites(c, On, {"POP"})), active_dn_sites |-> Num(Sites(c, On, {"DN"})), active_cn_sites |-> Num(Sites(c, On, {"CN"})),
      total_sites |-> Num(Places(c, A, {"POP", "DN", "CN"})),
      total_pop_sites |-> Num(Places(c, A, {"POP"})), total_dn_sites |-> Num(Places(c, A, {"DN"})), total_cn_sites |-> Num(Places(c, A, {"CN"})),
      connectable_dn_sites |-> Num(Places(c, con, {"DN"})), connectable_cn_sites |-> Num(Places(c, con, {"CN"})),
      active_demand_connected_pop_sites |-> Num(DemandOn(c, {"POP"})),
      active_demand_connected_dn_sites |-> Num(DemandOn(c, {"DN"})),
      active_demand_connected_cn_sites |-> Num(DemandOn(c, {"CN"})),
      active_nodes |-> Num(Nodes(c, On, {"DN", "CN"})), active_dn_nodes |-> Num(Nodes(c, On, {"DN"})), active_cn_nodes |-> Num(Nodes(c, On, {"CN"})),
      total_nodes |-> Num(Nodes(c, All, {"DN", "CN"})), total_dn_nodes |-> Num(Nodes(c, All, {"DN"})), total_cn_nodes |-> Num(Nodes(c, All, {"CN"})),
      active_sectors |-> Num(Secs(c, On, {"DN", "CN"})), total_sectors |-> Num(Secs(c, All, {"DN", "CN"})),
      active_dn_sectors_on_pops |-> Num({k \in Secs(c, On, {"DN"}) : c.site[c.sec[k].site].type = "POP"}),
      active_dn_sectors_on_dns |-> Num({k \in Secs(c, On, {"DN"}) : c.site[c.sec[k].site].type = "DN"}),
      active_cn_sectors |-> Num(Secs(c, On, {"CN"})),
      active_backhaul_links |-> Num(Pairs(c, On, {"backhaul"})), total_backhaul_links |-> Num(Pairs(c, All, {"backhaul"})),
      active_access_links |-> Num(Pairs(c, On, {"access"})), total_access_links |-> Num(Pairs(c, All, {"access"})),
      active_wired_links |-> Num(Pairs(c, On, {"wired"})), total_wired_links |-> Num(Pairs(c, All, {"wired"}))]

Chan(c, l) == IF c.link[l].ts = "none" THEN -1 ELSE c.sec[c.link[l].ts].channel
CountFails(c) ==
  LET want == Expected(c)
      chans == {Chan(c, l) : l \in {m \in Real(c.link) : c.link[m].status \in On /\ c.link[m].wireless}}
      on(ch) == {{c.link[l].tx, c.link[l].rx} : l \in {m \in Real(c.link) : c.link[m].status \in On /\ c.link[m].wireless /\ Chan(c, m) = ch}}
      skus == {c.site[s].sku : s \in Sites(c, On, {"POP", "DN", "CN"})}
  IN {k \in DOMAIN want : c.got[k] # want[k]}
     \union (IF Num(Backup(c, {"UNAVAILABLE", "UNREACHABLE"})) <= c.got.active_cns_with_backup_dns /\ c.got.active_cns_with_backup_dns <= Num(Backup(c, {}))
             THEN {} ELSE {"active_cns_with_backup_dns"})
     \union (IF \A x \in skus : c.skus[x] = Num({s \in Sites(c, On, {"POP", "DN", "CN"}) : c.site[s].sku = x})
                /\ Real(c.skus) = skus THEN {} ELSE {"sku_count"})
     \union (IF Real(c.chans) = {ToString(x) : x \in chans} /\ \A x \in chans : c.chans[ToString(x)] = Num(on(x)) THEN {} ELSE {"channel_count"})

RECURSIVE SumOf(_, _)
SumOf(f, D) == IF D = {} THEN "0.0" ELSE LET x == CHOOSE y \in D : TRUE IN FAdd(f[x], SumOf(f, D \ {x}))
Cost(c, S) ==
  LET places == Sites(c, S, {"POP", "DN", "CN"})
      site == [s \in places |-> IF c.site[s].type = "POP" THEN c.price.pop ELSE IF c.site[s].type = "DN" THEN c.price.dn ELSE c.price.cn]
      nodes == Nodes(c, S, {"DN", "CN"})
      hw == [n \in nodes |-> c.site[n[1]].cost]
  IN FAdd(SumOf(site, places), SumOf(hw, nodes))
CostFails(c) ==
  (IF FNear(c.proposed, Cost(c, {"PROPOSED"}), "1e-9") THEN {} ELSE {"proposed_capex"})
  \union (IF FNear(c.total, Cost(c, On), "1e-9") THEN {} ELSE {"total_capex"})

\* a POP feeds every sector with its fastest link and every wire with its own
Feed(c, p, S) ==
  LET use == {l \in Real(c.link) : c.link[l].tx = p /\ c.link[l].status \in S
                 /\ c.site[p].status \in S /\ c.site[c.link[l].rx].status \in S}
      wired == {l \in use : ~c.link[l].wireless}
      secs == {c.link[l].ts : l \in use} \ {"none"}
      top(k) == LET m == {l \in use : c.link[l].ts = k}
                    b == CHOOSE l \in m : \A j \in m : FLe(c.link[j].cap, c.link[l].cap)
                IN c.link[b].cap
      w == [l \in wired |-> c.link[l].cap]
      r == [k \in secs |-> top(k)]
  IN FAdd(SumOf(w, wired), SumOf(r, secs))
PopCapacity(c, S) ==
  LET P == Sites(c, All, {"POP"})
  IN SumOf([p \in P |-> FMin2(Feed(c, p, S), c.limit)], P)

Fails(c) ==
  CASE c.kind = "count" -> CountFails(c)
    [] c.kind = "cost"  -> CostFails(c)
    [] c.kind = "feed"  -> IF FNear(c.got, PopCapacity(c, {c.filter[i] : i \in DOMAIN c.filter}), "1e-9") THEN {} ELSE {"pop_capacity"}
    [] c.kind = "crash" -> {"crash_" \o c.what}
=============================================================================
