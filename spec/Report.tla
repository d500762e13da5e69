------------------------------- MODULE Report -------------------------------
(* What the report of a finished network says: per link, per site, per sector
   and in total.  The files are read back and judged against the network as
   the analysis left it.

   c joins the records of Network (site, link, demand), Count (loc, sku, cost),
   Capacity (dem, cfg) and Rules (sec.type); link[l] also has flow, util, out
   (outages), spare, hash, cells[column], len; c.was holds what the analysis
   must not change and, after route selection, which links were spare.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, F, LP
Net == INSTANCE Network
Fl == INSTANCE Failures
Mk == INSTANCE Marking
Ct == INSTANCE Count
Ru == INSTANCE Rules
Cp == INSTANCE Capacity
Ge == INSTANCE Geometry

On == {"PROPOSED", "EXISTING"}
RECURSIVE SumI(_, _)
SumI(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumI(f, n - 1)
Num(S) == Cardinality(S)
Live(c) == {l \in DOMAIN c.link : c.link[l].status \in On}
LiveSec(c) == {k \in DOMAIN c.sec : c.sec[k].status \in On}
Kind(c, l) == Net!LinkKind(c, l)
Rev(c, l) == {m \in DOMAIN c.link : c.link[m].tx = c.link[l].rx /\ c.link[m].rx = c.link[l].tx}
Place(c, s) == <<c.site[s].hash, c.site[s].type>>
Hash(c, l) == {Place(c, c.link[l].tx), Place(c, c.link[l].rx)}
Hashes(c, L) == {Hash(c, l) : l \in L}
Of(c, ty) == {l \in Live(c) : Kind(c, l) = ty}
Half(a, b) == FLe(FAbs(FSub(a, b)), "0.00501")      \* two decimals
Tenth(a, b) == FLe(FAbs(FSub(a, b)), "0.0501")
Same(a, b) == FNear(a, b, "0.00001")
Flag(b) == IF b THEN "True" ELSE "False"
SumS(f, S) == Cp!SumF(f, S)
Mean(vals) == FDiv(FSumSeq(vals), FInt(Len(vals)))
RECURSIVE Listed(_, _)
Listed(f, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<f[x]>> \o Listed(f, S \ {x})
Stat(got, vals) ==
  IF vals = <<>> THEN Same(got.avg, "0") /\ Same(got.max, "0") /\ Same(got.min, "0")
  ELSE Same(got.avg, Mean(vals)) /\ Same(got.max, FMaxSeq(vals)) /\ Same(got.min, FMinSeq(vals))

(* ---- single failures --------------------------------------------------- *)
E0(c) == Net!Edges(c, On)
LostHop(c, l) == IF Net!Pair(c, l) \in UNION Fl!Hops(c, On) THEN Num(Fl!LostWithout(c, E0(c), Fl!Both(Net!Pair(c, l)))) ELSE 0
LostSite(c, s) == IF c.site[s].type = "CN" THEN 0 ELSE Num(Fl!LostWithout(c, E0(c), {e \in E0(c) : e[1] = s}))

(* ---- flow --------------------------------------------------------------- *)
Pct(c, l) == IF l \in Live(c) /\ FLt("0", c.link[l].cap) THEN FMul("100", FDiv(c.link[l].flow, c.link[l].cap)) ELSE "0"
Quiet(x) == FLe(FAbs(x), "0.00001")
\* one value per physical link unless both directions carry something
Loads(c) ==
  LET P == {{c.link[l].tx, c.link[l].rx} : l \in Live(c)}
      vals(p) == {Pct(c, l) : l \in {l \in Live(c) : {c.link[l].tx, c.link[l].rx} = p}}
      hi(p) == CHOOSE x \in vals(p) : \A y \in vals(p) : FLe(y, x)
      lo(p) == CHOOSE x \in vals(p) : \A y \in vals(p) : FLe(x, y)
      two == {p \in P : ~Quiet(lo(p)) /\ \E l \in Live(c), m \in Live(c) : l # m /\ {c.link[l].tx, c.link[l].rx} = p /\ {c.link[m].tx, c.link[m].rx} = p}
  IN Listed([p \in P |-> hi(p)], P) \o Listed([p \in two |-> lo(p)], two)
ConnectedCopies(c) ==
  LET S == {s \in DOMAIN c.site : c.site[s].status \in On}
      U0 == {l \in DOMAIN c.link : Cp!Real(c, l) /\ c.link[l].status \in On /\ ~c.link[l].spare /\ c.link[l].tx \in S /\ c.link[l].rx \in S}
  IN Cp!Fed(c, S, U0)
Most(c) ==
  LET b == [c EXCEPT !.cfg.blind = TRUE]
      S == {s \in DOMAIN c.site : c.site[s].status \in On}
      live(k) == k \in DOMAIN c.sec /\ c.sec[k].status \in On
      U0 == {l \in DOMAIN c.link : Cp!Real(c, l) /\ c.link[l].status \in On /\ ~c.link[l].spare /\ c.link[l].tx \in S /\ c.link[l].rx \in S}
      U == {l \in U0 : c.link[l].wired \/ (live(c.link[l].ts) /\ live(c.link[l].rs))}
      D == ConnectedCopies(c)
  IN LpMax({<<"1", "b">>}, Cp!Rows(b, S, U, D) \cup Cp!Bare(b, S, D))
FlowFails(c) ==
  LET D == ConnectedCopies(c)
      S == {s \in DOMAIN c.site : c.site[s].status \in On}
      fl == [l \in DOMAIN c.link |-> c.link[l].flow]
      bal(s) == FSub(SumS(fl, {l \in Live(c) : c.link[l].rx = s}), SumS(fl, {l \in Live(c) : c.link[l].tx = s}))
      at(s) == {d \in D : s \in Net!Rng(c.dem[d].sites)}
  IN IF D = {} THEN (IF c.flow = <<>> THEN {} ELSE {"flow-for-nobody"})
     ELSE IF c.flow = <<>> THEN {"flow-missing"}
     ELSE LET m == c.flow[1] IN
       (IF FNear(m.least, Most(c), "0.0001") THEN {} ELSE {"minimum-bandwidth"})
       \cup (IF FNear(m.total, FMul(m.least, FInt(Num(D))), "0.00001") THEN {} ELSE {"total-bandwidth"})
       \cup (IF Stat(m.util, Loads(c)) THEN {} ELSE {"utilization-total"})
       \cup {"link-utilization" : l \in {l \in Live(c) : ~(Same(c.link[l].util, Pct(c, l)) \/ (Quiet(Pct(c, l)) /\ Quiet(c.link[l].util)))}}
       \cup {"flow-over-capacity" : l \in {l \in Live(c) : ~FLeT(c.link[l].flow, c.link[l].cap, "0.0001")}}
       \cup {"flow-on-idle" : l \in {l \in DOMAIN c.link : (l \notin Live(c) \/ c.link[l].spare) /\ ~Quiet(c.link[l].flow)}}
       \cup {"flow-balance" : s \in {s \in S : c.site[s].type # "POP" /\ (FLt(bal(s), "-0.0001") \/ ~FLeT(bal(s), FMul(m.least, FInt(Num(at(s)))), "0.0001"))}}

(* ---- totals -------------------------------------------------------------- *)
DemandFails(c) ==
  LET g == c.demands
      con == Net!Served(c, E0(c))
      h == Net!HopMap(E0(c), {Net!Src})
      direct == {d \in con : h[d] = 2}
      far == con \ direct
      again(d, ch) == d \in Net!Fed(E0(c) \ Fl!HopsOfChain(c, ch))
      chains(d) == Net!ChainsTo(E0(c), h, d)
      must == {d \in far : \A ch \in chains(d) : again(d, ch)}
      may == {d \in far : \E ch \in chains(d) : again(d, ch)}
      n == Num(DOMAIN c.demand)
      tot == SumS([d \in DOMAIN c.demand |-> FMul(c.want[d].amount, FInt(c.want[d].copies))], DOMAIN c.demand)
  IN (IF g.number = n THEN {} ELSE {"demand-number"})
     \cup (IF g.cut = n - Num(con) THEN {} ELSE {"demand-disconnected"})
     \cup (IF g.direct = Num(direct) THEN {} ELSE {"demand-at-pop"})
     \cup (IF Num(must) <= g.double /\ g.double <= Num(may) THEN {} ELSE {"demand-disjoint"})
     \cup (IF IF n = g.direct THEN Same(g.percent, "0") ELSE Same(g.percent, FMul("100", FDiv(FInt(g.double), FInt(n - g.direct))))
           THEN {} ELSE {"demand-percentage"})
     \cup (IF Same(g.total, tot) THEN {} ELSE {"demand-total"})
     \cup (IF Same(g.over, FDiv(tot, c.cfg.over)) THEN {} ELSE {"demand-oversubscribed"})

DnSecs(c) == {k \in LiveSec(c) : c.sec[k].type = "DN"}
PerSector(c, ty, k) ==
  Num(Hashes(c, {l \in Of(c, ty) : c.link[l].ts = k \/ (ty = "WIRELESS_BACKHAUL" /\ c.link[l].rs = k)}))
LinkTotals(c, g, ty) ==
  (IF g.count = Num({{Ct!Place(c, c.link[l].tx), Ct!Place(c, c.link[l].rx)} : l \in Of(c, ty)}) THEN {} ELSE {"links-counted"})
  \cup (IF Stat(g.per, Listed([k \in DnSecs(c) |-> FInt(PerSector(c, ty, k))], DnSecs(c))) THEN {} ELSE {"links-per-sector"})
  \cup (IF Stat(g.len, Listed([l \in Of(c, ty) |-> Ge!Distance(c.site[c.link[l].tx], c.site[c.link[l].rx])], Of(c, ty))) THEN {} ELSE {"link-lengths"})

McsFails(c, got, ty) ==
  LET pairs == {{c.link[l].tx, c.link[l].rx} : l \in Of(c, ty)}
      lv(p) == {c.link[l].mcs : l \in {l \in Of(c, ty) : {c.link[l].tx, c.link[l].rx} = p}}
      n(m) == SumI([i \in 1..Len(got) |-> IF got[i].mcs = m THEN got[i].n ELSE 0], Len(got))
      all == {got[i].mcs : i \in 1..Len(got)} \cup UNION {lv(p) : p \in pairs}
  IN IF /\ SumI([i \in 1..Len(got) |-> got[i].n], Len(got)) = Num(pairs)
        /\ \A m \in all : Num({p \in pairs : lv(p) = {m}}) <= n(m) /\ n(m) <= Num({p \in pairs : m \in lv(p)})
     THEN {} ELSE {"mcs-histogram"}

FailureTotals(c) ==
  LET g == c.failures
      hops == Fl!Hops(c, On)
      nh == Num(hops)
      edge == Listed([h \in hops |-> FInt(Num(Fl!LostWithout(c, E0(c), h)))], hops)
      of(ty) == {s \in DOMAIN c.site : c.site[s].type = ty /\ c.site[s].status \in On}
      site(ty) == Listed([s \in of(ty) |-> FInt(LostSite(c, s))], of(ty))
  IN (IF Stat(g.edge, edge) THEN {} ELSE {"edge-failures"})
     \cup (IF Stat(g.pop, site("POP")) THEN {} ELSE {"pop-failures"})
     \cup (IF Stat(g.dn, site("DN")) THEN {} ELSE {"dn-failures"})

\* linear interpolation between the sorted values
Percentile(v, p) ==     \* v sorted, p in 0..100
  LET n == Len(v) - 1
      lo == (n * p) \div 100  r == (n * p) % 100
  IN IF r = 0 THEN v[lo + 1] ELSE FAdd(v[lo + 1], FMul(FDiv(FInt(r), "100"), FSub(v[lo + 2], v[lo + 1])))
\* links that never (c.up = "0.0") or always live settle the availability of
\* every demand; otherwise it is a share of the time, and whatever hangs on no
\* backhaul link is always served
AvailabilityTotals(c) ==
  LET g == c.availability
      pt(p) == g.points[CHOOSE i \in 1..Len(g.points) : g.points[i].p = p].v
      con == Net!Served(c, E0(c))
      calm == Net!Served(c, E0(c) \ UNION Fl!Hops(c, On))
      good == IF c.up = "100.0" THEN con ELSE calm
      v == [i \in 1..Num(con) |-> IF i <= Num(con) - Num(good) THEN "0" ELSE "1"]
      Near7(x, y) == FNear(x, y, "0.0000001")
  IN IF {g.points[i].p : i \in 1..Len(g.points)} # {0, 25, 50, 75, 100} THEN {"availability-points"}
     ELSE IF ~c.sim \/ con = {}
     THEN (IF Same(g.avg, "0") /\ \A i \in 1..Len(g.points) : Same(g.points[i].v, "0") THEN {} ELSE {"availability"})
     ELSE IF c.up \in {"0.0", "100.0"}
     THEN (IF Near7(g.avg, FMul("100", Mean(v))) THEN {} ELSE {"availability"})
          \cup (IF \A i \in 1..Len(g.points) : Near7(g.points[i].v, FMul("100", Percentile(v, g.points[i].p))) THEN {} ELSE {"availability-percentile"})
     ELSE (IF FLeT("0", pt(0), "1e-9") /\ FLeT(pt(0), pt(25), "1e-9") /\ FLeT(pt(25), pt(50), "1e-9") /\ FLeT(pt(50), pt(75), "1e-9") /\ FLeT(pt(75), pt(100), "1e-9")
                /\ FLeT(pt(100), "100", "1e-9") /\ FLeT(pt(0), g.avg, "1e-9") /\ FLeT(g.avg, pt(100), "1e-9") THEN {} ELSE {"availability-order"})
          \cup (IF calm = {} \/ Near7(pt(100), "100") THEN {} ELSE {"availability-calm"})
          \cup (IF calm # con \/ Near7(pt(0), "100") THEN {} ELSE {"availability-calm"})

RuleTotals(c) ==
  (IF c.rules.diff = Len(c.diff) THEN {} ELSE {"angle-violations"})
  \cup (IF c.rules.near = Len(c.near) THEN {} ELSE {"near-far-violations"})
  \cup (IF c.rules.over = Num({k \in DOMAIN c.sec : Ru!Overloaded(c, k)}) THEN {} ELSE {"sector-limit-violations"})

(* ---- rows ---------------------------------------------------------------- *)
Named(c, trip) == {l \in DOMAIN c.link : \E k \in DOMAIN trip : \E e \in {trip[k][2], trip[k][3]} : {c.link[l].tx, c.link[l].rx} = {trip[k][1], e}}
LinkRow(c, l, r) ==
  LET v == c.link[l]
      over(k) == k # "none" /\ Ru!Overloaded(c, k)
  IN (IF r.kind = Kind(c, l) /\ r.status = v.status THEN {} ELSE {"row-link-kind"})
     \cup (IF Half(r.len, Ge!Distance(c.site[v.tx], c.site[v.rx])) THEN {} ELSE {"row-link-length"})
     \cup (IF Half(r.flow, v.flow) /\ Half(r.cap, v.cap) /\ Half(r.util, v.util) THEN {} ELSE {"row-link-flow"})
     \cup (IF \A k \in DOMAIN r.radio : k = "mcs" \/ r.radio[k] = v.radio[k] \/ (r.radio[k] # "N/A" /\ v.radio[k] # "N/A" /\ Half(r.radio[k], v.radio[k])) THEN {} ELSE {"row-link-radio"})
     \cup (IF r.mcs = v.mcs THEN {} ELSE {"row-link-mcs"})
     \cup (IF r.sectors = (IF v.wired THEN "WIRED CONNECTION" ELSE IF v.ts = "none" THEN "UNKNOWN" ELSE c.sec[v.ts].id \o " --> " \o c.sec[v.rs].id) THEN {} ELSE {"row-link-sectors"})
     \cup (IF r.channel = (IF l \in Live(c) /\ v.ts # "none" /\ c.sec[v.ts].channel > -1 THEN ToString(c.sec[v.ts].channel) ELSE "UNASSIGNED") THEN {} ELSE {"row-link-channel"})
     \cup (IF r.outages \in {0, IF l \in Live(c) THEN LostHop(c, l) ELSE 0} THEN {} ELSE {"row-link-outages"})
     \cup (IF r.diff = Flag(l \in Named(c, c.diff)) THEN {} ELSE {"row-link-angle-rule"})
     \cup (IF r.near = Flag(l \in Named(c, c.near)) THEN {} ELSE {"row-link-near-far-rule"})
     \cup (IF r.over = Flag(over(v.ts)) THEN {} ELSE {"row-link-sector-limit"})
LinkRows(c) ==
  LET R == c.lrow  rows(l) == {i \in 1..Len(R) : R[i].tx = c.link[l].tx /\ R[i].rx = c.link[l].rx} IN
  IF Live(c) = {} THEN (IF R = <<>> THEN {} ELSE {"rows-of-idle-links"})
  ELSE (IF Len(R) = Num(DOMAIN c.link) /\ \A l \in DOMAIN c.link : Num(rows(l)) = 1 THEN {} ELSE {"link-rows"})
       \cup UNION {UNION {LinkRow(c, l, R[i]) : i \in rows(l)} : l \in DOMAIN c.link}
       \* the outages of a physical link are told in at least one of its rows
       \cup {"link-outages-untold" : l \in {l \in Live(c) : Rev(c, l) \cap Live(c) # {} /\ LostHop(c, l) > 0
                                       /\ \A m \in {l} \cup Rev(c, l) : \A i \in rows(m) : R[i].outages = 0}}

SiteRow(c, s, r) ==
  LET v == c.site[s]
      mine == {k \in LiveSec(c) : c.sec[k].site = s}
      hops == Mk!Hops(c, On)
      fl == [l \in DOMAIN c.link |-> c.link[l].flow]
  IN (IF r.type = v.type /\ r.status = v.status /\ r.sku = v.sku /\ r.hash = v.hash /\ r.polarity = v.polarity THEN {} ELSE {"row-site-kind"})
     \cup (IF FLe(FAbs(FSub(r.lat, v.lat)), "0.00002") /\ FLe(FAbs(FSub(r.lon, v.lon)), "0.00002") /\ FNear(r.alt, v.alt, "0.000001") THEN {} ELSE {"row-site-place"})
     \cup (IF r.outages = LostSite(c, s) THEN {} ELSE {"row-site-outages"})
     \cup (IF Same(r.capex, v.capex) THEN {} ELSE {"row-site-capex"})
     \cup (IF r.nodes = Num({c.sec[k].node : k \in mine}) /\ r.sectors = Num(mine) THEN {} ELSE {"row-site-hardware"})
     \cup (IF r.links = Num(Hashes(c, {l \in Live(c) : ~c.link[l].wired /\ s \in {c.link[l].tx, c.link[l].rx}})) THEN {} ELSE {"row-site-links"})
     \cup (IF r.hops = (IF Net!Pops(c, On) # {} /\ s \in DOMAIN hops THEN ToString(hops[s]) ELSE "disconnected") THEN {} ELSE {"row-site-hops"})
     \cup (IF Same(r.sent, SumS(fl, {l \in Live(c) : c.link[l].tx = s})) /\ Same(r.got, SumS(fl, {l \in Live(c) : c.link[l].rx = s})) THEN {} ELSE {"row-site-flow"})
     \cup (IF r.building = v.building /\ r.subscribers = v.subscribers THEN {} ELSE {"row-site-facts"})
SiteRows(c) ==
  LET R == c.srow  rows(s) == {i \in 1..Len(R) : R[i].name = s} IN
  IF {s \in DOMAIN c.site : c.site[s].status \in On} = {} THEN (IF R = <<>> THEN {} ELSE {"rows-of-idle-sites"})
  ELSE (IF Len(R) = Num(DOMAIN c.site) /\ \A s \in DOMAIN c.site : Num(rows(s)) = 1 THEN {} ELSE {"site-rows"})
       \cup UNION {UNION {SiteRow(c, s, R[i]) : i \in rows(s)} : s \in DOMAIN c.site}

SectorRow(c, k, r) ==
  LET v == c.sec[k]  L(ty) == {l \in Of(c, ty) : k \in {c.link[l].ts, c.link[l].rs}} IN
  (IF r.node = v.node /\ r.pos = v.pos /\ r.status = v.status /\ r.hash = c.site[v.site].hash /\ r.type = c.site[v.site].type /\ r.polarity = c.site[v.site].polarity
   THEN {} ELSE {"row-sector-kind"})
  \cup (IF Tenth(r.az, v.az) THEN {} ELSE {"row-sector-aim"})
  \cup (IF Same(r.cost, c.site[v.site].cost) THEN {} ELSE {"row-sector-cost"})
  \cup (IF r.channel = (IF v.channel > -1 THEN ToString(v.channel) ELSE "UNASSIGNED") THEN {} ELSE {"row-sector-channel"})
  \cup (IF r.backhaul = Num(Hashes(c, L("WIRELESS_BACKHAUL"))) /\ r.access = Num(Hashes(c, L("WIRELESS_ACCESS"))) THEN {} ELSE {"row-sector-links"})
  \cup (IF r.over = Flag(Ru!Overloaded(c, k)) THEN {} ELSE {"row-sector-limit"})
SectorRows(c) ==
  LET R == c.krow  rows(k) == {i \in 1..Len(R) : R[i].id = c.sec[k].id} IN
  (IF Len(R) = Num(LiveSec(c)) /\ \A k \in LiveSec(c) : Num(rows(k)) = 1 THEN {} ELSE {"sector-rows"})
  \cup UNION {UNION {SectorRow(c, k, R[i]) : i \in rows(k)} : k \in LiveSec(c)}

(* ---- the analysis itself -------------------------------------------------- *)
\* routes are chosen before power is controlled; everything else stays
SpareFails(c) ==
  LET used == {<<c.used[i][1], c.used[i][2]>> : i \in 1..Len(c.used)} IN
  {"spare-links" : l \in {l \in DOMAIN c.link :
      c.link[l].spare # (c.was.link[l].spare \/ (c.routed /\ Net!Pair(c, l) \notin used /\ <<c.link[l].rx, c.link[l].tx>> \notin used))}}
StillFails(c) == IF c.still THEN {} ELSE {"network-changed"}

Fails(c) == IF c.kind = "crash" THEN {"crash"} ELSE
  FlowFails(c) \cup DemandFails(c) \cup LinkTotals(c, c.backhaul, "WIRELESS_BACKHAUL") \cup LinkTotals(c, c.access, "WIRELESS_ACCESS")
  \cup McsFails(c, c.mcsb, "WIRELESS_BACKHAUL") \cup McsFails(c, c.mcsa, "WIRELESS_ACCESS")
  \cup FailureTotals(c) \cup AvailabilityTotals(c) \cup RuleTotals(c)
  \cup Ct!CountFails(c)
  \cup (IF FNear(c.capex.proposed, Ct!Cost(c, {"PROPOSED"}), "1e-9") /\ FNear(c.capex.total, Ct!Cost(c, On), "1e-9") THEN {} ELSE {"capex"})
  \cup LinkRows(c) \cup SiteRows(c) \cup SectorRows(c) \cup SpareFails(c) \cup StillFails(c)
=============================================================================
