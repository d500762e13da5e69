------------------------------ MODULE Delivered ------------------------------
(* A plan as delivered: from a candidate network in a file and a configuration
   file to the tables, the metrics and the map of the plan.

   c.site[n] = [type, status, sku, lat, lon, subs]      what was put in, by name
   c.pair[k] = [a, b, status]                           joined both ways (towards a CN only)
   c.cfg     = the settings;  c.end in {"planned", "refused", "crash"}
   c.out     = << [doubled, site, link, sec, m] >>      what was delivered
   c.kml     = << [site, link] >>                       the map of the plan, read again
   c.same    planning again while keeping debug files delivers the same       *)
EXTENDS Geometry, FiniteSets, TLC
N == INSTANCE Network

On == {"PROPOSED", "EXISTING"}
Stay == {"EXISTING", "UNAVAILABLE", "UNREACHABLE"}
Back == {"POP", "DN"}
Num(S) == Cardinality(S)
R(q) == {q[k] : k \in DOMAIN q}
SumF(S, f(_)) == LET RECURSIVE go(_)
                     go(X) == IF X = {} THEN "0.0" ELSE LET x == CHOOSE x \in X : TRUE IN FAdd(f(x), go(X \ {x}))
                 IN go(S)
SumI(S, f(_)) == LET RECURSIVE go(_)
                     go(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f(x) + go(X \ {x})
                 IN go(S)
Close(a, b, t) == FLe(FAbs(FSub(a, b)), t)

(* ---- what was put in ---------------------------------------------------- *)
In(c) == DOMAIN c.site
Joined(c) == {{p.a, p.b} : p \in R(c.pair)}
StatusOf(c, e) == {p.status : p \in {p \in R(c.pair) : {p.a, p.b} = e}}
Copy(n) == n \o "_POP"
Copies(c, o) == {m \in DOMAIN o.site \ In(c) : \E n \in In(c) : c.site[n].type = "DN" /\ m = Copy(n)}
Base(c, m) == IF m \in In(c) THEN m ELSE CHOOSE n \in In(c) : m = Copy(n)

(* ---- what came out ------------------------------------------------------ *)
Live(o) == {k \in DOMAIN o.link : o.link[k].status \in On}
Ends(o, k) == {o.link[k].tx, o.link[k].rx}
LiveSites(o) == {n \in DOMAIN o.site : o.site[n].status \in On}
Pops(o) == {n \in LiveSites(o) : o.site[n].type = "POP"}
HopsOver(o, L) ==
  IF Pops(o) = {} THEN << >>
  ELSE N!HopMap({<<o.link[k].tx, o.link[k].rx>> : k \in {k \in L : Ends(o, k) \subseteq LiveSites(o)}}, Pops(o))
Hops(o) == HopsOver(o, Live(o))
Access(o, k) == o.site[o.link[k].rx].type = "CN"

\* every site and every link is still there, unchanged but for its status
Blank(o) == o.link = << >> /\ o.m.active_backhaul_links = 0 /\ o.m.active_access_links = 0
KeptFails(c, o) ==
  LET extra == DOMAIN o.site \ In(c)
      pts == {<<o.link[k].tx, o.link[k].rx>> : k \in DOMAIN o.link}
      want == UNION {{<<p.a, p.b>>, <<p.b, p.a>>} : p \in R(c.pair)}
      ways == {e \in want : c.site[e[1]].type # "CN"}
  IN (IF o.doubled = << >> /\ In(c) \subseteq DOMAIN o.site THEN {} ELSE {"sites-lost"})
     \cup (IF extra = Copies(c, o) /\ Num(extra) <= c.cfg.extra THEN {} ELSE {"sites-invented"})
     \cup {"site-changed" : n \in {n \in In(c) \cap DOMAIN o.site :
             ~(/\ o.site[n].type = c.site[n].type /\ o.site[n].sku = c.site[n].sku
               /\ Close(o.site[n].lat, c.site[n].lat, "2e-5") /\ Close(o.site[n].lon, c.site[n].lon, "2e-5"))}}
     \cup {"copy-misplaced" : m \in {m \in Copies(c, o) : LET n == Base(c, m) IN
             ~(/\ o.site[m].type = "POP" /\ o.site[m].hash = o.site[n].hash /\ o.site[m].sku = o.site[n].sku
               /\ ~(m \in LiveSites(o) /\ n \in LiveSites(o)))}}
     \cup {"status-overruled" : n \in {n \in In(c) \cap DOMAIN o.site : c.site[n].status \in Stay /\ o.site[n].status # c.site[n].status}}
     \cup {"link-overruled" : k \in {k \in DOMAIN o.link : Ends(o, k) \in Joined(c)
             /\ \E s \in StatusOf(c, Ends(o, k)) : s \in {"EXISTING", "UNAVAILABLE"} /\ o.link[k].status # s}}
     \* without any link in use the table may be left empty
     \cup (IF Blank(o) \/ {e \in pts : {e[1], e[2]} \subseteq In(c)} = ways THEN {} ELSE {"links-changed"})
     \cup (IF Num(pts) = Len(o.link) THEN {} ELSE {"links-doubled"})
     \cup {"copy-joined-elsewhere" : e \in {e \in pts : ~({e[1], e[2]} \subseteq In(c)) /\ {e[1], e[2]} \subseteq DOMAIN o.site
             /\ {Base(c, e[1]), Base(c, e[2])} \notin Joined(c)}}
     \cup {"link-length" : k \in {k \in DOMAIN o.link : Ends(o, k) \subseteq In(c)
             /\ ~Close(o.link[k].len, Distance(c.site[o.link[k].tx], c.site[o.link[k].rx]), "0.0051")}}

\* what stands can work
PlanFails(c, o) ==
  LET h == Hops(o)
      live == Live(o)
      node(k) == o.link[k]
  IN {"end-not-built" : k \in {k \in live : ~(Ends(o, k) \subseteq LiveSites(o))}}
     \cup {"one-way" : k \in {k \in live : ~Access(o, k) /\ ~\E m \in live : node(m).tx = node(k).rx /\ node(m).rx = node(k).tx}}
     \cup {"cut-off" : n \in {n \in DOMAIN o.site : o.site[n].status = "PROPOSED" /\ n \notin DOMAIN h}}
     \cup {"sector-not-built" : k \in {k \in live : ~({node(k).ts, node(k).rs} \subseteq DOMAIN o.sec)}}
     \cup {"sector-elsewhere" : k \in {k \in live : {node(k).ts, node(k).rs} \subseteq DOMAIN o.sec
             /\ ~(/\ <<o.sec[node(k).ts].hash, o.sec[node(k).ts].type>> = <<o.site[node(k).tx].hash, o.site[node(k).tx].type>>
                  /\ <<o.sec[node(k).rs].hash, o.sec[node(k).rs].type>> = <<o.site[node(k).rx].hash, o.site[node(k).rx].type>>)}}
     \cup {"channel" : k \in {k \in live : {node(k).ts, node(k).rs} \subseteq DOMAIN o.sec
             /\ ~(node(k).ch = o.sec[node(k).ts].ch /\ node(k).ch = o.sec[node(k).rs].ch /\ node(k).ch \in 0..(c.cfg.channels - 1))}}
     \cup {"polarity" : k \in {k \in live : ~Access(o, k) /\ {o.site[n].pol : n \in Ends(o, k)} # {"ODD", "EVEN"}}}
     \cup {"two-at-one-client" : n \in {n \in DOMAIN o.site : o.site[n].type = "CN"
             /\ Num({k \in live : node(k).rx = n /\ node(k).status = "PROPOSED"}) > 1}}

\* deployment rules hold wherever something new was built
Angle(c, o, j, k) ==
  LET at(n) == c.site[Base(c, n)]
      a == Haversine(at(o.link[j].tx), at(o.link[j].rx))
      b == Haversine(at(o.link[k].tx), at(o.link[k].rx))
  IN VertexAngle(a, b, Haversine(at(o.link[j].rx), at(o.link[k].rx)))
RuleFails(c, o) ==
  LET live == Live(o)
      fresh == ~\E k \in live : o.link[k].status = "EXISTING"
      clash == {p \in live \X live : LET j == o.link[p[1]]  k == o.link[p[2]]
                 IN p[1] < p[2] /\ j.tx = k.tx /\ j.ts # k.ts /\ j.ch = k.ch /\ "PROPOSED" \in {j.status, k.status}}
      load(s, ty) == Num({o.link[k].rx : k \in {k \in live : o.link[k].ts = s /\ o.site[o.link[k].rx].type \in ty}})
      over(s) == o.sec[s].type # "CN" /\ (load(s, Back) > c.cfg.dn_limit \/ load(s, Back \cup {"CN"}) > c.cfg.total_limit)
      at(n) == c.site[Base(c, n)]
      far(p) == LET a == Haversine(at(o.link[p[1]].tx), at(o.link[p[1]].rx))
                    b == Haversine(at(o.link[p[2]].tx), at(o.link[p[2]].rx))
                    more == FMul(c.cfg.ratio, "1.0001")
                IN FLe(FMul(a, more), b) \/ FLe(FMul(b, more), a)
  IN {"angle" : p \in {p \in clash : FLt(Angle(c, o, p[1], p[2]), FSub(c.cfg.angle, "0.01"))}}
     \cup {"near-far" : p \in {p \in clash : FLt(Angle(c, o, p[1], p[2]), FSub(c.cfg.nearer, "0.01")) /\ far(p)}}
     \cup {"sector-overloaded" : s \in {s \in DOMAIN o.sec : fresh /\ over(s)}}
     \cup (IF fresh /\ (o.m.diff # 0 \/ o.m.near # 0 \/ o.m.load # 0) THEN {"violations-counted"} ELSE {})
     \cup {"violation-marked" : k \in {k \in DOMAIN o.link : fresh /\ (o.link[k].diff \/ o.link[k].near \/ o.link[k].load)}}
     \cup {"sector-mark" : s \in {s \in DOMAIN o.sec : o.sec[s].load # over(s)}}

\* the tables say the same
TableFails(c, o) ==
  LET h == Hops(o)
      live == Live(o)
      secs(n) == {s \in DOMAIN o.sec : o.sec[s].hash = o.site[n].hash /\ o.sec[s].type = o.site[n].type}
      nodes(n) == {o.sec[s].node : s \in secs(n)}
      flow(S) == SumF(S, LAMBDA k : o.link[k].flow)
      at(ty) == {n \in DOMAIN o.site : o.site[n].type \in ty}
      pairs(S) == {Ends(o, k) : k \in S}
      bh == {k \in DOMAIN o.link : ~Access(o, k)}
      cost(n) == FAdd(c.cfg.capex[o.site[n].type], FMul(FInt(Num(nodes(n))), c.cfg.node[o.site[n].sku]))
      new == {n \in LiveSites(o) : o.site[n].status = "PROPOSED"}
      newnode == SumF(LiveSites(o), LAMBDA n : FMul(FInt(Num({o.sec[s].node : s \in {s \in secs(n) : o.sec[s].status = "PROPOSED"}})), c.cfg.node[o.site[n].sku]))
      cns == {n \in In(c) : c.site[n].type = "CN"}
      m == o.m
  IN {"hops" : n \in {n \in DOMAIN o.site : o.site[n].hops # (IF n \in DOMAIN h THEN h[n] ELSE -1)}}
     \cup {"nodes" : n \in {n \in DOMAIN o.site : o.site[n].nodes # Num(nodes(n)) \/ o.site[n].sectors # Num(secs(n))}}
     \cup {"links-of-site" : n \in {n \in DOMAIN o.site : o.site[n].links # Num(pairs({k \in live : n \in Ends(o, k)}))}}
     \cup {"links-of-sector" : s \in {s \in DOMAIN o.sec :
             \/ o.sec[s].bh # Num(pairs({k \in live \cap bh : s \in {o.link[k].ts, o.link[k].rs}}))
             \/ o.sec[s].acc # Num(pairs({k \in live \ bh : s \in {o.link[k].ts, o.link[k].rs}}))}}
     \cup {"sector-polarity" : n \in {n \in DOMAIN o.site : \E s \in secs(n) : o.sec[s].pol # o.site[n].pol}}
     \cup {"sector-listed-off" : s \in {s \in DOMAIN o.sec : o.sec[s].status \notin On}}
     \cup {"site-price" : n \in {n \in DOMAIN o.site : ~Close(o.site[n].capex, c.cfg.capex[o.site[n].type], "1e-6")}}
     \cup {"node-price" : s \in {s \in DOMAIN o.sec : ~\E n \in DOMAIN o.site : s \in secs(n) /\ Close(o.sec[s].cost, c.cfg.node[o.site[n].sku], "0.051")}}
     \cup (IF Close(m.total_capex, SumF(LiveSites(o), cost), "1e-3") THEN {} ELSE {"total-cost"})
     \cup (IF Close(m.proposed_capex, FAdd(SumF(new, LAMBDA n : c.cfg.capex[o.site[n].type]), newnode), "1e-3") THEN {} ELSE {"proposed-cost"})
     \cup (IF /\ m.active_sites = Num(LiveSites(o)) /\ m.total_sites = Num(DOMAIN o.site)
              /\ m.active_pop_sites = Num(Pops(o)) /\ m.total_pop_sites = Num(at({"POP"}))
              /\ m.active_dn_sites = Num(LiveSites(o) \cap at({"DN"})) /\ m.total_dn_sites = Num(at({"DN"}))
              /\ m.active_cn_sites = Num(LiveSites(o) \cap at({"CN"})) /\ m.total_cn_sites = Num(at({"CN"})) THEN {} ELSE {"sites-counted"})
     \cup (IF /\ m.active_sectors = Num(DOMAIN o.sec) /\ m.active_cn_sectors = Num({s \in DOMAIN o.sec : o.sec[s].type = "CN"})
              /\ m.active_nodes = SumI(DOMAIN o.site, LAMBDA n : Num(nodes(n)))
              /\ m.active_dn_nodes = SumI(at(Back), LAMBDA n : Num(nodes(n))) THEN {} ELSE {"sectors-counted"})
     \cup (IF /\ m.active_backhaul_links = Num({{<<o.site[n].hash, o.site[n].type>> : n \in p} : p \in pairs(live \cap bh)})
              /\ m.active_access_links = Num({{<<o.site[n].hash, o.site[n].type>> : n \in p} : p \in pairs(live \ bh)}) THEN {} ELSE {"links-counted"})
     \cup (IF \/ c.cfg.mode # "cn"
              \/ /\ m.demands = Num(cns) /\ Close(m.demand, SumF(cns, LAMBDA n : FMul(c.cfg.demand, FInt(c.site[n].subs))), "1e-6") THEN {} ELSE {"demand"})
     \cup (IF c.cfg.mode # "cn" \/ m.cut = Num({n \in cns : n \notin DOMAIN h \/ n \notin LiveSites(o)}) THEN {} ELSE {"demand-cut"})
     \cup {"flow-idle" : k \in {k \in DOMAIN o.link : k \notin live /\ ~Close(o.link[k].flow, "0.0", "1e-9")}}
     \cup {"flow-over-capacity" : k \in {k \in live : ~FLe(o.link[k].flow, FAdd(o.link[k].cap, "0.011"))}}
     \cup {"flow-of-site" : n \in {n \in DOMAIN o.site :
             LET i == {k \in live : o.link[k].rx = n}  x == {k \in live : o.link[k].tx = n}
             IN ~(Close(o.site[n].in, flow(i), FMul("0.0051", FInt(Num(i)))) /\ Close(o.site[n].out, flow(x), FMul("0.0051", FInt(Num(x)))))}}
     \cup {"flow-balance" : n \in {n \in at({"DN"}) : IF c.cfg.mode = "cn" THEN ~Close(o.site[n].in, o.site[n].out, "1e-3") ELSE ~FLe(o.site[n].out, FAdd(o.site[n].in, "1e-3"))}}
     \cup {"flow-starved" : n \in {n \in (IF c.cfg.mode = "cn" /\ c.cfg.routing = "none" THEN cns ELSE {}) \cap LiveSites(o) \cap DOMAIN HopsOver(o, {k \in live : FLt("0.0", o.link[k].cap)}) : ~FLe(m.least, FAdd(o.site[n].in, "1e-3"))}}

\* settings that leave nothing in the way of serving whoever can be reached
Ample(c) ==
  /\ c.cfg.mode = "cn"
  /\ FLe(c.cfg.demand, "0.001") /\ FLe("10.0", c.cfg.pop) /\ c.cfg.hops >= 15 /\ c.cfg.dn_limit >= 9 /\ c.cfg.total_limit >= 15
  /\ FLe(c.cfg.angle, "0.0") /\ FLe(c.cfg.over, "1.0")
  /\ \A n \in In(c) : c.site[n].status \in {"CANDIDATE"}
  /\ \A p \in R(c.pair) : p.status = "CANDIDATE"
Sources(c) == {n \in In(c) : c.site[n].type = "POP"}
Near(c) ==
  LET E == UNION {{<<p.a, p.b>>, <<p.b, p.a>>} : p \in R(c.pair)}
  IN N!ReachFrom({e \in E : c.site[e[1]].type # "CN"}, Sources(c))
Clients(c) == {n \in In(c) : c.site[n].type = "CN"}
Wanted(c, S) == SumI(S, LAMBDA n : c.site[n].subs)
\* the first share of the demand, in tenths, that whoever can be reached amounts to
Tenths(c) == (10 * Wanted(c, Near(c) \cap Clients(c))) \div Wanted(c, Clients(c))
ServedFails(c, o) ==
  IF ~Ample(c) \/ c.cfg.extra > 0 THEN {}
  ELSE LET got == Clients(c) \cap DOMAIN Hops(o) \cap LiveSites(o)
       IN (IF Clients(c) \subseteq Near(c) /\ got # Clients(c) THEN {"left-out"} ELSE {})
          \cup (IF 10 * Wanted(c, got) < Tenths(c) * Wanted(c, Clients(c)) THEN {"too-few-served"} ELSE {})

MapFails(c, o) ==
  IF c.kml = << >> THEN {}
  ELSE LET k == c.kml[1] IN
    (IF DOMAIN k.site = DOMAIN o.site /\ \A n \in DOMAIN o.site : k.site[n] = <<o.site[n].type, o.site[n].status, o.site[n].sku>> THEN {} ELSE {"map-sites"})
    \cup (IF Blank(o) \/ R(k.link) = {<<o.link[j].tx, o.link[j].rx, o.link[j].type, o.link[j].status>> : j \in DOMAIN o.link} THEN {} ELSE {"map-links"})

\* when there is no plan, there is a reason
Hopeless(c) ==
  \/ Sources(c) = {} /\ c.cfg.extra = 0
  \/ Clients(c) = {} /\ c.cfg.mode = "cn"
  \/ ~Ample(c) \/ c.cfg.extra > 0
  \/ 2 * Wanted(c, Near(c) \cap Clients(c)) <= Wanted(c, Clients(c))
  \* links added for redundancy may drown each other
  \/ (c.cfg.level # "NONE" \/ c.cfg.legacy) /\ c.text = "No POP has a positive capacity outgoing link."

(* The network a run draws up by itself from entered sites and an area with
   nothing in the way: c.asked as c.site, links between whoever is at a fit
   distance (c.cfg.near to c.cfg.far) and not too steep.                     *)
Lawful(c, a, b) == /\ ~(c.asked[a].type = "CN" /\ c.asked[b].type = "CN") /\ ~(c.asked[a].type = "POP" /\ c.asked[b].type = "POP")
Steep(a, b) == IF a.alt = "none" THEN "0.0" ELSE FDiv(FAbs(FSub(a.alt, b.alt)), FMax2("0.001", Haversine(a, b)))
DrawnFails(c) ==
  LET want == DOMAIN c.asked
      there == want \cap In(c)
      duo == {e \in SUBSET there : Cardinality(e) = 2}
      fit(e, slack) == \E a, b \in e : /\ a # b /\ Lawful(c, a, b)
                         /\ LET d == Distance(c.asked[a], c.asked[b])
                            IN /\ FLe(FAdd(FInt(c.cfg.near), slack), d) /\ FLe(d, FSub(FInt(c.cfg.far), slack))
                               /\ FLe(Steep(c.asked[a], c.asked[b]), FSub("0.4663", FMul(slack, "0.01")))
  IN (IF want = In(c) THEN {} ELSE {"drawn-sites"})
     \cup {"drawn-site-changed" : n \in {n \in there : LET p == c.asked[n]  q == c.site[n] IN
             ~(/\ p.type = q.type /\ p.status = q.status /\ p.sku = q.sku /\ p.subs = q.subs
               /\ Close(p.lat, q.lat, "1e-6") /\ Close(p.lon, q.lon, "1e-6")
               /\ (p.alt = "none") = (q.alt = "none") /\ (p.alt # "none" => Close(p.alt, q.alt, "1e-3")))}}
     \cup (IF \A e \in duo : fit(e, "0.5") /\ (\A n \in e : c.asked[n].status # "UNAVAILABLE") => e \in Joined(c) THEN {} ELSE {"drawn-link-missing"})
     \cup (IF \A e \in Joined(c) : e \in duo /\ fit(e, "-0.5") THEN {} ELSE {"drawn-link-unfit"})
     \cup (IF Cardinality(Joined(c)) = Len(c.pair) THEN {} ELSE {"drawn-link-twice"})

DeliveredFails(c) ==
  (IF c.kind = "raw" /\ c.end # "crash" THEN DrawnFails(c) ELSE {})
  \cup (IF c.same THEN {} ELSE {"debug-files-change-the-plan"})
  \cup (IF c.end = "crash" THEN {"crash"}
        ELSE IF c.end = "refused" THEN (IF Hopeless(c) THEN {} ELSE {"refused"})
        ELSE (IF Sources(c) = {} /\ c.cfg.extra = 0 THEN {"planned-without-source"} ELSE {})
             \cup (IF Clients(c) = {} /\ c.cfg.mode = "cn" THEN {"planned-without-demand"} ELSE {})
             \cup UNION {LET o == c.out[k]
                             kept == KeptFails(c, o)
                         IN kept \cup (IF kept # {} /\ ~(kept \subseteq {"link-length"}) THEN {}
                                       ELSE PlanFails(c, o) \cup RuleFails(c, o) \cup TableFails(c, o) \cup ServedFails(c, o) \cup MapFails(c, o)) : k \in DOMAIN c.out})
=============================================================================
