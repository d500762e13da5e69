---------------------------- MODULE TopologyStore ----------------------------
(* The network store: sites, sectors, directed links and demand points under
   edits.  A universe `u` fixes what may be added: u.site[x] = [type, status,
   pos, polarity], u.sector[s] = [site, status], u.link[l] = [tx, rx,
   wireless, status], u.demand.  The state keeps only what is in the store and
   which pair of sectors a link uses; every lookup is derived from it.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Bare == <<"-", "-">>

Empty(u) == [sites |-> {}, sectors |-> {}, links |-> << >>, demands |-> {}]

Has(f, x) == x \in DOMAIN f
Restrict(f, S) == [x \in S |-> f[x]]

Touches(u, l, x) == u.link[l].tx = x \/ u.link[l].rx = x

\* One edit: whether it is accepted, and the store afterwards.
Apply(u, st, op) ==
  LET yes(s) == [ok |-> TRUE, st |-> s]
      no     == [ok |-> FALSE, st |-> st]
      x      == op.x
  IN CASE op.op = "AddSite" ->
            IF x \in st.sites THEN no
            ELSE yes([st EXCEPT !.sites = @ \union {x}])
       [] op.op = "RemoveSite" ->
            IF x \notin st.sites THEN no
            ELSE yes([st EXCEPT
                   !.sites = @ \ {x},
                   !.sectors = {s \in @ : u.sector[s].site # x},
                   !.links = Restrict(@, {l \in DOMAIN @ : ~Touches(u, l, x)})])
       [] op.op = "AddSector" ->
            IF x \in st.sectors \/ u.sector[x].site \notin st.sites THEN no
            ELSE yes([st EXCEPT !.sectors = @ \union {x}])
       [] op.op = "RemoveSector" ->
            IF x \notin st.sectors THEN no
            ELSE yes([st EXCEPT
                   !.sectors = @ \ {x},
                   !.links = [l \in DOMAIN @ |->
                       IF st.links[l][1] = x \/ st.links[l][2] = x
                       THEN Bare ELSE st.links[l]]])
       [] op.op = "AddLink" ->
            IF u.link[x].tx \notin st.sites \/ u.link[x].rx \notin st.sites THEN no
            ELSE yes([st EXCEPT !.links = (x :> <<op.a, op.b>>) @@ @])
       [] op.op = "RemoveLink" ->
            IF ~Has(st.links, x) THEN no
            ELSE yes([st EXCEPT !.links = Restrict(@, DOMAIN @ \ {x})])
       [] op.op = "AddDemand" -> yes([st EXCEPT !.demands = @ \union {x}])
       [] op.op = "RemoveDemand" ->
            IF x \notin st.demands THEN no
            ELSE yes([st EXCEPT !.demands = @ \ {x}])
       [] op.op = "Sort" -> yes(st)

Statuses == {"PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"}
Types    == {"POP", "DN", "CN"}
LinkKind(u, l) == IF ~u.link[l].wireless THEN "ETHERNET"
                  ELSE IF u.site[u.link[l].rx].type = "CN" THEN "WIRELESS_ACCESS"
                  ELSE "WIRELESS_BACKHAUL"
Kinds == {"ETHERNET", "WIRELESS_ACCESS", "WIRELESS_BACKHAUL"}

L(st)         == DOMAIN st.links
Succ(u, st, x)  == {u.link[l].rx : l \in {k \in L(st) : u.link[k].tx = x}}
Pred(u, st, x)  == {u.link[l].tx : l \in {k \in L(st) : u.link[k].rx = x}}
WSucc(u, st, x) == {u.link[l].rx : l \in {k \in L(st) : u.link[k].tx = x /\ u.link[k].wireless}}
WPred(u, st, x) == {u.link[l].tx : l \in {k \in L(st) : u.link[k].rx = x /\ u.link[k].wireless}}
Between(u, st, a, b) ==
  IF a \notin st.sites \/ b \notin st.sites THEN "refused"
  ELSE LET m == {l \in L(st) : u.link[l].tx = a /\ u.link[l].rx = b}
       IN IF m = {} THEN "none" ELSE CHOOSE l \in m : TRUE
Sectored(st) == {l \in L(st) : st.links[l] # Bare}

\* Everything the public lookups may be asked, as the store must answer it.
View(u, st) ==
  LET S == DOMAIN u.site
      pairs(M) == {<<u.link[l].tx, u.link[l].rx>> : l \in M}
  IN [sites |-> st.sites, sectors |-> st.sectors,
      links |-> {<<l, st.links[l][1], st.links[l][2]>> : l \in L(st)},
      demands |-> st.demands,
      succ  |-> [x \in S |-> IF x \in st.sites THEN Succ(u, st, x) ELSE {"refused"}],
      pred  |-> [x \in S |-> IF x \in st.sites THEN Pred(u, st, x) ELSE {"refused"}],
      wsucc |-> [x \in S |-> IF x \in st.sites THEN WSucc(u, st, x) ELSE {"refused"}],
      wpred |-> [x \in S |-> IF x \in st.sites THEN WPred(u, st, x) ELSE {"refused"}],
      between |-> {<<a, b, Between(u, st, a, b)>> : <<a, b>> \in S \X S},
      bysector |-> {<<a, b, IF a \in st.sectors /\ b \in st.sectors
                            THEN Between(u, st, u.sector[a].site, u.sector[b].site) ELSE "refused">> :
                      <<a, b>> \in (DOMAIN u.sector) \X (DOMAIN u.sector)},
      reverse |-> {<<l, Between(u, st, u.link[l].rx, u.link[l].tx)>> : l \in L(st)},
      sconn |-> {<<st.links[l][1], st.links[l][2], l>> : l \in Sectored(st)},
      sconnrev |-> {<<st.links[l][2], st.links[l][1], l>> : l \in Sectored(st)},
      sectorless |-> pairs({l \in L(st) : u.link[l].wireless /\ l \notin Sectored(st)}),
      onsite |-> {<<x, {s \in st.sectors : u.sector[s].site = x}>> : x \in st.sites},
      bystatus |-> [t \in Statuses |-> {x \in st.sites : u.site[x].status = t}],
      bytype |-> [t \in Types |-> {x \in st.sites : u.site[x].type = t}],
      lbystatus |-> [t \in Statuses |-> pairs({l \in L(st) : u.link[l].status = t})],
      lbykind |-> [t \in Kinds |-> pairs({l \in L(st) : LinkKind(u, l) = t})],
      sbystatus |-> [t \in Statuses |-> {<<u.sector[s].site, s>> :
                         s \in {q \in st.sectors : u.sector[q].status = t}}],
      colocated |-> {{y \in st.sites : u.site[y].pos = u.site[x].pos} : x \in st.sites},
      odd |-> {x \in st.sites : u.site[x].type # "CN" /\ u.site[x].polarity = "ODD"
                  /\ u.site[x].status \in {"PROPOSED", "EXISTING"}},
      even |-> {x \in st.sites : u.site[x].type # "CN" /\ u.site[x].polarity = "EVEN"
                  /\ u.site[x].status \in {"PROPOSED", "EXISTING"}}]

Sound(u, st) ==
  /\ \A s \in st.sectors : u.sector[s].site \in st.sites
  /\ \A l \in L(st) : u.link[l].tx \in st.sites /\ u.link[l].rx \in st.sites
  /\ \A l \in Sectored(st) : st.links[l][1] \in st.sectors /\ st.links[l][2] \in st.sectors
  /\ \A x, y \in st.sites : (y \in Succ(u, st, x)) = (x \in Pred(u, st, y))

----------------------------------------------------------------------------
\* Judging a recorded history: case.u, case.steps = sequence of
\* [op, res, view]; the recorded views hold sequences where the model has sets.
Rng(s) == {s[i] : i \in 1..Len(s)}
AsSet(v) == Rng(v)
ViewOf(r) ==
  LET m(f) == [k \in DOMAIN f |-> AsSet(f[k])]
  IN [sites |-> AsSet(r.sites), sectors |-> AsSet(r.sectors), links |-> AsSet(r.links),
      demands |-> AsSet(r.demands), succ |-> m(r.succ), pred |-> m(r.pred),
      wsucc |-> m(r.wsucc), wpred |-> m(r.wpred), between |-> AsSet(r.between),
      bysector |-> AsSet(r.bysector), reverse |-> AsSet(r.reverse), sconn |-> AsSet(r.sconn), sconnrev |-> AsSet(r.sconnrev),
      sectorless |-> AsSet(r.sectorless),
      onsite |-> {<<p[1], AsSet(p[2])>> : p \in AsSet(r.onsite)},
      bystatus |-> m(r.bystatus), bytype |-> m(r.bytype), lbystatus |-> m(r.lbystatus),
      lbykind |-> m(r.lbykind), sbystatus |-> m(r.sbystatus),
      colocated |-> {AsSet(p) : p \in AsSet(r.colocated)},
      odd |-> AsSet(r.odd), even |-> AsSet(r.even)]

RECURSIVE Walk(_, _, _, _)
Walk(u, st, steps, k) ==
  IF k > Len(steps) THEN {}
  ELSE LET s == steps[k]
           r == Apply(u, st, s.op)
           want == View(u, r.st)
           got == ViewOf(s.view)
           bad == (IF s.res # (IF r.ok THEN "ok" ELSE "refused")
                   THEN {s.op.op \o "_outcome"} ELSE {})
                  \union {"view_" \o f : f \in {g \in DOMAIN want : want[g] # got[g]}}
       IN IF bad # {} THEN bad ELSE Walk(u, r.st, steps, k + 1)

Fails(case) == Walk(case.u, Empty(case.u), case.steps, 1)
=============================================================================
