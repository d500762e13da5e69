---------------------------- MODULE Availability ----------------------------
(* Availability of demands and backhaul links under a schedule of outages.
   Time is counted in ticks; schedule s of a hop is a sequence of <<up, down>>
   periods, the first one starting live at time 0.

   Machine (one step per tick): a hop is live or failed, a demand is served
   when a chain of live hops joins it to a POP; the clock adds the tick to
   the account of everything that is live or served.                        *)
EXTENDS Network, Geometry

\* is a hop with schedule s live during [t, t+1)?
RECURSIVE Live(_, _, _)
Live(s, k, t) ==      \* t counted from the start of period k
  IF k > Len(s) THEN FALSE
  ELSE IF t < s[k][1] THEN TRUE
  ELSE IF t < s[k][1] + s[k][2] THEN FALSE
  ELSE Live(s, k + 1, t - s[k][1] - s[k][2])
IsLive(s, t) == Live(s, 1, t)

RECURSIVE Count(_, _, _)
Count(T, k, f) == IF k >= T THEN 0 ELSE (IF f[k] THEN 1 ELSE 0) + Count(T, k + 1, f)
UpTicks(s, T) == Count(T, 0, [t \in 0..T |-> IsLive(s, t)])

Both(p) == {<<p[1], p[2]>>, <<p[2], p[1]>>}
Hops(n) == {Both(Pair(n, l)) : l \in {k \in Usable(n, Active) : LinkKind(n, k) = "WIRELESS_BACKHAUL"}}
Ratio(a, b) == FDiv(FInt(a), FInt(b))

\* every way to read the reported link values as schedules observed up to T
Fits(c, T, i, j) == FNear(c.links[i].a, Ratio(UpTicks(c.sched[j], T), T), "1e-9")
\* the schedule of reported link i: the one with its uptime over the whole run
Sched(c, T, i) == CHOOSE j \in 1..Len(c.sched) : Fits(c, T, i, j)

Explained(c, T) ==
  /\ \A i \in 1..Len(c.links) : \E j \in 1..Len(c.sched) : Fits(c, T, i, j)
  /\ \A j \in 1..Len(c.sched) : \E i \in 1..Len(c.links) : Fits(c, T, i, j)
  \* schedules that coincide up to T are taken by as many links
  /\ \A i \in 1..Len(c.links) :
        Cardinality({j \in 1..Len(c.sched) : Fits(c, T, i, j)})
          = Cardinality({k \in 1..Len(c.links) : Fits(c, T, k, Sched(c, T, i))})

ServedAt(c, n, T, t) ==
  LET dead == UNION {Both(<<c.links[i].u, c.links[i].v>>) :
                       i \in {k \in 1..Len(c.links) : ~IsLive(c.sched[Sched(c, T, k)], t)}}
  IN Served(n, Edges(n, Active) \ dead)

DemandsExplained(c, n, T) ==
  LET sv == [t \in 0..(T - 1) |-> ServedAt(c, n, T, t)]
  IN \A k \in 1..Len(c.dem) :
        FNear(c.dem[k].a, Ratio(Count(T, 0, [t \in 0..T |-> t < T /\ c.dem[k].d \in sv[t]]), T), "1e-9")

SimFacts(c) ==
  LET n == c.net
      rep == {Both(<<c.links[i].u, c.links[i].v>>) : i \in 1..Len(c.links)}
      Ts == IF c.limited THEN 1..c.L ELSE {c.L}
  IN (IF rep = Hops(n) /\ Cardinality(rep) = Len(c.links) THEN {} ELSE {"links_reported"})
     \union (IF {c.dem[k].d : k \in 1..Len(c.dem)} = Served(n, Edges(n, Active)) THEN {} ELSE {"demands_reported"})
     \union (IF c.unchanged THEN {} ELSE {"graph_changed"})
     \union (IF \A m \in Rng(c.means) : FNear(FMul(m[1], FSub("100.0", c.avail)), FMul(m[2], c.avail), "1e-9")
             THEN {} ELSE {"mean_ratio"})
     \union (IF Len(c.sched) # Cardinality(Hops(n)) \/ rep # Hops(n) THEN {"schedules_drawn"}
             ELSE IF ~\E T \in Ts : Explained(c, T) THEN {"link_availability"}
             ELSE IF ~\E T \in Ts : Explained(c, T) /\ DemandsExplained(c, n, T) THEN {"demand_availability"}
             ELSE {})

\* fixed outage probability 0 or 1: everything or nothing is live all the time
ConstFacts(c) ==
  LET n == c.net
      E == IF c.avail = "100.0" THEN Edges(n, Active) ELSE Edges(n, Active) \ UNION Hops(n)
      v(x) == IF x THEN "1.0" ELSE "0.0"
  IN (IF \A k \in 1..Len(c.dem) : FNear(c.dem[k].a, v(c.dem[k].d \in Served(n, E)), "1e-9") THEN {} ELSE {"const_demand"})
     \union (IF \A i \in 1..Len(c.links) : FNear(c.links[i].a, v(c.avail = "100.0"), "1e-9") THEN {} ELSE {"const_link"})

Fails(c) ==
  CASE c.kind = "sim" -> SimFacts(c)
    [] c.kind = "const" -> ConstFacts(c)
    [] c.kind = "refuse" -> IF c.refused = c.must THEN {} ELSE {"refusal"}
    [] c.kind = "same" -> IF c.same THEN {} ELSE {"seed_not_reproducible"}
    [] c.kind = "crash" -> {"crash_" \o c.what}
=============================================================================
