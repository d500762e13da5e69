------------------------------- MODULE Demand -------------------------------
(* Which demand points a plan has, and which sites may serve each of them.

   c.site[s]  = [type, lat, lon, alt, roof, bld, subs]
   c.manual   = << [lat, lon], ... >>      demand points entered by hand
   c.use      = [manual, uniform, cn]      enabled demand models
   c.out      = << [lat, lon, num, rate, sites], ... >>                     *)
EXTENDS Geometry, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Eps == "1e-6"       \* metres
EpsDeg == "1e-9"    \* degrees

Sites(c) == DOMAIN c.site
Cns(c) == {s \in Sites(c) : c.site[s].type = "CN"}
Dist(p, q) == Haversine(p, q)
Near(p, q) == /\ FLe(FAbs(FSub(p.lat, q.lat)), EpsDeg)
              /\ FLe(AngleDist(p.lon, q.lon), EpsDeg)

Buddies(c, s) ==
  IF c.site[s].type # "CN" THEN {}
  ELSE {d \in Sites(c) : c.site[d].type # "CN" /\
          \/ <<c.site[d].lat, c.site[d].lon, c.site[d].alt>> = <<c.site[s].lat, c.site[s].lon, c.site[s].alt>>
          \/ c.site[s].roof /\ c.site[d].roof /\ c.site[s].bld > -1 /\ c.site[s].bld = c.site[d].bld}
Closure(c, S) == S \union UNION {Buddies(c, s) : s \in S}

Within(c, p, slack) == {s \in Sites(c) : FLe(Dist(c.site[s], p), FAdd(c.radius, slack))}
Sure(c, p)  == Within(c, p, FNeg(Eps))
Maybe(c, p) == Within(c, p, Eps)
AtSpot(c, p) == {s \in Cns(c) : c.site[s].lat = p.lat /\ c.site[s].lon = p.lon}

\* is the report's site list explained by the closure of a set between A and B?
Between(c, S, A, B) ==
  \E X \in SUBSET (B \ A) : S = Closure(c, A \union X)

-----------------------------------------------------------------------------
\* the uniform grid: spacing c.spacing, one step beyond the bounding box
Wrapped(c) == (\E s \in Sites(c) : FLe("175.0", c.site[s].lon)) /\ (\E s \in Sites(c) : FLe(c.site[s].lon, "-175.0"))
Lon(c, x) == IF Wrapped(c) /\ FLt(x, "0.0") THEN FAdd(x, "360.0") ELSE x
SetMin(S) == CHOOSE x \in S : \A y \in S : FLe(x, y)
SetMax(S) == CHOOSE x \in S : \A y \in S : FLe(y, x)
Box(c) ==
  LET lons == {Lon(c, c.site[s].lon) : s \in Sites(c)}
      lats == {c.site[s].lat : s \in Sites(c)}
      l == SetMin(lons)  b == SetMin(lats)
      d == FDiv(c.spacing, R_EARTH)
      lat0 == FRad(b)
      dy == FDeg(d)
      lat2 == FAsin(FMul(FSin(lat0), FCos(d)))
      dx == FDeg(FAtan2(FMul(FSin(d), FCos(lat0)), FSub(FCos(d), FMul(FSin(lat0), FSin(lat2)))))
  IN [left |-> FSub(l, dx), bottom |-> FSub(b, dy), dx |-> dx, dy |-> dy,
      w |-> FDiv(FAdd(FSub(SetMax(lons), l), FMul("2.0", dx)), dx),     \* width in steps
      h |-> FDiv(FAdd(FSub(SetMax(lats), b), FMul("2.0", dy)), dy)]
GridPoint(g, i, j) == [lat |-> FAdd(g.bottom, FMul(FInt(j), g.dy)), lon |-> FAdd(g.left, FMul(FInt(i), g.dx))]
SureGrid(g)  == (0..FFloor(FSub(g.w, "1e-6"))) \X (0..FFloor(FSub(g.h, "1e-6")))
MaybeGrid(g) == (0..FFloor(FAdd(g.w, "1e-6"))) \X (0..FFloor(FAdd(g.h, "1e-6")))

-----------------------------------------------------------------------------
Facts(c) ==
  LET out == 1..Len(c.out)
      S(k) == Rng(c.out[k].sites)
      isCn(k) == c.use.cn /\ AtSpot(c, c.out[k]) # {}
      isMan(k) == c.use.manual /\ \E i \in 1..Len(c.manual) : Near(c.manual[i], c.out[k])
      g == IF c.use.uniform THEN Box(c) ELSE [left |-> "0.0"]
      \* steps from the corner, which must be whole
      x(k) == FDiv(FMod(FSub(c.out[k].lon, g.left), "360.0"), g.dx)
      y(k) == FDiv(FSub(c.out[k].lat, g.bottom), g.dy)
      isGrid(k) == /\ c.use.uniform
                   /\ <<FRound(x(k)), FRound(y(k))>> \in MaybeGrid(g)
                   /\ Near(GridPoint(g, FRound(x(k)), FRound(y(k))), c.out[k])
      num(k) == c.out[k].num
  IN (IF \A k \in out : isCn(k) \/ isMan(k) \/ isGrid(k) THEN {} ELSE {"demand_from_nowhere"})
     \union (IF \A i, k \in out : i = k \/ <<c.out[i].lat, c.out[i].lon>> # <<c.out[k].lat, c.out[k].lon>> THEN {} ELSE {"demand_twice_at_one_position"})
     \union (IF c.use.cn => \A s \in Cns(c) : \E k \in out : Near(c.site[s], c.out[k]) THEN {} ELSE {"cn_without_demand"})
     \union (IF c.use.manual => \A i \in 1..Len(c.manual) : \E k \in out : Near(c.manual[i], c.out[k]) THEN {} ELSE {"manual_demand_lost"})
     \union (IF c.use.uniform => \A p \in SureGrid(g) :
                  LET q == GridPoint(g, p[1], p[2])
                  IN Sure(c, q) # {} => \E k \in out : Near(q, c.out[k])
             THEN {} ELSE {"grid_point_missing"})
     \union (IF \A k \in out : Cardinality(S(k)) = Len(c.out[k].sites) THEN {} ELSE {"site_attached_twice"})
     \union (IF \A k \in out :
                  IF isCn(k) /\ ~isMan(k) /\ ~isGrid(k) THEN S(k) = Closure(c, AtSpot(c, c.out[k]))
                  ELSE IF isCn(k) THEN Closure(c, AtSpot(c, c.out[k])) \subseteq S(k)
                                       /\ S(k) \subseteq Closure(c, AtSpot(c, c.out[k]) \union Maybe(c, c.out[k]))
                  ELSE Between(c, S(k), Sure(c, c.out[k]), Maybe(c, c.out[k]))
             THEN {} ELSE {"attached_sites"})
     \union (IF \A k \in out : isMan(k) \/ isCn(k) \/ S(k) # {} THEN {} ELSE {"grid_point_serves_nobody"})
     \union (IF \A k \in out : FNear(c.out[k].rate, c.rate, "1e-12") THEN {} ELSE {"demand_rate"})
     \union (IF \A k \in out :
                  IF isCn(k) THEN \E s \in AtSpot(c, c.out[k]) : num(k) = c.site[s].subs
                  ELSE num(k) = 1
             THEN {} ELSE {"subscriber_count"})

Fails(c) ==
  CASE c.kind = "demand" -> Facts(c)
    [] c.kind = "refuse" -> IF c.refused THEN {} ELSE {"planned_without_demand"}
    [] c.kind = "crash" -> {"crash_" \o c.what}
=============================================================================
