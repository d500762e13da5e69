------------------------------ MODULE Elements ------------------------------
(* Sites, sectors and links as values: identity, derived facts, refusals.   *)
EXTENDS Geometry, FiniteSets

Near(a, b) == FNear(a, b, TOL)

\* What a construction attempt must be told.
SiteOk(c) ==
  /\ c.ltype = "ROOFTOP" <=> c.building # "none"
  /\ (c.type = "CN") <=> (c.dtype = "CN")
LinkOkEnds(c) == c.tx # "none" /\ c.rx # "none"
LinkOk(c) ==
  /\ c.txtype # "CN"
  /\ (c.txsec = "none") = (c.rxsec = "none")
  /\ c.txsec # "none" => c.txsec = "own"
  /\ c.rxsec # "none" => c.rxsec = "own"

Outcome(ok) == IF ok THEN "ok" ELSE "refused"

Identity(s) == <<s.type, s.lat, s.lon, s.alt, s.sku>>
LinkFacts(c) ==
  LET p == c.p  q == c.q  wl == c.wireless
  IN (IF Near(c.distance, Distance(p, q)) THEN {} ELSE {"distance"})
     \union (IF SameBearing(c.txaz, Bearing(p, q), "1e-6") THEN {} ELSE {"tx_bearing"})
     \union (IF SameBearing(c.rxaz, FAdd(c.txaz, "180.0"), "1e-6") THEN {} ELSE {"rx_bearing"})
     \union (IF FLe("0.0", c.txaz) /\ FLt(c.txaz, "360.0") /\ FLe("0.0", c.rxaz) /\ FLt(c.rxaz, "360.0")
             THEN {} ELSE {"bearing_range"})
     \union (IF FNear(c.eldev, Elevation(p, q), "1e-5") THEN {} ELSE {"elevation"})
     \union (IF c.txdev = "none" /\ c.rxdev = "none"
             THEN (IF wl /\ c.sectored THEN {"deviation_missing"} ELSE {})
             ELSE IF ~(wl /\ c.sectored) THEN {"deviation_without_sector"}
             ELSE (IF SameBearing(c.txdev, FSub(c.txaz, c.txsecaz), "1e-6")
                      /\ FLe(FAbs(c.txdev), "180.0") THEN {} ELSE {"tx_deviation"})
                  \union (IF SameBearing(c.rxdev, FSub(c.rxaz, c.rxsecaz), "1e-6")
                      /\ FLe(FAbs(c.rxdev), "180.0") THEN {} ELSE {"rx_deviation"}))
     \union (IF c.kind = (IF ~wl THEN "ETHERNET" ELSE IF c.rxtype = "CN" THEN "WIRELESS_ACCESS"
                          ELSE "WIRELESS_BACKHAUL") THEN {} ELSE {"link_type"})
     \union (IF c.pair = c.sortedpair THEN {} ELSE {"sorted_ids"})

\* A link and its reverse.
ReverseFacts(c) ==
  (IF Near(c.d1, c.d2) THEN {} ELSE {"reverse_distance"})
  \union (IF FNear(c.e1, FNeg(c.e2), "1e-5") THEN {} ELSE {"reverse_elevation"})
  \union (IF c.h1 = c.h2 THEN {} ELSE {"reverse_hash"})
  \union (IF c.id1 # c.id2 THEN {} ELSE {"reverse_same_id"})
  \* at link ranges the bearing back differs from the reversed bearing only by convergence
  \union (IF SameBearing(c.az1, FAdd(c.az2, "180.0"), c.convergence) THEN {} ELSE {"reverse_bearing"})

\* A set of sites: ids agree exactly with identities.
IdentityFacts(c) ==
  LET n == Len(c.sites)
  IN IF \A i, j \in 1..n : (c.sites[i].id = c.sites[j].id) = (Identity(c.sites[i]) = Identity(c.sites[j]))
     THEN {} ELSE {"site_identity"}

SubscriberFacts(c) ==
  LET want == IF c.type # "CN" THEN 0 ELSE IF c.given <= 0 THEN 1 ELSE c.given
  IN IF c.got = want THEN {} ELSE {"subscribers"}

\* Which UTM zone a position belongs to, and that projecting there and back
\* is the identity.
Zone(lon) == FFloor(FMod(FDiv(FAdd(lon, "180.0"), "6.0"), "60.0")) + 1
PlaceFacts(c) ==
  (IF c.epsg = (IF FLe("0.0", c.lat) THEN 32600 ELSE 32700) + Zone(c.lon) THEN {} ELSE {"utm_zone"})
  \union (IF FNear(c.lat, c.lat2, "1e-7") /\ FNear(c.lon, c.lon2, "1e-7") THEN {} ELSE {"utm_round_trip"})
  \union (IF c.alt = c.alt2 THEN {} ELSE {"altitude_kept"})

PlaceOk(c) ==
  IF c.lat # "none" /\ c.lon # "none"
  THEN FLe("-90.0", c.lat) /\ FLe(c.lat, "90.0") /\ FLe("-180.0", c.lon) /\ FLe(c.lon, "180.0")
  ELSE IF c.x # "none" /\ c.y # "none" /\ c.epsg # -1
  THEN (32600 < c.epsg /\ c.epsg <= 32660) \/ (32700 < c.epsg /\ c.epsg <= 32760)
  ELSE FALSE

AngleFacts(c) ==
  IF SameBearing(c.delta, FSub(c.a, c.b), "1e-9") /\ FLt("-180.000000001", c.delta) /\ FLe(c.delta, "180.0")
  THEN {} ELSE {"angle_delta"}

TranslateFacts(c) ==
  (IF FNear(Haversine(c.p, c.q), c.dist, "1e-6") THEN {} ELSE {"translate_distance"})
  \union (IF FLe(c.dist, "0.5") \/ SameBearing(Bearing(c.p, c.q), c.bearing, "1e-4") THEN {} ELSE {"translate_bearing"})

TriangleFacts(c) ==
  LET a == Haversine(c.o, c.p)  b == Haversine(c.o, c.q)  d == Haversine(c.p, c.q)
  IN (IF FNear(c.angle, VertexAngle(a, b, d), "1e-4") THEN {} ELSE {"vertex_angle"})
     \union (IF FNear(c.ratio, FDiv(FMax2(a, b), FMin2(a, b)), "1e-6") THEN {} ELSE {"length_ratio"})

Fails(c) ==
  CASE c.kind0 = "site"    -> IF c.res = Outcome(SiteOk(c)) THEN {} ELSE {"site_construction"}
    [] c.kind0 = "link"    -> IF c.res = Outcome(LinkOk(c)) THEN {} ELSE {"link_construction"}
    [] c.kind0 = "place"   -> IF c.res = Outcome(PlaceOk(c)) THEN {} ELSE {"place_construction"}
    [] c.kind0 = "placed"  -> PlaceFacts(c)
    [] c.kind0 = "facts"   -> LinkFacts(c)
    [] c.kind0 = "reverse" -> ReverseFacts(c)
    [] c.kind0 = "ids"     -> IdentityFacts(c)
    [] c.kind0 = "subs"    -> SubscriberFacts(c)
    [] c.kind0 = "angle"   -> AngleFacts(c)
    [] c.kind0 = "translate" -> TranslateFacts(c)
    [] c.kind0 = "triangle" -> TriangleFacts(c)
=============================================================================
