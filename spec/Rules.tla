------------------------------- MODULE Rules -------------------------------
(* Deployment rules: angles between links of one site, point-to-multipoint
   limits of a sector.

   c.site[s] = [lat, lon]; c.sec[k] = [site, type, status, channel];
   c.link[l] = [tx, rx, wireless, status, ts, rs]                          *)
EXTENDS Geometry, FiniteSets, TLC

Active == {"PROPOSED", "EXISTING"}
Links(c) == DOMAIN c.link

\* pairs of wireless links {l, m} leaving the same site that compete for it
Pairs(c) ==
  LET use == {l \in Links(c) : c.link[l].wireless /\ (c.active => c.link[l].status \in Active)}
      key(l) == c.link[l]
  IN {p \in use \X use :
        LET a == c.link[p[1]]  b == c.link[p[2]]
        IN /\ p[1] # p[2] /\ a.tx = b.tx /\ a.ts # b.ts
           /\ c.active => c.sec[a.ts].channel = c.sec[b.ts].channel}

Len1(c, l) == Haversine(c.site[c.link[l].tx], c.site[c.link[l].rx])
Angle(c, p) ==
  VertexAngle(Len1(c, p[1]), Len1(c, p[2]), Haversine(c.site[c.link[p[1]].rx], c.site[c.link[p[2]].rx]))
Ratio(c, p) ==
  FDiv(FMax2(Len1(c, p[1]), Len1(c, p[2])), FMin2(Len1(c, p[1]), Len1(c, p[2])))

ATOL == "1e-3"
Under(x, lim, tol) == FLe(x, FSub(lim, tol)) \/ FLe("180.0", lim)
Over(x, lim, tol)  == FLt(FAdd(lim, tol), x) /\ FLt(lim, "180.0")
Reach(x, lim) == FLe(FAdd(lim, "1e-6"), x) \/ FLe(lim, "1.0")
Short(x, lim) == FLt(x, FSub(lim, "1e-6")) /\ FLt("1.0", lim)

Triplet(c, p) == [at |-> c.link[p[1]].tx, ends |-> {c.link[p[1]].rx, c.link[p[2]].rx}]
Got(seq) == [k \in DOMAIN seq |-> [at |-> seq[k][1], ends |-> {seq[k][2], seq[k][3]}]]
Count(seq, x) == Cardinality({k \in DOMAIN seq : seq[k] = x})

AngleFails(c) ==
  LET P    == Pairs(c)
      ang  == [p \in P |-> Angle(c, p)]
      rat  == [p \in P |-> Ratio(c, p)]
      diff == Got(c.diff)
      near == Got(c.near)
      \* P holds each pair in both orders
      must(p, seq) == 2 * Count(seq, Triplet(c, p)) = Cardinality({q \in P : Triplet(c, q) = Triplet(c, p)})
      surely_near(p) == Over(ang[p], c.limit, ATOL) /\ Under(ang[p], c.nf, ATOL) /\ Reach(rat[p], c.ratio)
      never_near(p)  == Under(ang[p], c.limit, ATOL) \/ Over(ang[p], c.nf, ATOL) \/ Short(rat[p], c.ratio)
      trip == {Triplet(c, p) : p \in P}
  IN (IF \A p \in P : Under(ang[p], c.limit, ATOL) => must(p, diff) THEN {} ELSE {"angle_violation_missed"})
     \union (IF \A p \in P : Over(ang[p], c.limit, ATOL) => Count(diff, Triplet(c, p)) = 0 THEN {} ELSE {"angle_violation_invented"})
     \union (IF \A p \in P : surely_near(p) => must(p, near) THEN {} ELSE {"near_far_missed"})
     \union (IF \A p \in P : never_near(p) => Count(near, Triplet(c, p)) = 0 THEN {} ELSE {"near_far_invented"})
     \union (IF \A k \in DOMAIN diff : diff[k] \in trip THEN {} ELSE {"not_a_pair"})
     \union (IF \A k \in DOMAIN near : near[k] \in trip THEN {} ELSE {"not_a_pair"})

\* links named by reported triplets: both links, in both directions
NamedFails(c) ==
  LET want == {l \in Links(c) : \E k \in DOMAIN c.trip :
                 \E e \in {c.trip[k][2], c.trip[k][3]} :
                    {c.link[l].tx, c.link[l].rx} = {c.trip[k][1], e}}
      got == {c.named[k] : k \in DOMAIN c.named}
  IN (IF want \subseteq got THEN {} ELSE {"violating_link_not_named"})
     \union (IF got \subseteq want THEN {} ELSE {"innocent_link_named"})

Driven(c, k) == {l \in Links(c) : c.link[l].wireless /\ c.link[l].ts = k /\ c.link[l].rs # "none"}
On(c, k, ty) == {l \in Driven(c, k) : c.link[l].status \in Active /\ c.sec[c.link[l].rs].type = ty}
Overloaded(c, k) ==
  /\ c.sec[k].type = "DN" /\ c.sec[k].status \in Active
  /\ \/ Cardinality(On(c, k, "DN")) > c.dn_limit
     \/ Cardinality(On(c, k, "DN")) + Cardinality(On(c, k, "CN")) > c.total_limit

LimitFails(c) ==
  LET want == {k \in DOMAIN c.sec : Overloaded(c, k)}
      got  == {c.over[i].sector : i \in DOMAIN c.over}
      ends(i) == {c.over[i].rx[j] : j \in DOMAIN c.over[i].rx}
  IN (IF want \subseteq got THEN {} ELSE {"overload_missed"})
     \union (IF got \subseteq want THEN {} ELSE {"overload_invented"})
     \union (IF \A i \in DOMAIN c.over :
                  LET k == c.over[i].sector
                  IN k \in want =>
                       /\ {c.link[l].rs : l \in On(c, k, "DN") \union On(c, k, "CN")} \subseteq ends(i)
                       /\ ends(i) \subseteq {c.link[l].rs : l \in Driven(c, k)}
             THEN {} ELSE {"overload_partners_wrong"})

Fails(c) ==
  CASE c.kind = "angles" -> AngleFails(c)
    [] c.kind = "named"  -> NamedFails(c)
    [] c.kind = "limits" -> LimitFails(c)
    [] c.kind = "crash"  -> {"crash_" \o c.what}
=============================================================================
