------------------------------- MODULE Sight -------------------------------
(* Line of sight between candidate sites over a surface of elevation columns.

   c.sites[i] = [x, y, alt, roof, bld]     (bld = -1: building not known)
   c.links[k] = <<i, j, both>>             candidate links to be validated
   c.zones[k] = corner points of an exclusion zone
   c.surf     = <<>> or <<[x0, y0, dx, dy, z]>>, z[row][col] the top of the
                column at x0 + dx*(col-1), y0 - dy*(row-1)
   c.max, c.min, c.el, c.thr, c.ell, c.radius, c.freq  the configuration
   c.got[k]   = <<i, j, confidence>>       accepted links                    *)
EXTENDS Geometry, FiniteSets, TLC

\* distances are first judged on the map projection, hence slightly wider
\* bounds than configured (the exact check follows when links are made)
MaxDist(c) == FMul(c.max, "1.02")
MinDist(c) == FMul(c.min, "0.98")
MaxEl(c)   == FMin2(FAdd(c.el, "2.0"), "90.0")

HasAlt(s) == s.alt # "none"
Rise(a, b) == IF HasAlt(a) /\ HasAlt(b) THEN FSub(b.alt, a.alt) ELSE "0.0"
Flat(a, b) == Dist2(a.x, a.y, b.x, b.y)
Span(a, b)  == FSqrt(FAdd(Sq(Flat(a, b)), Sq(Rise(a, b))))
Climb(a, b) == FDeg(FAsin(FDiv(FAbs(Rise(a, b)), Span(a, b))))

-----------------------------------------------------------------------------
(* exclusion zones *)
Cross(p, q, r) == FSub(FMul(FSub(q.x, p.x), FSub(r.y, p.y)), FMul(FSub(q.y, p.y), FSub(r.x, p.x)))
Opposite(u, v) == FLt(FMul(u, v), "0.0")
Meet(p, q, r, s) ==
  Opposite(Cross(p, q, r), Cross(p, q, s)) /\ Opposite(Cross(r, s, p), Cross(r, s, q))
Next1(z, k) == IF k = Cardinality(DOMAIN z) THEN 1 ELSE k + 1
\* a ray from p to the right crosses the edge u-v
RayHits(p, u, v) ==
  /\ FLt(p.y, u.y) # FLt(p.y, v.y)
  /\ FLt(p.x, FAdd(u.x, FDiv(FMul(FSub(p.y, u.y), FSub(v.x, u.x)), FSub(v.y, u.y))))
Inside(p, z) == Cardinality({k \in DOMAIN z : RayHits(p, z[k], z[Next1(z, k)])}) % 2 = 1
Crosses(a, b, z) ==
  Inside(a, z) \/ Inside(b, z) \/ \E k \in DOMAIN z : Meet(a, b, z[k], z[Next1(z, k)])

-----------------------------------------------------------------------------
(* a pair that can never be a link / is a link if nothing stands in the way.
   Within rounding of a limit both answers are right.                       *)
EDGE == "1e-7"
SameSpot(a, b) == a.x = b.x /\ a.y = b.y
Barred(c, a, b) ==
  \/ SameSpot(a, b)
  \/ a.roof /\ b.roof /\ a.bld = b.bld /\ a.bld # -1
  \/ \E k \in DOMAIN c.zones : Crosses(a, b, c.zones[k])
Refused(c, a, b) ==
  \/ Barred(c, a, b)
  \/ FLt(FMul(MaxDist(c), "1.0000001"), Span(a, b))
  \/ FLt(Span(a, b), FMul(MinDist(c), "0.9999999"))
  \/ FLt(FAdd(MaxEl(c), EDGE), Climb(a, b))
Eligible(c, a, b) ==
  /\ ~Barred(c, a, b)
  /\ FLe(Span(a, b), FMul(MaxDist(c), "0.9999999"))
  /\ FLe(FMul(MinDist(c), "1.0000001"), Span(a, b))
  /\ FLe(Climb(a, b), FSub(MaxEl(c), EDGE))

-----------------------------------------------------------------------------
(* Clearance.  Points are taken relative to the end a: along = distance from
   a along the ground track, aside = distance from the track.               *)
Along(a, b, p) == FDiv(FAdd(FMul(FSub(p.x, a.x), FSub(b.x, a.x)), FMul(FSub(p.y, a.y), FSub(b.y, a.y))), Flat(a, b))
Aside(a, b, p) == FDiv(FAbs(Cross(a, b, p)), Flat(a, b))
\* height of the column above (+) or below (-) the sight line
Above(a, b, p) == FSub(p.z, FAdd(a.alt, FMul(FDiv(Along(a, b, p), Flat(a, b)), Rise(a, b))))

ZoneRadius(c, a, b) ==
  IF c.ell THEN FMul("8.65725790883", FSqrt(FDiv(Span(a, b), c.freq))) ELSE c.radius

\* cylinder: clearance of one column; "inf" if it is beside neither the line
\* nor its ends
CylClear(a, b, p) ==
  LET q == Above(a, b, p)
      cosb == FDiv(Flat(a, b), Span(a, b))
      sinb == FDiv(Rise(a, b), Span(a, b))
      foot == FAdd(FMul(Along(a, b, p), cosb), FMul(FSub(p.z, a.alt), sinb))
  IN IF FLt("0.0", q) THEN Aside(a, b, p)
     ELSE IF FLt(foot, "0.0") \/ FLt(Span(a, b), foot) THEN "inf"
     ELSE FSqrt(FAdd(Sq(Aside(a, b, p)), Sq(FMul(q, cosb))))
CylFoot(a, b, p) ==
  FAdd(FMul(Along(a, b, p), FDiv(Flat(a, b), Span(a, b))), FMul(FSub(p.z, a.alt), FDiv(Rise(a, b), Span(a, b))))

\* ellipsoid: radius of the largest zone (same foci axis) touching the column
EllClear(a, b, p) ==
  LET q  == Above(a, b, p)
      h  == FDiv(Flat(a, b), "2.0")
      al == FDiv(FSub(Along(a, b, p), h), h)
      D  == FDiv(Span(a, b), "2.0")
      cosb == FDiv(Flat(a, b), Span(a, b))
      sinb == FDiv(Rise(a, b), Span(a, b))
      al3 == FDiv(FAdd(FMul(al, D), FMul(q, sinb)), D)
      perp == FAdd(Sq(Aside(a, b, p)), Sq(FMul(q, cosb)))
  IN IF FLe("0.0", q)
     THEN IF FLe("0.999999999", Sq(al)) THEN "0.0"   \* on the rim: undetermined
          ELSE FDiv(Aside(a, b, p), FSqrt(FSub("1.0", Sq(al))))
     ELSE IF FLe("1.0", Sq(al3)) THEN "inf"
     ELSE FSqrt(FDiv(perp, FSub("1.0", Sq(al3))))

\* the columns that can matter: ground position inside the zone's shadow
\* ("in"), on its rim within rounding ("rim"), or outside ("out")
RIM == "1e-6"
Where(c, a, b, p, R) ==
  LET t == FDiv(Along(a, b, p), Flat(a, b))
      w == Aside(a, b, p)
      e == FAdd(Sq(FSub(FMul("2.0", t), "1.0")), Sq(FDiv(w, R)))
      foot == CylFoot(a, b, p)
      below == FLe(Above(a, b, p), RIM)
  IN IF c.ell
     THEN IF FLt(FAdd("1.0", RIM), e) THEN "out"
          ELSE IF FLt(e, FSub("1.0", RIM)) THEN "in" ELSE "rim"
     ELSE IF FLt(FAdd(R, RIM), w) \/ FLt(t, FNeg(RIM)) \/ FLt(FAdd("1.0", RIM), t) THEN "out"
          ELSE IF FLt(w, FSub(R, RIM)) /\ FLt(RIM, t) /\ FLt(t, FSub("1.0", RIM))
                  /\ ~(below /\ (FLe(FAbs(foot), RIM) \/ FLe(FAbs(FSub(foot, Span(a, b))), RIM)))
               THEN "in" ELSE "rim"

Columns(c, a, b, R) ==
  LET s == c.surf[1]
      reach == FAdd(R, RIM)
      lox == FSub(FMin2(a.x, b.x), reach)  hix == FAdd(FMax2(a.x, b.x), reach)
      loy == FSub(FMin2(a.y, b.y), reach)  hiy == FAdd(FMax2(a.y, b.y), reach)
      X(k) == FAdd(s.x0, FMul(s.dx, FInt(k - 1)))
      Y(r) == FSub(s.y0, FMul(s.dy, FInt(r - 1)))
      rows == {r \in DOMAIN s.z : FLe(loy, Y(r)) /\ FLe(Y(r), hiy)}
      cols == {k \in DOMAIN s.z[1] : FLe(lox, X(k)) /\ FLe(X(k), hix)}
  IN {[x |-> X(k), y |-> Y(r), z |-> s.z[r][k]] : r \in rows, k \in cols}

\* [lo, hi, sure]: the confidence lies in [lo, hi]; "none" possible iff ~sure
JudgedOn(c, a, b, P) ==
  LET R    == ZoneRadius(c, a, b)
      pos  == [p \in P |-> Where(c, a, b, p, R)]
      near == {p \in P : pos[p] # "out"}
      free == [p \in near |-> FDiv(IF c.ell THEN EllClear(a, b, p) ELSE CylClear(a, b, p), R)]
      clr  == [p \in near |-> FMin2("1.0", free[p])]
      firm == {p \in near : pos[p] = "in"}
      slack == IF c.ell /\ FLt("1e-9", FAbs(Rise(a, b))) THEN "0.02" ELSE "1e-6"
      least(S) == IF S = {} THEN "1.0" ELSE LET m == CHOOSE p \in S : \A q \in S : FLe(clr[p], clr[q]) IN clr[m]
  IN [ hi |-> least(firm),
       lo |-> IF firm = near THEN least(firm) ELSE least({p \in near : FIsFinite(clr[p])}),
       blocked |-> \E p \in firm : FLt(clr[p], FSub(c.thr, slack)),
       clear   |-> \A p \in near : FLt(FAdd(c.thr, "1e-6"), free[p]) ]

Judged(c, a, b) == JudgedOn(c, a, b, Columns(c, a, b, ZoneRadius(c, a, b)))

\* the verdict on a pair: may it be absent, may it be present with value v
MayRefuse(c, a, b, j) ==
  \/ ~Eligible(c, a, b)
  \/ c.surf # <<>> /\ ~j.clear
MayAccept(c, a, b, j, v) ==
  /\ ~Refused(c, a, b)
  /\ IF c.surf = <<>> THEN v = "1.0"
     ELSE ~j.blocked /\ FLe(FSub(j.lo, "1e-6"), v) /\ FLe(v, FAdd(j.hi, "1e-6"))

BatchFails(c) ==
  LET n == Cardinality(DOMAIN c.got)
      hits(i, j) == {k \in DOMAIN c.got : c.got[k][1] = i /\ c.got[k][2] = j}
      asked(i, j) == {k \in DOMAIN c.links : <<c.links[k][1], c.links[k][2]>> = <<i, j>>
                                            \/ (c.links[k][3] /\ <<c.links[k][2], c.links[k][1]>> = <<i, j>>)}
      one(k) ==
        LET i == c.links[k][1]  j == c.links[k][2]
            a == c.sites[i]  b == c.sites[j]
            h == hits(i, j)
            back == hits(j, i)
            g == IF Refused(c, a, b) \/ c.surf = <<>> THEN [blocked |-> TRUE] ELSE Judged(c, a, b)
        IN IF h = {} THEN
             (IF MayRefuse(c, a, b, g) THEN {} ELSE {"sight_missed"})
             \union (IF c.links[k][3] /\ back # {} THEN {"one_direction_only"} ELSE {})
           ELSE
             (IF Refused(c, a, b) THEN {"link_that_cannot_be"}
              ELSE IF \A m \in h : MayAccept(c, a, b, g, c.got[m][3]) THEN {}
              ELSE IF c.surf # <<>> /\ g.blocked THEN {"blocked_sight_accepted"}
              ELSE {"confidence"})
             \union (IF c.links[k][3] /\ (back = {} \/ \E m \in h, p \in back : c.got[m][3] # c.got[p][3])
                     THEN {"directions_differ"} ELSE {})
  IN UNION {one(k) : k \in DOMAIN c.links}
     \union (IF \A k \in 1..n : asked(c.got[k][1], c.got[k][2]) # {} THEN {} ELSE {"link_not_asked_for"})
     \union (IF \A k \in 1..n : \A m \in 1..n : k # m => <<c.got[k][1], c.got[k][2]>> # <<c.got[m][1], c.got[m][2]>>
             THEN {} ELSE {"link_twice"})

\* two runs that differ only in the order of the ends, or in a surface that is
\* nowhere lower in the second
SameFails(c) ==
  IF {<<c.one[k][1], c.one[k][2]>> : k \in DOMAIN c.one} = {<<c.two[k][1], c.two[k][2]>> : k \in DOMAIN c.two}
     /\ \A k \in DOMAIN c.one, m \in DOMAIN c.two :
          <<c.one[k][1], c.one[k][2]>> = <<c.two[m][1], c.two[m][2]>> => FNear(c.one[k][3], c.two[m][3], "1e-9")
  THEN {} ELSE {c.what}
GrowFails(c) ==
  IF \A m \in DOMAIN c.two : \E k \in DOMAIN c.one :
       /\ <<c.one[k][1], c.one[k][2]>> = <<c.two[m][1], c.two[m][2]>>
       /\ FLe(c.two[m][3], FAdd(c.one[k][3], c.slack))
  THEN {} ELSE {"obstruction_improves_sight"}

SightFails(c) == CASE c.kind = "batch" -> BatchFails(c)
              [] c.kind = "same"  -> SameFails(c)
              [] c.kind = "grow"  -> GrowFails(c)
              [] c.kind = "crash" -> {"crash"}
=============================================================================
