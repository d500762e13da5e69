------------------------------ MODULE Rooftops ------------------------------
(* Building outlines, the areas drawn in KML files, and the sites detected on
   rooftops.  Outlines are sequences of corner points <<x, y>> in eighths of a
   metre (no repeated end point); grids as in module Grid.                   *)
EXTENDS Grid
G == INSTANCE Geometry

Nx(z, k) == IF k = Len(z) THEN 1 ELSE k + 1
Pv(z, k) == IF k = 1 THEN Len(z) ELSE k - 1
\* repeated points say nothing
Tidy(z) == SelectSeq([k \in 1..Len(z) |-> <<z[k], z[Pv(z, k)]>>], LAMBDA q : q[1] # q[2])
Ring(z) == [k \in 1..Len(Tidy(z)) |-> Tidy(z)[k][1]]
Turn(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
OnEdge(p, u, v) == /\ Turn(u, v, p) = 0
                   /\ Min2(u[1], v[1]) <= p[1] /\ p[1] <= Max2(u[1], v[1])
                   /\ Min2(u[2], v[2]) <= p[2] /\ p[2] <= Max2(u[2], v[2])
OnRing(p, z) == \E k \in DOMAIN z : OnEdge(p, z[k], z[Nx(z, k)])
\* the ray from p to the right crosses the edge u-v (half open rule)
RayHits(p, u, v) ==
  /\ (p[2] < u[2]) # (p[2] < v[2])
  /\ IF v[2] > u[2] THEN Turn(u, v, p) > 0 ELSE Turn(u, v, p) < 0
InRing(p, z) == ~OnRing(p, z) /\ Cardinality({k \in DOMAIN z : RayHits(p, z[k], z[Nx(z, k)])}) % 2 = 1

Sum(n, f(_)) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE f(k) + S(k - 1) IN S(n)
\* coordinates relative to the first corner keep the sums small
Rel(z) == [k \in DOMAIN z |-> <<z[k][1] - z[1][1], z[k][2] - z[1][2]>>]
Crossed(z, k) == z[k][1] * z[Nx(z, k)][2] - z[Nx(z, k)][1] * z[k][2]
Area2(z) == LET r == Rel(z) IN Abs(Sum(Len(r), LAMBDA k : Crossed(r, k)))
Centroid(z) ==
  LET r == Rel(z)
      a == FInt(Sum(Len(r), LAMBDA k : Crossed(r, k)))
      m(i) == FSumSeq([k \in 1..Len(r) |-> FMul(FInt(r[k][i] + r[Nx(r, k)][i]), FInt(Crossed(r, k)))])
  IN <<FAdd(FInt(z[1][1]), FDiv(m(1), FMul("3.0", a))), FAdd(FInt(z[1][2]), FDiv(m(2), FMul("3.0", a)))>>
RayHitsF(p, u, v) ==
  /\ FLt(p[2], FInt(u[2])) # FLt(p[2], FInt(v[2]))
  /\ FLt(p[1], FAdd(FInt(u[1]), FDiv(FMul(FSub(p[2], FInt(u[2])), FInt(v[1] - u[1])), FInt(v[2] - u[2]))))
InRingF(p, z) == Cardinality({k \in DOMAIN z : RayHitsF(p, z[k], z[Nx(z, k)])}) % 2 = 1
\* distance of a real point from the edges
Seg(p, u, v) ==
  LET dx == FInt(v[1] - u[1])  dy == FInt(v[2] - u[2])
      l2 == FAdd(FMul(dx, dx), FMul(dy, dy))
      s == FMax2("0.0", FMin2("1.0", FDiv(FAdd(FMul(FSub(p[1], FInt(u[1])), dx), FMul(FSub(p[2], FInt(u[2])), dy)), l2)))
  IN G!Dist2(p[1], p[2], FAdd(FInt(u[1]), FMul(s, dx)), FAdd(FInt(u[2]), FMul(s, dy)))
Rim(p, z) == FMinSeq([k \in 1..Len(z) |-> Seg(p, z[k], z[Nx(z, k)])])

VertexAng(z, k) ==
  LET d(a, b) == FSqrt(FInt(Sq2(a[1] - b[1], a[2] - b[2])))
  IN G!VertexAngle(d(z[k], z[Pv(z, k)]), d(z[k], z[Nx(z, k)]), d(z[Pv(z, k)], z[Nx(z, k)]))
\* corners that must / may count: walls meeting at 30 degrees up to the limit
Must(z, lim) == IF lim = <<>> THEN DOMAIN z
                ELSE {k \in DOMAIN z : FLe("30.02", VertexAng(z, k)) /\ FLe(VertexAng(z, k), FSub(lim[1], "0.02"))}
May(z, lim) == IF lim = <<>> THEN DOMAIN z
               ELSE {k \in DOMAIN z : FLe("29.98", VertexAng(z, k)) /\ FLe(VertexAng(z, k), FAdd(lim[1], "0.02"))}

MinOf(z, i) == CHOOSE m \in {z[k][i] : k \in DOMAIN z} : \A k \in DOMAIN z : m <= z[k][i]
MaxOf(z, i) == CHOOSE m \in {z[k][i] : k \in DOMAIN z} : \A k \in DOMAIN z : m >= z[k][i]
\* the cells of a box (indices first: grids are large)
BoxCells(g, x0, y0, x1, y1) ==
  {p \in (Max2(1, (x0 - g.l) \div g.rx)..Min2(NX(g), (x1 - g.l) \div g.rx + 2))
         \X (Max2(1, (g.t - y1) \div g.ry)..Min2(NY(g), (g.t - y0) \div g.ry + 2)) : InBox(g, p, x0, y0, x1, y1)}

Near2(s, x, y) == FLe(FAbs(FSub(s.x, x)), "0.02") /\ FLe(FAbs(FSub(s.y, y)), "0.02")   \* 2.5 mm
AtPt(s, p) == Near2(s, FInt(p[1]), FInt(p[2]))

-----------------------------------------------------------------------------
(* detection: c.rings, c.surf = <<>> or <<g>>, c.mount, c.lim, c.centers,
   c.highest, c.corners; c.sites[k] = [x, y, alt, b, type]                   *)
Here(c, b) == SelectSeq([k \in 1..Len(c.sites) |-> IF c.sites[k].b = b - 1 THEN k ELSE 0], LAMBDA k : k # 0)
AltIs(c, s, Z) == IF c.surf = <<>> THEN s.alt = "none" ELSE \E z \in Z : s.alt # "none" /\ FNear(s.alt, FAdd(z, c.mount), "1e-4")

Near8(g, s) ==  \* heights at the real place of a site, either cell at a tie
  LET ix(off, r, n) == LET q == FDiv(off, FInt(r)) IN {Clamp(FRound(FAdd(q, e)), 0, n - 1) + 1 : e \in {"-1e-4", "0.0", "1e-4"}}
  IN {At(g, p) : p \in ix(FSub(s.x, FInt(g.l)), g.rx, NX(g)) \X ix(FSub(FInt(g.t), s.y), g.ry, NY(g))}

IsCentre(c, z, s) ==
  LET m == Centroid(z)
      p == <<s.x, s.y>>
      rel == <<FSub(m[1], FInt(z[1][1])), FSub(m[2], FInt(z[1][2]))>>
      relp == <<FSub(p[1], FInt(z[1][1])), FSub(p[2], FInt(z[1][2]))>>
      zz == Rel(z)
  IN /\ \/ Near2(s, m[1], m[2]) /\ (InRingF(rel, zz) \/ FLe(Rim(rel, zz), "0.05"))
        \/ (~InRingF(rel, zz) \/ FLe(Rim(rel, zz), "0.05")) /\ InRingF(relp, zz)
     /\ AltIs(c, s, IF c.surf = <<>> THEN {} ELSE Near8(c.surf[1], s))

IsHighest(c, z, s) ==
  LET g == c.surf[1]
      box == BoxCells(g, MinOf(z, 1), MinOf(z, 2), MaxOf(z, 1), MaxOf(z, 2))
      in == {p \in box : InRing(<<PX(g, p[1]), PY(g, p[2])>>, z)}
      on == {p \in box : OnRing(<<PX(g, p[1]), PY(g, p[2])>>, z)}
  IN \/ in = {} /\ IsCentre(c, z, s)
     \/ \E p \in in \union on :
          /\ AtPt(s, <<PX(g, p[1]), PY(g, p[2])>>)
          /\ AltIs(c, s, {At(g, p)})
          /\ \A q \in in : FLe(At(g, q), At(g, p))

\* the window of cells around a corner and those that stand out in it
Win(g, p) == BoxCells(g, p[1] - 8, p[2] - 8, p[1] + 8, p[2] + 8)
Stands(g, p) == LET W == Win(g, p) IN {q \in W : \E r \in W : /\ r # q /\ Abs(r[1] - q[1]) <= 1 /\ Abs(r[2] - q[2]) <= 1
                                                              /\ FLt("2.0", FSub(At(g, q), At(g, r)))}
CornerZ(g, p) == IF Stands(g, p) # {} THEN {At(g, q) : q \in Stands(g, p)}
                 ELSE {At(g, q) : q \in NearCells(g, p[1], p[2])}
IsCorner(c, z, ks, s) ==
  \E k \in ks : AtPt(s, z[k]) /\ AltIs(c, s, IF c.surf = <<>> THEN {} ELSE CornerZ(c.surf[1], z[k]))

DetectB(c, b) ==
  LET z == Ring(c.rings[b])
      H == Here(c, b)
      n1 == IF c.centers \/ (c.highest /\ c.surf = <<>>) THEN 1 ELSE 0
      n2 == IF c.highest /\ c.surf # <<>> THEN 1 ELSE 0
      must == Must(z, c.lim)  may == May(z, c.lim)
      nmin == IF ~c.corners THEN 0 ELSE IF Cardinality(must) >= 3 THEN 3 ELSE IF must = {} THEN 1 ELSE Cardinality(must)
      nmax == IF ~c.corners THEN 0 ELSE IF Cardinality(may) >= 3 THEN 3 ELSE IF may = {} THEN 1 ELSE Cardinality(may)
      n3 == Len(H) - n1 - n2
      ok == IF may = {} \/ must = {} THEN DOMAIN z ELSE may
      Centres == {k \in DOMAIN H : IsCentre(c, z, c.sites[H[k]])}
      Highs == {k \in DOMAIN H : IsHighest(c, z, c.sites[H[k]])}
      Corners == {k \in DOMAIN H : IsCorner(c, z, ok, c.sites[H[k]])}
      roles(f) == /\ Cardinality({k \in DOMAIN H : f[k] = 1}) = n1 /\ Cardinality({k \in DOMAIN H : f[k] = 2}) = n2
                  /\ \A k \in DOMAIN H : /\ f[k] = 1 => k \in Centres /\ (f[k] = 2 => k \in Highs)
                                         /\ (f[k] = 3 => k \in Corners)
  IN IF n3 < nmin \/ n3 > nmax THEN {"sites_per_building"}
     ELSE (IF \E f \in [DOMAIN H -> {1, 2, 3}] : roles(f) THEN {} ELSE
             {IF n1 = 1 /\ Centres = {} THEN "centre" ELSE IF n2 = 1 /\ Highs = {} THEN "highest" ELSE "corners"})
          \* corners are picked apart
          \union (IF \A i, j \in DOMAIN H : i # j /\ i \in Corners /\ j \in Corners /\ n1 + n2 = 0 =>
                        ~(c.sites[H[i]].x = c.sites[H[j]].x /\ c.sites[H[i]].y = c.sites[H[j]].y) THEN {} ELSE {"corner_twice"})
Detect(c) ==
  IF c.res # "ok" THEN {"detect_crash"}
  ELSE (IF \A k \in DOMAIN c.sites : c.sites[k].b \in 0..(Len(c.rings) - 1) /\ c.sites[k].type = "DN" THEN {} ELSE {"building_of_site"})
       \union UNION {DetectB(c, b) : b \in DOMAIN c.rings}

-----------------------------------------------------------------------------
(* files: c.want = the rings drawn, in order; c.got = the rings read, in the
   units of the file times 10^6 (integers)                                   *)
SameRing(u, v) ==
  /\ Len(u) = Len(v)
  /\ \E s \in 0..(Len(u) - 1) :
       \/ \A k \in DOMAIN u : u[k] = v[((k - 1 + s) % Len(u)) + 1]
       \/ \A k \in DOMAIN u : u[k] = v[((s - (k - 1)) % Len(u)) + 1]
Outline(c) ==
  IF c.refuse THEN (IF c.res = "DataException" \/ (c.res = "ok" /\ c.errors > 0) THEN {} ELSE {"unfit_file_accepted"})
  ELSE IF c.res # "ok" THEN {"file_refused"}
  ELSE (IF c.errors = 0 THEN {} ELSE {"file_complained"})
       \union (IF Len(c.got) = Len(c.want) THEN {} ELSE {"number_of_outlines"})
       \union (IF \A k \in DOMAIN c.want : \E n \in DOMAIN c.got : SameRing(Ring(c.want[k]), Ring(c.got[n])) THEN {} ELSE {"outline_shape"})

-----------------------------------------------------------------------------
(* cutting to the area: c.rings convex (counter clockwise), c.area the ring of
   the area, c.parts convex pieces it consists of, c.joins = where two of the
   pieces meet <<i, j, end, end>>; c.got the rings that remain, c.probes =
   points.  A building may fall into several pieces.                         *)
Side(u, v, p) == FSub(FMul(FInt(v[1] - u[1]), FSub(p[2], FInt(u[2]))), FMul(FInt(v[2] - u[2]), FSub(p[1], FInt(u[1]))))
Mix(p, q, a, b) == LET s == FDiv(a, FSub(a, b)) IN <<FAdd(p[1], FMul(s, FSub(q[1], p[1]))), FAdd(p[2], FMul(s, FSub(q[2], p[2])))>>
Clip1(z, u, v) ==   \* one half plane
  LET RECURSIVE Go(_)
      Go(k) == IF k > Len(z) THEN <<>>
               ELSE LET p == z[k]  q == z[IF k = Len(z) THEN 1 ELSE k + 1]
                        a == Side(u, v, p)  b == Side(u, v, q)
                        pin == FLe("0.0", a)  qin == FLe("0.0", b)
                    IN (IF pin THEN <<p>> ELSE <<>>) \o (IF pin # qin THEN <<Mix(p, q, a, b)>> ELSE <<>>) \o Go(k + 1)
  IN Go(1)
ClipArea(z, a) ==
  LET RECURSIVE Go(_, _)
      Go(w, k) == IF k > Len(a) \/ w = <<>> THEN w ELSE Go(Clip1(w, a[k], a[Nx(a, k)]), k + 1)
      w == Go([k \in 1..Len(z) |-> <<FInt(z[k][1]), FInt(z[k][2])>>], 1)
      n == Len(w)
  IN IF n < 3 THEN "0.0"
     ELSE FAbs(FMul("0.5", FSumSeq([k \in 1..n |->
            LET q == w[IF k = n THEN 1 ELSE k + 1]
            IN FSub(FMul(FSub(w[k][1], w[1][1]), FSub(q[2], w[1][2])), FMul(FSub(q[1], w[1][1]), FSub(w[k][2], w[1][2])))])))
SMALL == "3200.0"      \* 50 square metres
\* length of the segment from u to v inside a convex ring
Within(u, v, z) ==
  LET p == <<FInt(u[1]), FInt(u[2])>>  q == <<FInt(v[1]), FInt(v[2])>>
      RECURSIVE Go(_, _, _)
      Go(k, lo, hi) ==
        IF k > Len(z) THEN FMax2("0.0", FSub(hi, lo))
        ELSE LET a == Side(z[k], z[Nx(z, k)], p)  b == Side(z[k], z[Nx(z, k)], q)
                 s == FDiv(a, FSub(a, b))
             IN IF FLe("0.0", a) /\ FLe("0.0", b) THEN Go(k + 1, lo, hi)
                ELSE IF FLe(a, "0.0") /\ FLe(b, "0.0") THEN "0.0"
                ELSE IF FLt(a, "0.0") THEN Go(k + 1, FMax2(lo, s), hi) ELSE Go(k + 1, lo, FMin2(hi, s))
  IN FMul(G!Dist2(p[1], p[2], q[1], q[2]), Go(1, "0.0", "1.0"))
\* the connected pieces of building k, as sets of parts of the area
Pieces(c, k) ==
  LET on == {i \in DOMAIN c.parts : FLt("0.5", ClipArea(c.rings[k], c.parts[i]))}
      met == {n \in DOMAIN c.joins : FLt("0.001", Within(c.joins[n][3], c.joins[n][4], c.rings[k]))}
      RECURSIVE Grow(_)
      Grow(S) == LET T == S \cup {i \in on : \E n \in met : {c.joins[n][1], c.joins[n][2]} \cap S # {} /\ i \in {c.joins[n][1], c.joins[n][2]}}
                 IN IF T = S THEN S ELSE Grow(T)
  IN {Grow({i}) : i \in on}
\* pieces that hang together by next to nothing are not judged
Shaky(c) == \E k \in DOMAIN c.rings : \E n \in DOMAIN c.joins :
              LET l == Within(c.joins[n][3], c.joins[n][4], c.rings[k]) IN FLt("0.0", l) /\ FLt(l, "2.0")
Cut(c) ==
  IF c.res # "ok" THEN {"cut_crash"}
  ELSE IF Shaky(c) THEN {}
  ELSE LET size(q) == FSumSeq([i \in 1..Len(c.parts) |-> IF i \in q[2] THEN ClipArea(c.rings[q[1]], c.parts[i]) ELSE "0.0"])
           all == UNION {{<<k, s>> : s \in Pieces(c, k)} : k \in DOMAIN c.rings}
           big == {q \in all : FLt(FMul(SMALL, "1.002"), size(q))}
           maybe == {q \in all : FLe(FMul(SMALL, "0.998"), size(q))}
           Inside(p, q) == InRing(p, c.rings[q[1]]) /\ \E i \in q[2] : InRing(p, c.parts[i])
           clear(p, z) == FLt("2.0", Rim(<<FInt(p[1]), FInt(p[2])>>, z))
           Clear(p) == (\A i \in DOMAIN c.parts : clear(p, c.parts[i])) /\ \A k \in DOMAIN c.rings : clear(p, c.rings[k])
           got(p) == {n \in DOMAIN c.got : InRing(p, c.got[n])}
       IN (IF Cardinality(big) <= Len(c.got) /\ Len(c.got) <= Cardinality(maybe) THEN {} ELSE {"outlines_left"})
          \union (IF \A q \in big : \E n \in DOMAIN c.got :
                        FNear(FMul("0.5", FInt(Area2(c.got[n]))), size(q), "0.02")
                  THEN {} ELSE {"outline_area"})
          \union (IF \A i \in DOMAIN c.probes : LET p == c.probes[i] IN Clear(p) =>
                       Cardinality(got(p)) \in Cardinality({q \in big : Inside(p, q)})..Cardinality({q \in maybe : Inside(p, q)})
                  THEN {} ELSE {"outline_place"})

-----------------------------------------------------------------------------
(* zones closed for radio: those drawn wholly inside the area               *)
Whole(z, a) == \A k \in DOMAIN z : InRing(z[k], a)       \* a convex
Zones(c) ==
  IF c.res # "ok" THEN {"zones_crash"}
  ELSE LET in == {k \in DOMAIN c.want : Whole(c.want[k], c.area)}
           want == IF c.ext = "csv" THEN {} ELSE in
       IN (IF Len(c.got) = Cardinality(want) THEN {} ELSE {"number_of_zones"})
          \union (IF \A k \in want : \E n \in DOMAIN c.got : SameRing(Ring(c.want[k]), Ring(c.got[n])) THEN {} ELSE {"zone_shape"})
(* the area of interest: exactly one polygon                                *)
Boundary(c) ==
  IF Len(c.want) # 1 THEN (IF c.res = "DataException" THEN {} ELSE {"not_one_boundary"})
  ELSE IF c.res # "ok" THEN {"boundary_refused"}
  ELSE (IF SameRing(Ring(c.want[1]), Ring(c.got[1])) THEN {} ELSE {"boundary_shape"})
       \union (IF c.epsg = (IF c.south THEN 32700 ELSE 32600) + (FFloor(FDiv(FAdd(c.lon, "180.0"), "6.0")) % 60) + 1
               THEN {} ELSE {"utm_zone"})

RoofFails(c) ==
  CASE c.kind = "detect" -> Detect(c)
    [] c.kind = "outline" -> Outline(c)
    [] c.kind = "cut" -> Cut(c)
    [] c.kind = "zones" -> Zones(c)
    [] c.kind = "boundary" -> Boundary(c)
=============================================================================
