------------------------------ MODULE Geometry ------------------------------
(* Plane and spherical geometry used by every other module.  Reals are the
   decimal strings of module F.                                             *)
EXTENDS F, Integers, Sequences

R_EARTH == "6371000.0"
TOL     == "1e-6"

Sq(a) == FMul(a, a)
\* angle difference a - b in (-180, 180]
AngleDelta(a, b) ==
  LET m == FMod(FSub(a, b), "360.0")
  IN IF FLt("180.0", m) THEN FSub(m, "360.0") ELSE m
AngleDist(a, b) == FAbs(AngleDelta(a, b))
\* the same direction, up to whole turns
SameBearing(a, b, tol) == FLe(AngleDist(a, b), tol)

\* great-circle distance of two points [lat, lon]
Haversine(p, q) ==
  LET dlat == FRad(FSub(q.lat, p.lat))
      dlon == FRad(FSub(q.lon, p.lon))
      h == FAdd(Sq(FSin(FDiv(dlat, "2.0"))),
                FMul(FMul(FCos(FRad(p.lat)), FCos(FRad(q.lat))), Sq(FSin(FDiv(dlon, "2.0")))))
  IN FMul(FMul("2.0", R_EARTH), FAtan2(FSqrt(h), FSqrt(FSub("1.0", h))))

\* initial bearing from p to q, degrees clockwise from north in [0, 360)
Bearing(p, q) ==
  LET dlon == FRad(FSub(q.lon, p.lon))
      x == FMul(FCos(FRad(q.lat)), FSin(dlon))
      y == FSub(FMul(FCos(FRad(p.lat)), FSin(FRad(q.lat))),
                FMul(FMul(FSin(FRad(p.lat)), FCos(FRad(q.lat))), FCos(dlon)))
  IN FMod(FDeg(FAtan2(x, y)), "360.0")

Known(alt) == alt # "none"
\* length of the sight line: 3-D when both altitudes are known
Distance(p, q) ==
  IF Known(p.alt) /\ Known(q.alt)
  THEN FSqrt(FAdd(Sq(Haversine(p, q)), Sq(FSub(p.alt, q.alt))))
  ELSE Haversine(p, q)
Elevation(p, q) ==
  IF Known(p.alt) /\ Known(q.alt) /\ FLt("0.0", Distance(p, q))
  THEN FDeg(FAsin(FDiv(FSub(q.alt, p.alt), Distance(p, q))))
  ELSE "0.0"

Dist2(x0, y0, x1, y1) == FSqrt(FAdd(Sq(FSub(x1, x0)), Sq(FSub(y1, y0))))
\* angle at the vertex between sides of length a and b, opposite side c
VertexAngle(a, b, c) ==
  LET r == FDiv(FSub(FAdd(Sq(a), Sq(b)), Sq(c)), FMul("2.0", FMul(a, b)))
  IN FDeg(FAcos(FMax2("-1.0", FMin2("1.0", r))))
=============================================================================
