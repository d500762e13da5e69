-------------------------------- MODULE Grid --------------------------------
(* Elevation grids.  Lengths are whole numbers of eighths of a metre, heights
   are Reals of module F.

   A grid g = [l, t, rx, ry, v, box]: v[j][i] is the height at the position
   (l + (i-1) rx, t - (j-1) ry); NODATA marks a cell without a height (a
   hole).  A hole that is asked for a height is filled from then on.        *)
EXTENDS F, Integers, Sequences, FiniteSets, TLC

NODATA == "-32768.0"
RADIUS == 400                     \* 50 m: how far a height is borrowed
Same(a, b) == FNear(a, b, "1e-5")
Hole(z) == Same(z, NODATA)

NX(g) == Len(g.v[1])
NY(g) == Len(g.v)
Cells(g) == (1..NX(g)) \X (1..NY(g))
PX(g, i) == g.l + (i - 1) * g.rx
PY(g, j) == g.t - (j - 1) * g.ry
At(g, p) == g.v[p[2]][p[1]]
Valid(g) == {p \in Cells(g) : ~Hole(At(g, p))}
Abs(n) == IF n < 0 THEN -n ELSE n
Clamp(n, lo, hi) == IF n < lo THEN lo ELSE IF n > hi THEN hi ELSE n

\* indices nearest to a place (two at a tie); beyond the rim the last one
NearIdx(off, r, n) ==
  LET q == off \div r  m == off % r
      raw == (IF 2 * m <= r THEN {q} ELSE {}) \union (IF 2 * m >= r THEN {q + 1} ELSE {})
  IN {Clamp(k, 0, n - 1) + 1 : k \in raw}
NearCells(g, x, y) == NearIdx(x - g.l, g.rx, NX(g)) \X NearIdx(g.t - y, g.ry, NY(g))

Sq2(a, b) == a * a + b * b
D2(g, p, x, y) == Sq2(PX(g, p[1]) - x, PY(g, p[2]) - y)
MinD(S, g, x, y) == LET d == {D2(g, p, x, y) : p \in S} IN CHOOSE m \in d : \A n \in d : m <= n
Mean(g) ==
  LET RECURSIVE Sum(_)
      Sum(S) == IF S = {} THEN "0.0" ELSE LET p == CHOOSE p \in S : TRUE IN FAdd(At(g, p), Sum(S \ {p}))
  IN FDiv(Sum(Valid(g)), FInt(Cardinality(Valid(g))))
\* heights that may be borrowed for a place: those of the nearest cells that
\* have one, the mean height if none is within reach
Borrow(src, x, y) ==
  LET m == MinD(Valid(src), src, x, y)
  IN (IF m <= RADIUS * RADIUS THEN {At(src, p) : p \in {q \in Valid(src) : D2(src, q, x, y) = m}} ELSE {})
     \union (IF m >= RADIUS * RADIUS THEN {Mean(src)} ELSE {})
\* what a cell answers when asked about (x, y)
Answer(s, p, x, y) == IF Hole(At(s.g, p)) THEN Borrow(s.src, x, y) ELSE {At(s.g, p)}
Answers(s, x, y) == UNION {Answer(s, p, x, y) : p \in NearCells(s.g, x, y)}
OneOf(z, Z) == \E w \in Z : Same(z, w)

\* the state after the place was asked and answered z
Fill(s, x, y, z) ==
  LET C == {p \in NearCells(s.g, x, y) : Hole(At(s.g, p))}
  IN IF C = {} \/ Cardinality(NearCells(s.g, x, y)) > 1 THEN s
     ELSE LET p == CHOOSE p \in C : TRUE IN [s EXCEPT !.g.v[p[2]][p[1]] = z]

Frame(g) == <<g.l, g.t, g.rx, g.ry, NX(g), NY(g)>>
SameGrid(a, b) == Frame(a) = Frame(b) /\ \A p \in Cells(a) : Same(At(a, p), At(b, p))

Sorted(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>
InBox(g, p, x0, y0, x1, y1) == x0 <= PX(g, p[1]) /\ PX(g, p[1]) <= x1 /\ y0 <= PY(g, p[2]) /\ PY(g, p[2]) <= y1

-----------------------------------------------------------------------------
(* One question and its recorded answer: the clauses it breaks.             *)
Bad(s, o) ==
  CASE o.k = "value" ->
         IF Valid(s.src) = {} /\ \E p \in NearCells(s.g, o.x, o.y) : Hole(At(s.g, p))
         THEN (IF o.res = "DataException" THEN {} ELSE {"no_height_at_all"})
         ELSE IF o.res # "ok" THEN {"value_crash"}
         ELSE IF OneOf(o.z, Answers(s, o.x, o.y)) THEN {} ELSE {"value_at_place"}
    [] o.k = "near" ->
         IF o.res # "ok" THEN {"near_crash"}
         ELSE IF \A k \in DOMAIN o.pts : \/ OneOf(o.z[k], Borrow(s.src, o.pts[k][1], o.pts[k][2]))
                                         \/ s.moved /\ OneOf(o.z[k], Borrow(s.g, o.pts[k][1], o.pts[k][2]))
         THEN {} ELSE {"nearest_height"}
    [] o.k = "list" ->
         IF o.res # "ok" THEN (IF Valid(s.g) = {} /\ o.res = "DataException" THEN {} ELSE {"list_crash"})
         ELSE (IF Len(o.pts) = Cardinality(Valid(s.g)) THEN {} ELSE {"list_size"})
              \union (IF \A p \in Valid(s.g) : \E k \in DOMAIN o.pts :
                           o.pts[k][1] = PX(s.g, p[1]) /\ o.pts[k][2] = PY(s.g, p[2]) /\ Same(o.z[k], At(s.g, p))
                      THEN {} ELSE {"list_points"})
    [] o.k = "within" ->
         IF o.res # "ok" THEN {"within_crash"}
         ELSE (IF \A p \in Cells(s.g) : InBox(s.g, p, o.x0, o.y0, o.x1, o.y1) =>
                     Cardinality({k \in DOMAIN o.pts : o.pts[k] = <<PX(s.g, p[1]), PY(s.g, p[2])>>}) = 1
               THEN {} ELSE {"within_complete"})
              \union (IF \A k \in DOMAIN o.pts :
                           /\ o.x0 <= o.pts[k][1] /\ o.pts[k][1] <= o.x1 /\ o.y0 <= o.pts[k][2] /\ o.pts[k][2] <= o.y1
                           /\ (o.pts[k][1] - s.g.l) % s.g.rx = 0 /\ (s.g.t - o.pts[k][2]) % s.g.ry = 0
                           \* places off the grid fill the hole they ask about, hence any later answer
                           /\ \/ OneOf(o.z[k], Answers(s, o.pts[k][1], o.pts[k][2]))
                              \/ \E n \in 1..(k - 1) : /\ NearCells(s.g, o.pts[n][1], o.pts[n][2]) = NearCells(s.g, o.pts[k][1], o.pts[k][2])
                                                      /\ Same(o.z[k], o.z[n])
                      THEN {} ELSE {"within_sound"})
    [] o.k = "matrix" ->
         LET In == {p \in Cells(s.g) : InBox(s.g, p, o.x0, o.y0, o.x1, o.y1)}
             lo == CHOOSE p \in In : \A q \in In : p[1] <= q[1] /\ p[2] <= q[2]
             hi == CHOOSE p \in In : \A q \in In : p[1] >= q[1] /\ p[2] >= q[2]
         IN IF o.res # "ok" THEN (IF o.res = "DataException" /\ In = {} /\ Valid(s.src) = {} THEN {} ELSE {"matrix_crash"})
            ELSE IF In = {}
            THEN (IF Len(o.m) = 1 /\ Len(o.m[1]) = 1 /\ OneOf(o.m[1][1], Answers(s, o.x0, o.y0)) THEN {} ELSE {"matrix_off_grid"})
            ELSE (IF /\ Len(o.m) = hi[2] - lo[2] + 1 /\ Len(o.m[1]) = hi[1] - lo[1] + 1
                     /\ \A j \in DOMAIN o.m : \A i \in DOMAIN o.m[j] : Same(o.m[j][i], s.g.v[lo[2] + j - 1][lo[1] + i - 1])
                  THEN {} ELSE {"matrix_of_bound"})
    [] o.k = "columns" ->
         \* all columns in the rectangle that satisfy the caller's filter
         LET b == s.g.box  X == Sorted(o.x0, o.x1)  Y == Sorted(o.y0, o.y1)
             x0 == Clamp(X[1], b.x0, b.x1)  x1 == Clamp(X[2], b.x0, b.x1)
             y0 == Clamp(Y[1], b.y0, b.y1)  y1 == Clamp(Y[2], b.y0, b.y1)
             Keep(x, y) == Sq2(x - o.cx, y - o.cy) <= o.rad * o.rad
             is(k, p) == o.pts[k] = <<PX(s.g, p[1]), PY(s.g, p[2])>> /\ Same(o.z[k], At(s.g, p))
         IN IF o.res # "ok" THEN {"columns_crash"}
            ELSE (IF \A p \in Cells(s.g) :
                        InBox(s.g, p, x0, y0, x1, y1) /\ Keep(PX(s.g, p[1]), PY(s.g, p[2])) =>
                          Cardinality({k \in DOMAIN o.pts : is(k, p)}) = 1
                  THEN {} ELSE {"columns_complete"})
                 \union (IF \A k \in DOMAIN o.pts :
                              /\ Keep(o.pts[k][1], o.pts[k][2])
                              /\ \E p \in Cells(s.g) : is(k, p)
                         THEN {} ELSE {"columns_sound"})
    [] o.k = "resample" ->
         LET h == o.g
         IN IF o.res # "ok" THEN (IF Valid(s.src) = {} /\ o.res = "DataException" THEN {} ELSE {"resample_crash"})
            ELSE (IF h.l = s.g.l /\ h.t = s.g.t /\ h.rx = o.rx /\ h.ry = o.ry THEN {} ELSE {"resample_frame"})
                 \union (IF \/ o.rx = s.g.rx /\ o.ry = s.g.ry /\ Frame(h) = Frame(s.g)
                            \/ LET lx == h.l + (NX(h) - 1) * h.rx  ly == h.t - (NY(h) - 1) * h.ry
                               IN /\ 2 * lx >= 2 * s.g.box.x1 - h.rx /\ 2 * lx < 2 * s.g.box.x1 + h.rx
                                  /\ 2 * ly <= 2 * s.g.box.y0 + h.ry /\ 2 * ly > 2 * s.g.box.y0 - h.ry
                         THEN {} ELSE {"resample_covers"})
                 \union (IF o.rx = s.g.rx /\ o.ry = s.g.ry
                         THEN (IF SameGrid(h, s.g) THEN {} ELSE {"resample_values"})
                         \* a hole may be asked from several new positions: the first answer stays
                         ELSE IF \A p \in Cells(h) :
                                   LET N == NearCells(s.g, PX(h, p[1]), PY(h, p[2]))
                                   IN \E q \in N : IF ~Hole(At(s.g, q)) THEN Same(At(h, p), At(s.g, q))
                                                   ELSE \E n \in Cells(h) : /\ q \in NearCells(s.g, PX(h, n[1]), PY(h, n[2]))
                                                                            /\ OneOf(At(h, p), Borrow(s.src, PX(h, n[1]), PY(h, n[2])))
                              THEN {} ELSE {"resample_values"})
    [] o.k = "sum" ->
         LET h == o.with
             z(p) == IF Hole(At(s.g, p)) \/ Hole(At(h, p)) THEN NODATA
                     ELSE IF o.minus THEN FSub(At(s.g, p), At(h, p)) ELSE FAdd(At(s.g, p), At(h, p))
         IN IF Frame(h) # Frame(s.g) THEN (IF o.res = "DataException" THEN {} ELSE {"sum_of_unlike_grids"})
            ELSE IF o.res # "ok" THEN {"sum_crash"}
            ELSE IF Frame(o.g) = Frame(s.g) /\ \A p \in Cells(s.g) : Same(At(o.g, p), z(p)) THEN {} ELSE {"sum_values"}

After(s, o) ==
  IF o.res # "ok" THEN s
  ELSE CASE o.k = "value" -> Fill(s, o.x, o.y, o.z)
         [] o.k = "within" ->
              LET RECURSIVE All(_, _)
                  All(q, k) == IF k > Len(o.pts) THEN q ELSE All(Fill(q, o.pts[k][1], o.pts[k][2], o.z[k]), k + 1)
              IN All(s, 1)
         [] o.k = "matrix" /\ {p \in Cells(s.g) : InBox(s.g, p, o.x0, o.y0, o.x1, o.y1)} = {} -> Fill(s, o.x0, o.y0, o.m[1][1])
         [] o.k = "resample" -> [s EXCEPT !.g = o.g, !.moved = TRUE]
         [] o.k = "sum" -> [g |-> o.g, src |-> o.g, moved |-> FALSE]
         [] OTHER -> s

Start(g) == [g |-> g, src |-> g, moved |-> FALSE]
RECURSIVE Course(_, _, _)
Course(s, ops, k) ==
  IF k > Len(ops) THEN {}
  ELSE LET b == Bad(s, ops[k]) IN IF b # {} THEN b ELSE Course(After(s, ops[k]), ops, k + 1)

-----------------------------------------------------------------------------
(* two grids brought to one frame: c.a, c.b before, c.a2, c.b2 after        *)
Around(g, x, y, dx, dy) ==
  LET lo(off, r, n, d) == Clamp((off - d + r - 1) \div r, 0, n - 1) + 1
      hi(off, r, n, d) == Clamp((off + d) \div r, 0, n - 1) + 1
  IN (lo(x - g.l, g.rx, NX(g), dx)..hi(x - g.l, g.rx, NX(g), dx))
     \X (lo(g.t - y, g.ry, NY(g), dy)..hi(g.t - y, g.ry, NY(g), dy))
Half(r) == (r + 1) \div 2
Carried(g, h) ==     \* every height of h is one that g has there
  \A p \in Cells(h) :
    \E q \in Around(g, PX(h, p[1]), PY(h, p[2]), Half(g.rx) + Half(h.rx), Half(g.ry) + Half(h.ry)) :
      \/ Same(At(h, p), At(g, q))
      \/ Hole(At(g, q)) /\ \E w \in Valid(g) : Same(At(h, p), At(g, w))
Aligned(c) ==
  IF c.res # "ok" THEN {"align_crash"}
  ELSE LET mx == IF c.a.rx < c.b.rx THEN c.a.rx ELSE c.b.rx
           my == IF c.a.ry < c.b.ry THEN c.a.ry ELSE c.b.ry
       IN (IF c.a2.rx = mx /\ c.b2.rx = mx /\ c.a2.ry = my /\ c.b2.ry = my THEN {} ELSE {"align_resolution"})
          \union (IF Frame(c.a2) = Frame(c.b2) THEN {} ELSE {"align_frame"})
          \union (IF Carried(c.a, c.a2) /\ Carried(c.b, c.b2) THEN {} ELSE {"align_values"})
          \union (IF c.sum = "ok" THEN {} ELSE {"align_then_add"})

(* a grid read from files: c.tiles on one lattice, c.box the area, c.g      *)
Covers(t, x, y) == t.l <= x /\ x < t.l + NX(t) * t.rx /\ t.t >= y /\ y > t.t - NY(t) * t.ry
TileAt(t, x, y) == At(t, <<((x - t.l) \div t.rx) + 1, ((t.t - y) \div t.ry) + 1>>)
Read(c) ==
  IF c.res # "ok" THEN {"read_crash"}
  ELSE LET g == c.g  t0 == c.tiles[1]
       IN (IF g.rx = t0.rx /\ g.ry = t0.ry /\ (g.l - t0.l) % g.rx = 0 /\ (g.t - t0.t) % g.ry = 0 THEN {} ELSE {"read_lattice"})
          \union (IF /\ Abs(g.l - c.box.x0) < g.rx /\ Abs(g.t - c.box.y1) < g.ry
                     /\ 2 * Abs(g.l + NX(g) * g.rx - c.box.x1) < 3 * g.rx /\ 2 * Abs(g.t - NY(g) * g.ry - c.box.y0) < 3 * g.ry
                  THEN {} ELSE {"read_area"})
          \union (IF g.box = c.box THEN {} ELSE {"read_box"})
          \union (IF \A p \in Cells(g) :
                       LET x == PX(g, p[1])  y == PY(g, p[2])
                           T == {k \in DOMAIN c.tiles : Covers(c.tiles[k], x, y) /\ ~Hole(TileAt(c.tiles[k], x, y))}
                       IN IF T = {} THEN Hole(At(g, p)) ELSE \E k \in T : Same(At(g, p), TileAt(c.tiles[k], x, y))
                  THEN {} ELSE {"read_heights"})

(* DTM + DHM make the DSM, DSM - DHM the DTM: c.probes = [x, y, dsm, dtm],
   judged up to one cell of every file                                      *)
Vals(g, x, y) == {At(g, p) : p \in Around(g, x, y, g.rx, g.ry)}
Made(c) ==
  IF c.res # "ok" THEN {"surface_refused"}
  ELSE UNION {
    LET q == c.probes[k]
    IN (IF OneOf(q.dsm, IF c.mode = "dsm" THEN {FAdd(a, b) : a \in Vals(c.dtm, q.x, q.y), b \in Vals(c.dhm, q.x, q.y)}
                        ELSE Vals(c.dsm, q.x, q.y)) THEN {} ELSE {"surface_height"})
       \union (IF OneOf(q.dtm, IF c.mode = "dsm" THEN Vals(c.dtm, q.x, q.y)
                               ELSE {FSub(a, b) : a \in Vals(c.dsm, q.x, q.y), b \in Vals(c.dhm, q.x, q.y)})
               THEN {} ELSE {"terrain_height"}) : k \in DOMAIN c.probes}

(* a sloping plane kept in another projection: heights agree within the rise
   over two cells                                                            *)
Plane(c) ==
  IF c.res # "ok" THEN {"read_crash"}
  ELSE IF \A k \in DOMAIN c.probes : FLe(FAbs(FSub(c.probes[k].z, c.probes[k].want)), c.slack) THEN {} ELSE {"reprojected_height"}

(* which files are refused                                                  *)
Admit(c) ==
  LET bad == \/ c.age = "none" /\ FALSE
             \/ c.age \in {"old", "future", "garbled"}
             \/ c.pixel < 15 \/ c.pixel > 3500          \* centimetres
  IN IF c.res # "ok" THEN {"admit_crash"}
     ELSE IF bad = c.refused THEN {} ELSE IF bad THEN {"unfit_file_accepted"} ELSE {"fit_file_refused"}

Fails(c) ==
  CASE c.kind = "course" -> Course(Start(c.g), c.ops, 1)
    [] c.kind = "align" -> Aligned(c)
    [] c.kind = "file" -> Read(c)
    [] c.kind = "surface" -> Made(c)
    [] c.kind = "plane" -> Plane(c)
    [] c.kind = "admit" -> Admit(c)
    [] c.kind = "centre" -> IF OneOf(c.z, {c.want}) THEN {} ELSE {"cell_centre"}
=============================================================================
