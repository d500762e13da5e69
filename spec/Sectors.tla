------------------------------ MODULE Sectors ------------------------------
(* Sector layout of sites and assignment of links to sectors.

   c.site[s] = [type, lat, lon, alt, status, w, n, nodes]
               w: horizontal scan range, n: sectors per node, nodes: maximum
   c.link[l] = [tx, rx, wireless, status, ts, rs]   before ("none" allowed)
   c.given[k] = [site, node, pos, az, status]       sectors before
   c.sec[k], c.out[l] = [ts, rs]                    after                   *)
EXTENDS Geometry, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Step == "3.0"            \* pointing precision, degrees
AzTol == "1e-6"
LinkTol == "1e-2"
Fuzzy(x, y) == FLe(FAbs(FSub(x, y)), "1e-6")     \* too close to call

Of(S, s) == {k \in DOMAIN S : S[k].site = s}
NodeIds(S, s) == {S[k].node : k \in Of(S, s)}
OfNode(S, s, i) == {k \in Of(S, s) : S[k].node = i}
MaxNodes(v) ==
  LET fit == FFloor(FAdd(FDiv("360.0", FMul(v.w, FInt(v.n))), "1e-9"))
  IN IF fit < v.nodes THEN fit ELSE v.nodes

----------------------------------------------------------------------------
\* Validity of a layout: complete evenly spaced nodes that do not overlap.
Even(A, w, tol) ==     \* A: set of azimuth positions <<k, az>> of one node
  LET n == Cardinality(A)
  IN \E a \in A : \A i \in 0..(n - 1) :
        \E b \in A : FLe(AngleDist(b[2], FAdd(a[2], FMul(FInt(i), w))), tol)
Complete(S, s, v) ==
  \A i \in NodeIds(S, s) :
     /\ Cardinality(OfNode(S, s, i)) = v.n
     /\ Cardinality({S[k].pos : k \in OfNode(S, s, i)}) = v.n
Apart(S, s, v, slack) ==
  \A j, k \in Of(S, s) : S[j].node # S[k].node => FLe(FSub(v.w, slack), AngleDist(S[j].az, S[k].az))
Azs(S, s, i) == {<<k, S[k].az>> : k \in OfNode(S, s, i)}
Spaced(S, s, v, tol) == \A i \in NodeIds(S, s) : Even(Azs(S, s, i), v.w, tol)
Sound(S, s, v, tol, slack) ==
  /\ Cardinality(NodeIds(S, s)) <= v.nodes
  /\ Complete(S, s, v) /\ Spaced(S, s, v, tol) /\ Apart(S, s, v, slack)

CheckFacts(c) ==       \* a layout entered by the user; c.sec on site "x"
  LET v == c.site.x
      yes == Sound(c.sec, "x", v, "5e-3", "-1e-6")
      no  == ~Sound(c.sec, "x", v, FMul(FInt(v.n), "1.1e-2"), "1.1e-2")
  IN IF yes /\ ~c.accepted THEN {"sound_layout_refused"}
     ELSE IF no /\ c.accepted THEN {"bad_layout_accepted"} ELSE {}

----------------------------------------------------------------------------
\* Layout chosen for a site.  Neighbours: bearings of the wireless links.
OutLinks(c, s) == {l \in DOMAIN c.link : c.link[l].tx = s /\ c.link[l].wireless}
InLinks(c, s)  == {l \in DOMAIN c.link : c.link[l].rx = s /\ c.link[l].wireless}
Towards(c, s) ==
  IF c.site[s].type = "CN" THEN {c.link[l].tx : l \in InLinks(c, s)}
  ELSE {c.link[l].rx : l \in OutLinks(c, s)}
Dir(c, s) == [m \in Towards(c, s) |-> Bearing(c.site[s], c.site[m])]

Covers(az, dir, w) == FLt(AngleDist(az, dir), FDiv(w, "2.0"))
\* incidences and weighted squared error of a set of azimuths
RECURSIVE SumSet(_, _)
SumSet(f, D) == IF D = {} THEN "0.0" ELSE LET x == CHOOSE y \in D : TRUE IN FAdd(f[x], SumSet(f, D \ {x}))
Score(A, dir, dist, w) ==
  LET P == {<<a, m>> \in A \X DOMAIN dir : Covers(a[2], dir[m], w)}
      far == LET S == {dist[m] : m \in DOMAIN dir} IN CHOOSE x \in S : \A y \in S : FLe(y, x)
  IN [n |-> Cardinality(P),
      e |-> SumSet([p \in P |-> FDiv(FMul(Sq(AngleDist(p[1][2], dir[p[2]])), dist[p[2]]), far)], P)]
Turn(A, d) == {<<a[1], FAdd(a[2], d)>> : a \in A}
Steps == {FMul(FInt(i), Step) : i \in 1..119}
Better(x, y) == x.n > y.n \/ (x.n = y.n /\ FLt(FAdd(x.e, FAdd("1e-3", FMul("1e-6", y.e))), y.e))

AllAz(S, s) == UNION {Azs(S, s, i) : i \in NodeIds(S, s)}
ClearAfterMove(S, s, i, d, v) ==
  \A a \in Turn(Azs(S, s, i), d) : \A j \in NodeIds(S, s) \ {i} :
     \A b \in Azs(S, s, j) : FLe(FAdd(v.w, "1e-6"), AngleDist(a[2], b[2]))

\* chosen node centres lie on the pointing grid; the whole set of nodes
\* cannot be turned, nor one node be moved, to cover more or aim better
Centre(A, v) ==
  LET n == Cardinality(A)
      first == CHOOSE a \in A : \A i \in 0..(n - 1) : \E b \in A : FLe(AngleDist(b[2], FAdd(a[2], FMul(FInt(i), v.w))), "1e-6")
  IN FAdd(first[2], FMul(v.w, FDiv(FInt(n - 1), "2.0")))
OnGrid(x) == FLe(FAbs(FSub(FDiv(x, Step), FInt(FRound(FDiv(x, Step))))), "1e-6")

DnFacts(c, s, new) ==
  LET v == c.site[s]  dir == Dir(c, s)
      dist == [m \in DOMAIN dir |-> Haversine(c.site[s], c.site[m])]
      S == c.sec
      k == Cardinality(NodeIds(S, s))
      now == Score(AllAz(S, s), dir, dist, v.w)
      tie == \E d \in Steps \union {"0.0"} : \E a \in AllAz(S, s) : \E m \in DOMAIN dir :
                Fuzzy(AngleDist(FAdd(a[2], d), dir[m]), FDiv(v.w, "2.0"))
  IN IF DOMAIN dir = {} THEN (IF new = {} THEN {} ELSE {"sectors_without_neighbours"})
     ELSE (IF k <= MaxNodes(v) /\ k >= 1 THEN {} ELSE {"node_count"})
       \union (IF Sound(S, s, v, AzTol, AzTol) THEN {} ELSE {"layout_unsound"})
       \union (IF ~Sound(S, s, v, AzTol, AzTol) \/ \A i \in NodeIds(S, s) : OnGrid(Centre(Azs(S, s, i), v)) THEN {} ELSE {"off_grid"})
       \union (IF \A i \in NodeIds(S, s) : \E a \in Azs(S, s, i), m \in DOMAIN dir :
                     FLt(AngleDist(a[2], dir[m]), FAdd(FMul(FDiv(v.w, "2.0"), FInt(v.n)), "1e-6"))
               THEN {} ELSE {"idle_node"})
       \union (IF tie \/ \A d \in Steps : ~Better(Score(Turn(AllAz(S, s), d), dir, dist, v.w), now) THEN {} ELSE {"turning_all_is_better"})
       \union (IF tie \/ k < MaxNodes(v) \/ \A i \in NodeIds(S, s) : \A d \in Steps :
                     ClearAfterMove(S, s, i, d, v) =>
                       ~Better(Score((AllAz(S, s) \ Azs(S, s, i)) \union Turn(Azs(S, s, i), d), dir, dist, v.w), now)
               THEN {} ELSE {"moving_one_node_is_better"})
       \union (IF MaxNodes(v) * v.n >= 1 /\ FLe("359.999", FMul(FInt(MaxNodes(v) * v.n), v.w)) /\ ~tie
                  /\ \E m \in DOMAIN dir : \A a \in AllAz(S, s) : ~FLe(AngleDist(a[2], dir[m]), FAdd(FDiv(v.w, "2.0"), LinkTol))
               THEN {"neighbour_uncovered"} ELSE {})

\* a CN has evenly spread nodes whose common rotation minimises the error
CnFacts(c, s, new) ==
  LET v == c.site[s]  dir == Dir(c, s)
      S == c.sec
      k == MaxNodes(v)
      arc == FDiv("360.0", FInt(k))
      half == FDiv(FMul(v.w, FInt(v.n)), "2.0")
      ctr == {Centre(Azs(S, s, i), v) : i \in NodeIds(S, s)}
      err(C) == SumSet([m \in DOMAIN dir |->
                   LET d == CHOOSE x \in {AngleDist(a, dir[m]) : a \in C} : \A y \in C : FLe(x, AngleDist(y, dir[m]))
                   IN IF FLe(d, half) THEN Sq(d) ELSE "129600.0"], DOMAIN dir)
      tie == \E d \in Steps \union {"0.0"} : \E a \in ctr : \E m \in DOMAIN dir : Fuzzy(AngleDist(FAdd(a, d), dir[m]), half)
  IN IF DOMAIN dir = {} THEN (IF new = {} THEN {} ELSE {"sectors_without_neighbours"})
     ELSE (IF Cardinality(NodeIds(S, s)) = k THEN {} ELSE {"node_count"})
       \union (IF Sound(S, s, v, AzTol, AzTol) THEN {} ELSE {"layout_unsound"})
       \union (IF ~Sound(S, s, v, AzTol, AzTol) \/ tie \/ k # 1 \/ \A d \in Steps :
                    ~FLt(FAdd(err({FAdd(a, d) : a \in ctr}), "1e-3"), err(ctr))
               THEN {} ELSE {"cn_aim"})

----------------------------------------------------------------------------
\* Link assignment.
Width(c, s, wide) == IF wide /\ c.site[s].type = "CN" THEN "360.0" ELSE c.site[s].w
Off(c, k, from, to) == AngleDist(c.sec[k].az, Bearing(c.site[from], c.site[to]))
Ok(c, k, from, to, wide) == FLt(Off(c, k, from, to), FAdd(FDiv(Width(c, from, wide), "2.0"), LinkTol))
OkFuzzy(c, from, to, wide) ==
  \E k \in Of(c.sec, from) : Fuzzy(Off(c, k, from, to), FAdd(FDiv(Width(c, from, wide), "2.0"), LinkTol))
Reach(c, from, to, wide) == {k \in Of(c.sec, from) : Ok(c, k, from, to, wide)}
Nearest(c, from, to, wide) ==
  {k \in Reach(c, from, to, wide) : \A j \in Reach(c, from, to, wide) :
       FLe(Off(c, k, from, to), FAdd(Off(c, j, from, to), "1e-6"))}

LinkFacts(c) ==
  LET wl == {l \in DOMAIN c.link : c.link[l].wireless}
      free == {l \in wl : c.link[l].ts = "none"}
      amb(l) == OkFuzzy(c, c.link[l].tx, c.link[l].rx, TRUE) \/ OkFuzzy(c, c.link[l].rx, c.link[l].tx, TRUE)
      A(l) == Nearest(c, c.link[l].tx, c.link[l].rx, TRUE)
      B(l) == Nearest(c, c.link[l].rx, c.link[l].tx, TRUE)
      rev(l) == {m \in DOMAIN c.link : c.link[m].tx = c.link[l].rx /\ c.link[m].rx = c.link[l].tx}
  IN (IF \A l \in free : amb(l) \/
            IF A(l) # {} /\ B(l) # {} THEN c.out[l].ts \in A(l) /\ c.out[l].rs \in B(l)
            ELSE c.out[l].ts = "none" /\ c.out[l].rs = "none"
      THEN {} ELSE {"link_sector"})
     \union (IF \A l \in wl \ free : c.out[l].ts = c.link[l].ts /\ c.out[l].rs = c.link[l].rs THEN {} ELSE {"given_sector_changed"})
     \union (IF \A l \in DOMAIN c.link \ wl : c.out[l].ts = "none" /\ c.out[l].rs = "none" THEN {} ELSE {"wired_link_has_sector"})
     \union (IF \A l \in free : \A m \in rev(l) \intersect free : c.out[l].ts = c.out[m].rs /\ c.out[l].rs = c.out[m].ts
             THEN {} ELSE {"directions_differ"})

SetupFacts(c) ==
  LET sites == DOMAIN c.site
      new(s) == Of(c.sec, s) \ DOMAIN c.given
      fresh(s) == Of(c.given, s) = {}
      \* links whose sectors were chosen here, by the sector (node) serving them
      chosen == {l \in DOMAIN c.link : c.link[l].ts = "none" /\ c.out[l].ts # "none"}
      serves(k, S) == \E l \in chosen : c.link[l].status \in S /\ k \in {c.out[l].ts, c.out[l].rs}
      node(k) == {j \in DOMAIN c.sec : c.sec[j].site = c.sec[k].site /\ c.sec[j].node = c.sec[k].node}
      base(k) == IF k \in DOMAIN c.given THEN c.given[k].status
                 ELSE IF c.site[c.sec[k].site].status \in {"UNAVAILABLE", "UNREACHABLE"} THEN c.site[c.sec[k].site].status
                 ELSE "CANDIDATE"
      \* sectors carrying active links are active; the node of an existing link exists
      st(k) == IF base(k) = "EXISTING" \/ \E j \in node(k) : serves(j, {"EXISTING"}) THEN "EXISTING"
               ELSE IF serves(k, {"PROPOSED"}) THEN "PROPOSED" ELSE base(k)
  IN UNION {IF ~fresh(s) THEN (IF new(s) = {} THEN {} ELSE {"sectors_added_to_given_layout"})
            ELSE IF c.site[s].type = "CN" THEN CnFacts(c, s, new(s)) ELSE DnFacts(c, s, new(s)) : s \in sites}
     \union (IF \A k \in DOMAIN c.given : k \in DOMAIN c.sec /\ [c.sec[k] EXCEPT !.status = c.given[k].status] = c.given[k] THEN {} ELSE {"given_sector_altered"})
     \union (IF \A k \in DOMAIN c.sec : k # "none" => c.sec[k].status = st(k) THEN {} ELSE {"sector_status"})
     \union LinkFacts(c)

\* refusals of the preparation: an active link without a sector at an end, a
\* given assignment out of range, or a bad given layout
MustRefuse(c) ==
  \/ \E l \in DOMAIN c.link : c.link[l].wireless /\ c.link[l].ts # "none" /\
        ~FLe(AngleDist(c.given[c.link[l].ts].az, Bearing(c.site[c.link[l].tx], c.site[c.link[l].rx])),
             FAdd(FDiv(c.site[c.link[l].tx].w, "2.0"), "1.1e-2"))
  \/ \E l \in DOMAIN c.link : c.link[l].wireless /\ c.link[l].ts # "none" /\ c.site[c.link[l].rx].type # "CN" /\
        ~FLe(AngleDist(c.given[c.link[l].rs].az, Bearing(c.site[c.link[l].rx], c.site[c.link[l].tx])),
             FAdd(FDiv(c.site[c.link[l].rx].w, "2.0"), "1.1e-2"))
  \/ \E s \in DOMAIN c.site : ~Sound(c.given, s, c.site[s], "5e-2", "2e-2")
MayRefuse(c) ==
  \/ \E l \in DOMAIN c.link : c.link[l].status \in {"PROPOSED", "EXISTING"}
  \/ \E l \in DOMAIN c.link : c.link[l].ts # "none"
  \/ \E s \in DOMAIN c.site : Of(c.given, s) # {}
\* an accepted network leaves no active link without sectors
SectorFails(c) ==
  CASE c.kind = "check" -> CheckFacts(c)
    [] c.kind = "setup" ->
         SetupFacts(c)
         \union (IF MustRefuse(c) THEN {"bad_input_accepted"} ELSE {})
         \union (IF \E l \in DOMAIN c.link : c.link[l].wireless /\ c.link[l].status \in {"PROPOSED", "EXISTING"} /\ c.out[l].ts = "none"
                 THEN {"active_link_without_sector"} ELSE {})
    [] c.kind = "refused" -> IF c.may THEN {} ELSE {"preparation_refused"}
    [] c.kind = "crash" -> {"crash_" \o c.what}
=============================================================================
