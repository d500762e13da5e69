----------------------------- MODULE Candidates -----------------------------
(* The candidate network made from line-of-sight results.

   c.in[i]   = [kind, sku, pos, status, entered, base, bld]   input sites; those
               with entered = FALSE were detected on building bld
   c.pos[p]  = [lat, lon, alt]
   c.los[k]  = <<i, j, confidence>>       accepted sight lines (i transmits)
   c.detect, c.dnd                        detection on, a DN on every building
   c.dns, c.cns                           SKUs of the DN and CN devices
   c.range[tx sku][rx sku], c.min, c.el   limits
   c.out[n]  = [kind, sku, pos, status, bld, roof]   sites of the network
   c.base[k] = the base network's links <<n, m, status, confidence>>
   c.link[k] = [tx, rx, status, wireless, conf, sectors]     links between out
   c.kept    = the base network's elements are all there, untouched            *)
EXTENDS Geometry, FiniteSets, TLC

Ins(c) == DOMAIN c.in
Detected(c) == {i \in Ins(c) : ~c.in[i].entered}
Entered(c)  == {i \in Ins(c) : c.in[i].entered}
Buildings(c) == {c.in[i].bld : i \in Detected(c)}
SightLines(c) == {<<c.los[k][1], c.los[k][2]>> : k \in DOMAIN c.los}
Conf(c, i, j) == LET k == CHOOSE k \in DOMAIN c.los : <<c.los[k][1], c.los[k][2]>> = <<i, j>> IN c.los[k][3]
Sees(c, i)   == {j \in Ins(c) : <<i, j>> \in SightLines(c)}
SeenBy(c, j) == {i \in Ins(c) : <<i, j>> \in SightLines(c)}
Degree(c, i) == Cardinality(Sees(c, i))

\* what was kept, read off the produced network
OutAt(c, kind, i) == {n \in DOMAIN c.out : c.out[n].kind = kind /\ c.out[n].pos = c.in[i].pos /\ c.out[n].bld = c.in[i].bld}
KeptDN(c) == {i \in Detected(c) : OutAt(c, "DN", i) # {}}
Chosen(c) == {i \in Detected(c) : OutAt(c, "CN", i) # {}}   \* carries the building's CN
Extra(c)  == IF c.dnd THEN KeptDN(c) \ Chosen(c) ELSE KeptDN(c)
Picked(c) == Entered(c) \union (IF c.dnd THEN Chosen(c) ELSE {})

\* indices of out standing for: an entered site / a detected DN / a building's CN
EnteredOut(c, i) == {n \in DOMAIN c.out : c.out[n].kind = c.in[i].kind /\ c.out[n].sku = c.in[i].sku /\ c.out[n].pos = c.in[i].pos
                                          /\ c.out[n].status = c.in[i].status}
DnOut(c, i) == OutAt(c, "DN", i)
CnOut(c, i) == OutAt(c, "CN", i)

SelectFails(c) ==
  LET best(b) == {i \in Detected(c) : c.in[i].bld = b /\ \A j \in Detected(c) : c.in[j].bld = b => Degree(c, j) <= Degree(c, i)}
  IN (IF \A i \in Entered(c) : EnteredOut(c, i) # {} THEN {} ELSE {"entered_site_dropped"})
     \union (IF c.detect THEN
               (IF \A b \in Buildings(c) : Cardinality({i \in Chosen(c) : c.in[i].bld = b}) = 1 THEN {} ELSE {"not_one_place_per_building"})
               \union (IF \A i \in Chosen(c) : i \in best(c.in[i].bld) THEN {} ELSE {"not_the_best_place"})
               \union (IF c.dnd /\ ~ Chosen(c) \subseteq KeptDN(c) THEN {"no_dn_on_building"} ELSE {})
               \union (IF \A i \in KeptDN(c) : {c.out[n].sku : n \in DnOut(c, i)} = {c.dns[k] : k \in DOMAIN c.dns} THEN {} ELSE {"device_options"})
               \union (IF \A i \in Chosen(c) : {c.out[n].sku : n \in CnOut(c, i)} = {c.cns[k] : k \in DOMAIN c.cns} THEN {} ELSE {"device_options"})
               \union (IF \A i \in Detected(c) : \A n \in DnOut(c, i) \union CnOut(c, i) :
                            c.out[n].status = "CANDIDATE" /\ c.out[n].roof THEN {} ELSE {"detected_site_fields"})
             ELSE {})
     \union (IF \A n \in DOMAIN c.out :
                  \/ \E i \in Entered(c) : n \in EnteredOut(c, i)
                  \/ \E i \in Detected(c) : n \in DnOut(c, i) \union CnOut(c, i)
             THEN {} ELSE {"site_from_nowhere"})
     \union (IF \A n, m \in DOMAIN c.out : n # m =>
                  <<c.out[n].kind, c.out[n].sku, c.out[n].pos>> # <<c.out[m].kind, c.out[m].sku, c.out[m].pos>>
             THEN {} ELSE {"site_twice"})

(* Additional DNs.  Starting from the sites picked so far, a CN without a path
   from any POP asks its not yet used neighbours that a connected site sees;
   the neighbour serving most such CNs is taken.                             *)
RECURSIVE Reach(_, _, _)
Reach(c, S, within) ==
  LET T == S \union UNION {{j \in within : <<i, j>> \in SightLines(c)} : i \in S}
  IN IF T = S THEN S ELSE Reach(c, T, within)
Pops(c) == {i \in Entered(c) : c.in[i].kind = "POP"}
\* CNs among the picked: entered ones, and the building CNs (at Chosen places)
CnServedBy(c, d) == {<<"in", j>> : j \in {j \in Entered(c) : c.in[j].kind = "CN" /\ <<d, j>> \in SightLines(c)}}
                    \union {<<"cn", j>> : j \in {j \in Chosen(c) : <<d, j>> \in SightLines(c)}}
Con0(c) == Reach(c, Pops(c), Picked(c))
AllCn(c) == {<<"in", j>> : j \in {j \in Entered(c) : c.in[j].kind = "CN"}} \union {<<"cn", j>> : j \in Chosen(c)}
Uncov0(c) == {u \in AllCn(c) : ~ \E i \in Con0(c) : c.in[i].kind # "CN" /\ u \in CnServedBy(c, i)}
Unused(c) == Detected(c) \ Picked(c)
Near0(c)  == {d \in Unused(c) : \E i \in Con0(c) : <<i, d>> \in SightLines(c)}

RECURSIVE Greedy(_, _, _, _, _)
Greedy(c, left, near, far, U) ==
  left = {} \/
  \E d \in left \cap near :
    /\ \E u \in U : /\ u \in CnServedBy(c, d)
                    /\ \A e \in near : u \in CnServedBy(c, e) =>
                         Cardinality(CnServedBy(c, e) \cap U) <= Cardinality(CnServedBy(c, d) \cap U)
    /\ Greedy(c, left \ {d}, (near \ {d}) \union (far \cap Sees(c, d)), far \ Sees(c, d), U \ CnServedBy(c, d))

RECURSIVE NearAfter(_, _)
NearAfter(c, n) ==
  IF n = 0 THEN Near0(c)
  ELSE LET N == NearAfter(c, n - 1) IN N \union (Unused(c) \cap UNION {Sees(c, d) : d \in Extra(c) \cap N})

ExtraFails(c) ==
  (IF Extra(c) \subseteq Reach(c, Pops(c), Picked(c) \union Extra(c)) THEN {} ELSE {"extra_dn_unreachable"})
  \* three rounds: what an additional DN sees may serve in the next round
  \union (IF \A u \in Uncov0(c) : (\E d \in NearAfter(c, 2) : u \in CnServedBy(c, d)) => (\E d \in Extra(c) : u \in CnServedBy(c, d))
          THEN {} ELSE {"cn_left_alone"})
  \union (IF Cardinality(Extra(c)) > 5 \/ Greedy(c, Extra(c), Near0(c), Unused(c) \ Near0(c), Uncov0(c)) THEN {} ELSE {"extra_dn_not_the_best"})

-----------------------------------------------------------------------------
(* links *)
Place(c, n) == c.pos[c.out[n].pos]
Inactive == {"UNAVAILABLE", "UNREACHABLE"}
\* sight lines between elements of the network, with their confidence
OutSight(c) ==
  UNION {LET i == c.los[k][1]  j == c.los[k][2]
             from == IF c.in[i].entered THEN EnteredOut(c, i) ELSE DnOut(c, i)
             to   == IF c.in[j].entered THEN EnteredOut(c, j) ELSE DnOut(c, j) \union CnOut(c, j)
         IN {[tx |-> n, rx |-> m, conf |-> c.los[k][3]] : n \in from, m \in to} : k \in DOMAIN c.los}
InBase(c, e) == \E k \in DOMAIN c.base : c.base[k][1] = e.tx /\ c.base[k][2] = e.rx
TOLR == "1e-6"
Fit(c, e, slack) ==
  LET d == Distance(Place(c, e.tx), Place(c, e.rx))
      lim == c.range[c.out[e.tx].sku][c.out[e.rx].sku]
  IN /\ FLe(c.min, FMul(d, FAdd("1.0", slack))) /\ FLe(d, FMul(lim, FAdd("1.0", slack)))
     /\ FLe(FAbs(Elevation(Place(c, e.tx), Place(c, e.rx))), FAdd(c.el, slack))
LinkFails(c) ==
  LET S == OutSight(c)
      new == {k \in DOMAIN c.link : ~ \E b \in DOMAIN c.base : c.base[b][1] = c.link[k].tx /\ c.base[b][2] = c.link[k].rx}
      usable(e) == c.out[e.tx].status \notin Inactive /\ c.out[e.rx].status \notin Inactive
      has(e) == {k \in DOMAIN c.link : c.link[k].tx = e.tx /\ c.link[k].rx = e.rx}
  IN (IF \A e \in S : usable(e) /\ Fit(c, e, FNeg(TOLR)) => Cardinality(has(e)) = 1 THEN {} ELSE {"sight_without_link"})
     \union (IF \A k \in new : \E e \in S : e.tx = c.link[k].tx /\ e.rx = c.link[k].rx /\ Fit(c, e, TOLR) THEN {} ELSE {"link_without_sight"})
     \union (IF \A k \in new : \A e \in S : e.tx = c.link[k].tx /\ e.rx = c.link[k].rx => FNear(e.conf, c.link[k].conf, "1e-9") THEN {} ELSE {"confidence_lost"})
     \union (IF \A k \in new : c.link[k].wireless /\ (c.link[k].status = "CANDIDATE" \/ ~usable(c.link[k])) THEN {} ELSE {"link_fields"})
     \union (IF \A k \in DOMAIN c.link : c.out[c.link[k].tx].kind # "CN" THEN {} ELSE {"cn_transmits"})
     \union (IF c.kept THEN {} ELSE {"base_network_changed"})

NetFails(c) == LET s == SelectFails(c)
               IN s \union LinkFails(c) \union (IF c.detect /\ s = {} THEN ExtraFails(c) ELSE {})

-----------------------------------------------------------------------------
(* Location of an entered site.  c.surf, c.terr: elevation at its column or
   "none"; c.alt, c.height: entered, or "none"                               *)
PlaceFails(c) ==
  LET type == IF c.type = "UNKNOWN" /\ c.surf # "none" /\ c.terr # "none"
              THEN IF FLe("2.0", FSub(c.surf, c.terr)) THEN "ROOFTOP" ELSE "STREET_LEVEL"
              ELSE c.type
      mount == IF c.height # "none" THEN c.height
               ELSE IF type = "ROOFTOP" THEN c.roof
               ELSE CASE c.site = "POP" -> c.pole_pop [] c.site = "DN" -> c.pole_dn [] OTHER -> c.pole_cn
      alt == IF c.surf = "none" \/ c.alt # "none" THEN c.alt ELSE FAdd(c.surf, mount)
  IN (IF c.got_type = type THEN {} ELSE {"location_type"})
     \union (IF (alt = "none" /\ c.got_alt = "none") \/ (alt # "none" /\ c.got_alt # "none" /\ FNear(alt, c.got_alt, "1e-6")) THEN {} ELSE {"altitude"})
     \union (IF c.moved THEN {"moved"} ELSE {})

(* Pairs prepared for the sight check.  c.site[i] = [kind, new];
   c.pair[k] = <<i, j, both>>                                                *)
Mesh == {"POP", "DN"}
PairFails(c) ==
  LET kind(i) == c.site[i].kind
      want == {<<i, j>> \in (DOMAIN c.site) \X (DOMAIN c.site) :
                 i # j /\ (c.site[i].new \/ c.site[j].new) /\ kind(i) \in Mesh
                 /\ ~(kind(i) = "POP" /\ kind(j) = "POP")}
      got == {<<c.pair[k][1], c.pair[k][2]>> : k \in DOMAIN c.pair}
             \union {<<c.pair[k][2], c.pair[k][1]>> : k \in {k \in DOMAIN c.pair : c.pair[k][3]}}
      tally(q, x) == Cardinality({k \in DOMAIN q : q[k] = x})
  IN (IF want \subseteq got THEN {} ELSE {"pair_not_checked"})
     \union (IF \A x \in {"POP", "DN", "CN"} : tally(c.inside, x) = tally(c.read, x) THEN {} ELSE {"boundary"})
     \union (IF got \subseteq want THEN {} ELSE {"pair_of_wrong_types"})

CandidateFails(c) == CASE c.kind = "net"   -> NetFails(c)
              [] c.kind = "place" -> PlaceFails(c)
              [] c.kind = "pairs" -> PairFails(c)
              [] c.kind = "crash" -> {"crash"}
=============================================================================
