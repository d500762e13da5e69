------------------------------ MODULE Generate ------------------------------
(* A candidate network generated from files: an area, entered sites, buildings
   or a base network, and elevation grids.

   c.pos[p]  = [lat, lon, x, y, h, base]   a place: its map position, the top of
               what stands there and the ground below it
   c.cand[i] = [kind, sku, pos, status, src, bld, type, alt, height, name]
               src "file": entered; "base": of the base network; "corner" or
               "centre": of building bld
   c.rings[b] = corner points [x, y] of building b;  c.bound, c.zones in degrees
   c.zutm = the zones on the map
   c.surfed, c.terred       whether surface and terrain are known
   c.surf = <<>> or <<[x0, y0, dx, dy, col]>>, col[k] = <<column, row, top>>
               (only what can reach a sight line; columns named from 0)
   c.roof, c.pole_*         mounting heights
   c.detect, c.corners, c.centers, c.dnd  and limits as in Candidates, Sight
   c.got[n]  = [kind, sku, pos, status, bld, id, type, alt, name], c.link, c.base, c.kept
               as in Candidates                                              *)
EXTENDS Candidates, Sight, SequencesExt

Box(p) == [x |-> p.lon, y |-> p.lat]
Within(c, p) == Inside(Box(p), c.bound)
ZoneIn(c, k) == \A m \in DOMAIN c.zones[k] : Inside(c.zones[k][m], c.bound)
ShoeLace(z) == FAbs(FDiv(FSumSeq([k \in 1..Len(z) |-> FSub(FMul(FSub(z[k].x, z[1].x), FSub(z[Next1(z, k)].y, z[1].y)),
                                                           FMul(FSub(z[Next1(z, k)].x, z[1].x), FSub(z[k].y, z[1].y)))]), "2.0"))
Stands(c, b) == FLt("50.0", ShoeLace(c.rings[b]))

\* which of the possible sites take part
Part(c) == {i \in DOMAIN c.cand :
              LET s == c.cand[i]
              IN CASE s.src = "file"   -> Within(c, c.pos[s.pos])
                   [] s.src = "base"   -> TRUE
                   [] s.src = "corner" -> c.detect /\ c.corners /\ Stands(c, s.bld) /\ Within(c, c.pos[s.pos])
                   [] s.src = "centre" -> c.detect /\ c.centers /\ Stands(c, s.bld) /\ Within(c, c.pos[s.pos])}
TypeOf(c, s) == IF s.src \in {"corner", "centre"} THEN "ROOFTOP"
                ELSE IF s.type = "UNKNOWN" /\ c.surfed /\ c.terred
                THEN (IF FLe("2.0", FSub(c.pos[s.pos].h, c.pos[s.pos].base)) THEN "ROOFTOP" ELSE "STREET_LEVEL")
                ELSE s.type
AltOf(c, s) ==
  LET up == IF s.height # "none" THEN s.height
            ELSE IF TypeOf(c, s) = "ROOFTOP" THEN c.roof
            ELSE CASE s.kind = "POP" -> c.pole_pop [] s.kind = "DN" -> c.pole_dn [] OTHER -> c.pole_cn
  IN IF s.alt # "none" THEN s.alt ELSE IF ~c.surfed THEN "none" ELSE FAdd(c.pos[s.pos].h, up)

\* what stands high enough to matter, on a frame moved by (u, v) columns
Tops(c, u, v) ==
  IF c.surf = <<>> THEN {}
  ELSE LET s == c.surf[1]
       IN {[x |-> FAdd(s.x0, FMul(s.dx, FAdd(FInt(s.col[k][1]), u))), y |-> FSub(s.y0, FMul(s.dy, FAdd(FInt(s.col[k][2]), v))), z |-> s.col[k][3]] : k \in DOMAIN s.col}
Beside(a, b, T, R) ==
  LET lox == FSub(FMin2(a.x, b.x), FAdd(R, RIM))  hix == FAdd(FMax2(a.x, b.x), FAdd(R, RIM))
      loy == FSub(FMin2(a.y, b.y), FAdd(R, RIM))  hiy == FAdd(FMax2(a.y, b.y), FAdd(R, RIM))
  IN {p \in T : FLe(lox, p.x) /\ FLe(p.x, hix) /\ FLe(loy, p.y) /\ FLe(p.y, hiy)
                /\ FLe(Aside(a, b, p), FAdd(R, RIM))}

NetOn(c, u, v) ==
  LET P     == Part(c)
      inn   == [i \in P |-> LET s == c.cand[i]
                            IN [kind |-> s.kind, sku |-> s.sku, pos |-> s.pos, status |-> s.status, entered |-> s.src \in {"file", "base"},
                                base |-> s.src = "base", bld |-> s.bld]]
      spot  == [i \in P |-> LET s == c.cand[i]  q == c.pos[s.pos]
                            IN [x |-> q.x, y |-> q.y, alt |-> AltOf(c, s), roof |-> TypeOf(c, s) = "ROOFTOP",
                                bld |-> IF s.src \in {"corner", "centre"} THEN s.bld ELSE -1]]
      zones == {k \in DOMAIN c.zones : ZoneIn(c, k)}
      d     == [max |-> c.max, min |-> c.min, el |-> c.el, thr |-> c.thr, ell |-> c.ell, radius |-> c.radius, freq |-> c.freq,
                surf |-> c.surf, zones |-> [k \in zones |-> c.zutm[k]]]
      T     == Tops(c, u, v)
      ask(i, j) == /\ i # j /\ ~(inn[i].base /\ inn[j].base) /\ inn[i].kind \in Mesh
                   /\ ~(inn[i].kind = "POP" /\ inn[j].kind = "POP")
      duo   == {<<i, j>> \in P \X P : i < j /\ (ask(i, j) \/ ask(j, i))}
      verdict(i, j) ==
        LET a == spot[i]  b == spot[j]
        IN IF Refused(d, a, b) THEN [ans |-> "no", lo |-> "1.0", hi |-> "0.0"]
           ELSE IF c.surf = <<>> THEN [ans |-> IF Eligible(d, a, b) THEN "yes" ELSE "open", lo |-> "1.0", hi |-> "1.0"]
           ELSE LET g == JudgedOn(d, a, b, Beside(a, b, T, ZoneRadius(d, a, b)))
                IN [ans |-> IF g.blocked THEN "no" ELSE IF g.clear /\ Eligible(d, a, b) THEN "yes" ELSE "open", lo |-> g.lo, hi |-> g.hi]
      V     == [e \in duo |-> verdict(e[1], e[2])]
      yes   == {e \in duo : V[e].ans = "yes"}
      open  == {e \in duo : V[e].ans = "open"}
      where(i) == c.pos[c.cand[i].pos]
      pos   == [p \in DOMAIN c.pos |-> [lat |-> c.pos[p].lat, lon |-> c.pos[p].lon,
                   alt |-> IF \E i \in P : c.cand[i].pos = p THEN AltOf(c, c.cand[CHOOSE i \in P : c.cand[i].pos = p]) ELSE "none"]]
      dirs(S) == {<<i, j, "0.0">> : <<i, j>> \in {<<x, y>> \in P \X P : ask(x, y) /\ (<<x, y>> \in S \/ <<y, x>> \in S)}}
      net(S) == [in |-> inn, pos |-> pos, los |-> SetToSeq(dirs(S)), detect |-> c.detect, dnd |-> c.dnd, dns |-> c.dns, cns |-> c.cns,
                 range |-> c.range, min |-> c.min, el |-> c.el, out |-> c.got, kept |-> c.kept, base |-> c.base,
                 link |-> [k \in DOMAIN c.link |-> [c.link[k] EXCEPT !.conf = "0.0"]]]
      \* the possible sites at both ends of a link of the network
      ends(k) == {<<i, j>> \in duo : LET t == c.got[c.link[k].tx].pos  r == c.got[c.link[k].rx].pos
                                     IN {c.cand[i].pos, c.cand[j].pos} = {t, r}}
      old(k) == \E b \in DOMAIN c.base : c.base[b][1] = c.link[k].tx /\ c.base[b][2] = c.link[k].rx
      same(n, i) == c.got[n].pos = c.cand[i].pos /\ (c.got[n].kind = c.cand[i].kind \/ c.cand[i].src \in {"corner", "centre"})
  IN (IF Cardinality(open) > 5 THEN {}
      ELSE IF \E O \in SUBSET open : NetFails(net(yes \union O)) = {} THEN {}
      ELSE NetFails(net(yes)))
     \union (IF \A k \in DOMAIN c.link : old(k) \/ \E e \in ends(k) :
                   /\ V[e].ans # "no"
                   /\ FLe(FSub(V[e].lo, "1e-6"), c.link[k].conf) /\ FLe(c.link[k].conf, FAdd(V[e].hi, "1e-6"))
             THEN {} ELSE {"confidence"})
     \union (IF \A n \in DOMAIN c.got : \E i \in P : /\ same(n, i) /\ TypeOf(c, c.cand[i]) = c.got[n].type
                                                     /\ (c.cand[i].src \in {"corner", "centre"} \/ c.got[n].name = c.cand[i].name)
             THEN {} ELSE {"site_fields"})
     \union (IF \A n \in DOMAIN c.got : \E i \in P :
                   /\ same(n, i)
                   /\ LET z == AltOf(c, c.cand[i])
                      IN (z = "none" /\ c.got[n].alt = "none") \/ (z # "none" /\ c.got[n].alt # "none" /\ FNear(z, c.got[n].alt, "1e-3"))
             THEN {} ELSE {"altitude"})
     \union (IF \A n, m \in DOMAIN c.got : c.got[n].bld # -1 /\ c.got[m].bld # -1 =>
                   /\ c.got[n].id >= 0 /\ (c.got[n].bld = c.got[m].bld) = (c.got[n].id = c.got[m].id)
             THEN {} ELSE {"building_id"})

\* a height column stands at its cell's corner (see known finding of G01) or centre
WorldFails(c) == LET f == NetOn(c, "0.0", "0.0")
                 IN IF f = {} \/ c.surf = <<>> THEN f ELSE IF NetOn(c, "0.5", "0.5") = {} THEN {} ELSE f

GenerateFails(c) ==
  CASE c.kind = "refuse" -> (IF c.res \in {"LOSException", "DataException", "ConfigException"} THEN {}
                             ELSE IF c.res = "ok" THEN {"unfit_input_accepted"} ELSE {"unfit_input_crash"})
    [] c.kind = "world"  -> WorldFails(c) \union (IF c.written THEN {} ELSE {"file_differs"})
    [] c.kind = "crash"  -> {"crash"}
=============================================================================
