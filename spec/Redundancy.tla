----------------------------- MODULE Redundancy -----------------------------
(* Additional DNs that give every active DN enough disjoint paths.

   Same plans as Capacity, plus
     red: [pop, dn, sink]   node capacities
     only: the links that may be used, or <<"all">>.
   For every active DN a flow of "sink" units is wanted from the POPs, each
   link carrying at most one unit, each POP "pop", every other DN "dn".  The
   sites and polarities are shared by all of them.                         *)
EXTENDS Capacity

Usable(c, l) == Span(c, l) /\ FLt("0", c.link[l].cap) /\ (c.only = <<"all">> \/ l \in Range(c.only))
\* links that count at all, whatever their status: their ends are in play
InPlay(c) == {l \in Links(c) : Usable(c, l)}
PopsIn(c) == {s \in Sites(c) : c.site[s].type = "POP"}
Stage(c) == PopsIn(c) \cup {c.link[l].tx : l \in InPlay(c)} \cup {c.link[l].rx : l \in InPlay(c)}
Given2(c) == {s \in Stage(c) : c.site[s].status \in Given}
Wanted(c) == {s \in Stage(c) : c.site[s].type = "DN" /\ c.site[s].status \in Given}
Chance(c) == {s \in Stage(c) : c.site[s].type = "DN" /\ c.site[s].status = "CANDIDATE"}
Lawful(c, S) == \A s \in S : Cardinality({t \in S : c.site[t].at = c.site[s].at}) = 1
Teams(c) == {S \in {Given2(c) \cup more : more \in SUBSET Chance(c)} : Lawful(c, S)}
\* a given wireless link keeps its ends apart
Colours(c) ==
  IF c.cfg.blind THEN {[s \in Stage(c) |-> 0]}
  ELSE {f \in [Stage(c) -> {0, 1}] :
          \A l \in InPlay(c) : c.link[l].status \in Given /\ ~c.link[l].wired => f[c.link[l].tx] # f[c.link[l].rx]}
Ways(c, S) ==
  LET base == {l \in InPlay(c) : Real(c, l) /\ c.link[l].tx \in S /\ c.link[l].rx \in S}
      all == {{l \in base : c.cfg.blind \/ c.link[l].wired \/ f[c.link[l].tx] # f[c.link[l].rx]} : f \in Colours(c)}
  IN {U \in all : \A W \in all : U \subseteq W => U = W}

CapOf(c, d, s) == IF c.site[s].type = "POP" THEN c.red.pop ELSE IF s = d THEN c.red.sink ELSE c.red.dn
\* units that DN d can get from the POPs of S over the links U
Units(c, S, U, d) ==
  LET src == {s \in S : c.site[s].type = "POP"}
      into(s) == {<<"1", L(l)>> : l \in In(c, U, s)} \cup (IF s \in src THEN {<<"1", P(s)>>} ELSE {})
      out(s) == {<<"1", L(l)>> : l \in Out(c, U, s)}
      minus(T) == {<<FNeg(e[1]), e[2]>> : e \in T}
  IN LpMax({<<"1", "t">>},
       {<<{<<"1", L(l)>>}, "1">> : l \in U}
       \cup {<<into(s), FInt(CapOf(c, d, s))>> : s \in S}
       \cup {<<out(s) \cup minus(into(s)), "0">> : s \in S \ {d}}
       \cup {<<{<<"1", "t">>} \cup out(d) \cup minus(into(d)), "0">>, <<{<<"1", "t">>}, FInt(c.red.sink)>>})
Lack(c, S, U) == SumF([d \in Wanted(c) |-> FSub(FInt(c.red.sink), Units(c, S, U, d))], Wanted(c))
Serves(c, S, U, short, tol) == \A d \in Wanted(c) : FLe(FSub(FSub(FInt(c.red.sink), short[d]), tol), Units(c, S, U, d))
Bill(c, S) == SumF([s \in S |-> Price(c, s)], S)

\* ---- what every outcome must respect
RedFaults(c, r) ==
  LET on == Range(r.on)
      dist == {s \in on : s \in Sites(c) /\ Spine(c, s)}
      odd == Range(r.odd)
      even == Range(r.even)
      lnk == Range(r.links)
      given == {s \in Sites(c) : c.site[s].status \in Given}
      U == {l \in InPlay(c) : Real(c, l) /\ c.link[l].tx \in dist /\ c.link[l].rx \in dist
                              /\ (c.cfg.blind \/ c.link[l].wired \/ (c.link[l].tx \in odd) # (c.link[l].rx \in odd))}
  IN (IF on \subseteq Sites(c) THEN {} ELSE {"unknown-site"})
     \cup {"dead-site" : s \in {s \in on : c.site[s].status \in Dead}}
     \cup {"new-pop" : s \in {s \in dist \ given : c.site[s].type = "POP"}}
     \cup {"lost-site" : s \in {s \in given \ on : Spine(c, s)}}
     \cup {"off-stage" : s \in (dist \ given) \ Stage(c)}
     \cup {"two-in-one-place" : s \in {s \in dist \cap Stage(c) : Cardinality({t \in dist \cap Stage(c) : c.site[t].at = c.site[s].at}) > 1}}
     \cup {"access-site" : s \in {s \in Sites(c) : /\ ~Spine(c, s) /\ (s \in on) # (s \in given /\ Group(c, s) \cap dist = {})
                                                \* two given sites in one place: either may stay
                                                /\ ~(s \in given /\ \E t \in Group(c, s) : Spine(c, t) /\ t \in given)}}
     \cup (IF c.cfg.blind THEN {"polarity" : x \in odd \cup even}
           ELSE {"polarity" : s \in {s \in Spines(c) : IF s \in on THEN (s \in odd) = (s \in even) ELSE s \in odd \cup even}})
     \cup (IF c.cfg.blind THEN {} ELSE {"given-polarity" : l \in {l \in InPlay(c) : c.link[l].status \in Given /\ ~c.link[l].wired /\ ((c.link[l].tx \in odd) = (c.link[l].rx \in odd))}})
     \cup {"links" : l \in {l \in Links(c) : (l \in lnk) # Fits(c, on, odd, l)}}
     \cup {"sectors" : k \in {k \in DOMAIN c.sec : (k \in Range(r.secs)) # (c.sec[k].site \in on)}}
     \cup {"channel" : k \in {k \in DOMAIN c.sec : r.chan[k] # (IF k \in Range(r.secs) THEN 0 ELSE -1)}}
     \cup (IF Serves(c, dist \cap Stage(c), U, r.short, Tol) THEN {} ELSE {"not-redundant"})
     \cup (IF FNear(r.objective, Bill(c, dist \cap Stage(c)), "0.01") THEN {} ELSE {"objective"})
     \cup (IF FNear(r.cost, SumF([s \in on |-> Price(c, s)], on), "0.01") THEN {} ELSE {"cost"})
     \cup {"shortage" : d \in {d \in Wanted(c) : d \notin DOMAIN r.short \/ FLt(r.short[d], "-0.0001") \/ FLt(FInt(c.red.sink), r.short[d])}}
     \cup {"shortage" : d \in DOMAIN r.short \ (Wanted(c) \cup {"none"})}

RedFails(c0) == IF c0.kind = "crash" THEN {"crash"} ELSE
  LET c == [c0 EXCEPT !.blocked = {}]
      TT == Teams(c)
  IN IF c.out = <<>> THEN (IF TT # {} /\ Colours(c) # {} THEN {"gave-up"} ELSE {})
     ELSE LET r == c.out[1]
              lack == FSub(SumF(r.short, DOMAIN r.short), Tol)
              cheap == Largest({S \in TT : FLt(Bill(c, S), FSub(r.objective, "0.01"))})
          IN RedFaults(c, r)
             \cup {"not-least-shortage" : x \in {1 : z \in {S \in Largest(TT) : \E U \in Ways(c, S) : FLt(Lack(c, S, U), lack)}}}
             \cup {"not-cheapest" : x \in {1 : z \in {S \in cheap : \E U \in Ways(c, S) : Serves(c, S, U, r.short, "0.0000001")}}}

(* ---- the links the search is narrowed down to ------------------------- *)
\* every active POP reaches every active DN over as many disjoint paths
\* through the kept links as through all of them
Paths(c, U, S, p, d, k) ==
  LET V == {l \in U : c.link[l].tx # d}
      into(s) == {<<"1", L(l)>> : l \in In(c, V, s)} \cup (IF s = p THEN {<<"1", P(s)>>} ELSE {})
      out(s) == {<<"1", L(l)>> : l \in Out(c, V, s)}
      minus(T) == {<<FNeg(e[1]), e[2]>> : e \in T}
  IN LpMax({<<"1", L(l)>> : l \in In(c, V, d)},
       {<<{<<"1", L(l)>>}, "1">>   : l \in V}
       \cup {<<into(s), FInt(IF c.site[s].type = "POP" THEN k ELSE 1)>> : s \in S \ {d}}
       \cup {<<out(s) \cup minus(into(s)), "0">> : s \in S \ {d}})
Join(c, U, S, a, b, k) ==
  LET V == {l \in U : c.link[l].rx # a /\ c.link[l].tx # b}
      into(s) == {<<"1", L(l)>> : l \in In(c, V, s)} \cup (IF s = a THEN {<<"1", P(s)>>} ELSE {})
      out(s) == {<<"1", L(l)>> : l \in Out(c, V, s)}
      minus(T) == {<<FNeg(e[1]), e[2]>> : e \in T}
  IN LpMax({<<"1", L(l)>> : l \in In(c, V, b)},
       {<<{<<"1", L(l)>>}, "1">> : l \in V}
       \cup {<<into(s), FInt(IF s = a THEN k ELSE IF c.site[s].type = "POP" THEN c.kpop ELSE 1)>> : s \in S \ {b}}
       \cup {<<out(s) \cup minus(into(s)), "0">> : s \in S \ {b}})
NarrowFails(c) == IF c.kind = "crash" THEN {"crash"} ELSE
  LET S == {s \in Spines(c) : c.site[s].status \notin Dead}
      U == {l \in Links(c) : Span(c, l) /\ c.link[l].status \notin Dead /\ FLt("0", c.link[l].cap) /\ c.link[l].tx \in S /\ c.link[l].rx \in S}
      E == Range(c.edges)
      act == {s \in S : c.site[s].status \in Given}
      pops == {s \in act : c.site[s].type = "POP"}
      dns == {s \in act : c.site[s].type = "DN"}
      both == \A l \in U : \E m \in U : c.link[m].tx = c.link[l].rx /\ c.link[m].rx = c.link[l].tx
  IN {"odd-link" : l \in E \ U}
     \cup {"paths" : e \in {e \in pops \X dns : c.kpop > 0 /\ ~FNear(Paths(c, E, S, e[1], e[2], c.kpop), Paths(c, U, S, e[1], e[2], c.kpop), Tol)}}
     \* few enough DNs are all paired with each other
     \cup (IF c.kdn = 0 \/ Cardinality(dns) > 3 THEN {}
           ELSE {"dn-paths" : e \in {e \in dns \X dns : e[1] # e[2] /\ (both \/ Cardinality(dns) = 2)
                                     /\ ~FNear(Join(c, E, S, e[1], e[2], c.kdn), Join(c, U, S, e[1], e[2], c.kdn), Tol)}})
     \cup (IF c.kdn > 0 /\ both /\ c.kpop = 0 THEN {"one-way" : l \in {l \in E : ~\E m \in E : c.link[m].tx = c.link[l].rx /\ c.link[m].rx = c.link[l].tx}} ELSE {})
=============================================================================
