------------------------------ MODULE Capacity ------------------------------
(* What a network can carry, what it costs, and which networks may be chosen.

   A plan c is
     site: name -> [type, status, at, capex, node, nodes]
     sec:  name -> [site, node, pos, status]
     link: name -> [tx, rx, cap, wired, status, ts, rs]   (one per direction)
     dem:  name -> [sites, need]
     cfg:  [pop, always, blind, common, budget, extra, hand]
     blocked: links that must carry nothing.
   A choice is a set of sites; polarities are a two-colouring of its POPs and
   DNs.  What a choice carries is the optimum of a linear programme; which
   choices exist is enumerated here, so that "cheapest" and "most" are decided
   by looking at every alternative.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, F, LP

Backbone == {"POP", "DN"}
Dead == {"UNAVAILABLE", "UNREACHABLE"}
Given == {"PROPOSED", "EXISTING"}
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN "0" ELSE LET x == CHOOSE x \in S : TRUE IN FAdd(f[x], SumF(f, S \ {x}))

Sites(c) == DOMAIN c.site
Links(c) == DOMAIN c.link
Spine(c, s) == c.site[s].type \in Backbone
Span(c, l) == Spine(c, c.link[l].tx) /\ Spine(c, c.link[l].rx)     \* backhaul
GivenLinks(c) == {l \in Links(c) : c.link[l].status \in Given}
GivenEnds(c) == {c.link[l].tx : l \in GivenLinks(c)} \cup {c.link[l].rx : l \in GivenLinks(c)}

(* ---- what a link can be used for -------------------------------------- *)
\* a link exists for the optimiser if nothing rules it out
Real(c, l) == /\ c.link[l].status \notin Dead
              /\ c.link[l].wired \/ c.link[l].ts # "none"
              /\ FLt("0", c.link[l].cap)
\* two-colourings that keep the ends of the given wireless links apart
Spines(c) == {s \in Sites(c) : Spine(c, s)}
Cols(c) ==
  IF c.cfg.blind THEN {[s \in Spines(c) |-> 0]}
  ELSE LET first == IF Spines(c) = {} THEN "none" ELSE CHOOSE s \in Spines(c) : TRUE
       IN {f \in [Spines(c) -> {0, 1}] :
             /\ first = "none" \/ f[first] = 0
             /\ \A l \in GivenLinks(c) : Span(c, l) /\ ~c.link[l].wired => f[c.link[l].tx] # f[c.link[l].rx]}
Apart(c, f, l) == c.cfg.blind \/ ~Span(c, l) \/ c.link[l].wired \/ f[c.link[l].tx] # f[c.link[l].rx]
\* the links a choice S may use, for every colouring; only the largest sets matter
Nets(c, S) ==
  LET base == {l \in Links(c) : Real(c, l) /\ l \notin c.blocked /\ c.link[l].tx \in S /\ c.link[l].rx \in S}
      all == {{l \in base : Apart(c, f, l)} : f \in Cols(c)}
  IN {U \in all : \A W \in all : U \subseteq W => U = W}

(* ---- which sites may be chosen ---------------------------------------- *)
Group(c, s) == {t \in Sites(c) : c.site[t].at = c.site[s].at}
Kept(c) == {s \in Sites(c) : c.site[s].status \in Given} \cup GivenEnds(c)
           \cup {s \in Sites(c) : c.cfg.always /\ c.site[s].type = "POP" /\ c.site[s].status \notin Dead}
\* of several kept sites in one place the highest type counts; a CN may grow
\* into a DN or POP there, nothing else may take the place of a kept site
Successors(c, g) ==
  LET A == Kept(c) \cap g
      top == IF \E s \in A : c.site[s].type = "POP" THEN "POP" ELSE IF \E s \in A : c.site[s].type = "DN" THEN "DN" ELSE "CN"
  IN {s \in g : \/ c.site[s].type = top /\ s \in A
                \/ top = "CN" /\ c.site[s].type # "CN"}
Legal(c, S) ==
  /\ \A s \in S : c.site[s].status \notin Dead
  /\ \A s \in Sites(c) :
       LET g == Group(c, s) IN
       IF Kept(c) \cap g = {} THEN Cardinality(S \cap g) <= 1
       ELSE Cardinality(S \cap g) = 1 /\ S \cap g \subseteq Successors(c, g)
Options(c) == {S \in SUBSET {s \in Sites(c) : c.site[s].status \notin Dead} : Legal(c, S)}

Price(c, s) == IF c.site[s].status = "EXISTING" THEN "0"
               ELSE FAdd(c.site[s].capex, FMul(c.site[s].node, FInt(c.site[s].nodes)))
Cost(c, S) == SumF([s \in S |-> Price(c, s)], S)
Largest(SS) == {S \in SS : \A T \in SS : S \subseteq T => S = T}

(* ---- what a choice carries -------------------------------------------- *)
L(l) == "l:" \o l
P(s) == "p:" \o s
X(d, s) == "x:" \o d \o "@" \o s
In(c, U, s) == {l \in U : c.link[l].rx = s}
Out(c, U, s) == {l \in U : c.link[l].tx = s}
Hand(c, S, D) == {e \in D \X S : e[2] \in Range(c.dem[e[1]].sites)}
Rows(c, S, U, D) ==
  LET air(K) == {<<FDiv("1", c.link[l].cap), L(l)>> : l \in K}
      H == Hand(c, S, D)
      left(s) == {<<"1", L(l)>> : l \in Out(c, U, s)} \cup {<<"1", X(e[1], e[2])>> : e \in {e \in H : e[2] = s}}
  IN \* a sector talks one at a time, and listens to one at a time
     {<<air({l \in U : ~c.link[l].wired /\ c.link[l].ts = k}), "1">> : k \in DOMAIN c.sec}
     \cup {<<air({l \in U : ~c.link[l].wired /\ c.link[l].rs = k}), "1">> : k \in DOMAIN c.sec}
     \cup {<<{<<"1", L(l)>>}, c.link[l].cap>> : l \in {l \in U : c.link[l].wired}}
     \* a POP brings in, and sends out, no more than its capacity
     \cup {<<{<<"1", P(s)>>}, c.cfg.pop>> : s \in {s \in S : c.site[s].type = "POP"}}
     \cup {<<left(s), c.cfg.pop>> : s \in {s \in S : c.site[s].type = "POP"}}
     \* nothing comes from nowhere
     \cup {<<left(s) \cup {<<"-1", L(l)>> : l \in In(c, U, s)} \cup (IF c.site[s].type = "POP" THEN {<<"-1", P(s)>>} ELSE {}), "0">> : s \in S}
     \cup {<<{<<"1", X(e[1], e[2])>>}, c.cfg.hand>> : e \in H}
Needs(c, S, D) == {<<{<<"1", X(e[1], e[2])>> : e \in {e \in Hand(c, S, D) : e[1] = d}}, c.dem[d].need>> : d \in D}

Best(V) == FMaxSeq(<<"0">> \o SetToSeq(V))
MostOf(c, S, U) ==
  LET D == DOMAIN c.dem IN LpMax({<<"1", X(e[1], e[2])>> : e \in Hand(c, S, D)}, Rows(c, S, U, D) \cup Needs(c, S, D))
\* the most that can be delivered in total
Most(c, S) == Best({MostOf(c, S, U) : U \in Nets(c, S)})
\* the most that every demand of D can have at the same time
Bare(c, S, D) == {<<{<<"1", "b">>} \cup {<<"-1", X(e[1], e[2])>> : e \in {e \in Hand(c, S, D) : e[1] = d}}, "0">> : d \in D}
EvenOf(c, S, U, D, lim) ==
  LET all == DOMAIN c.dem IN LpMax({<<"1", "b">>}, Rows(c, S, U, all) \cup Needs(c, S, all) \cup Bare(c, S, D) \cup {<<{<<"1", "b">>}, lim>>})
Even(c, S, D, lim) == Best({EvenOf(c, S, U, D, lim) : U \in Nets(c, S)})

TotalNeed(c) == SumF([d \in DOMAIN c.dem |-> c.dem[d].need], DOMAIN c.dem)
MinNeed(c, D) == FMinSeq(SetToSeq({c.dem[d].need : d \in D}))

(* ---- who can be connected at all -------------------------------------- *)
\* sites that a kept co-located site keeps out are left aside
Open(c) == {s \in Sites(c) : c.site[s].status \notin Dead /\ (Kept(c) \cap Group(c, s) = {} \/ s \in Successors(c, Group(c, s)))}
RECURSIVE Grow(_, _, _)
Grow(c, U, R) == LET N == R \cup {c.link[l].rx : l \in {l \in U : c.link[l].tx \in R}} IN IF N = R THEN R ELSE Grow(c, U, N)
Fed(c, S, U) == LET R == Grow(c, U, {s \in S : c.site[s].type = "POP"}) IN {d \in DOMAIN c.dem : \E s \in Range(c.dem[d].sites) : s \in R}
\* the largest sets of demands that one colouring connects
Connectable(c) ==
  LET all == {Fed(c, Open(c), U) : U \in Nets(c, Open(c))}
  IN {D \in all : \A E \in all : Cardinality(E) <= Cardinality(D)}

(* ---- what every outcome must respect ---------------------------------- *)
Tol == "0.0001"
Kin(c, l) == {k \in DOMAIN c.sec : \E e \in {c.link[l].ts, c.link[l].rs} : e \in DOMAIN c.sec /\ c.sec[e].site = c.sec[k].site /\ c.sec[e].node = c.sec[k].node}
NodesOn(c, r, s) == {c.sec[k].node : k \in {k \in DOMAIN c.sec : c.sec[k].site = s /\ k \in Range(r.secs)}}
Spent(c, r) == LET on == Range(r.on) IN
  SumF([s \in on |-> IF c.site[s].status = "EXISTING" THEN "0"
                     ELSE FAdd(c.site[s].capex, FMul(c.site[s].node, FInt(Cardinality(NodesOn(c, r, s)))))], on)
FlowOf(r, k) == IF k \in DOMAIN r.flow THEN r.flow[k] ELSE "0"
FlowSum(r, K) == SumF([k \in K |-> FlowOf(r, k)], K)
HandKeys(c, s) == {s \o ">" \o d : d \in {d \in DOMAIN c.dem : s \in Range(c.dem[d].sites)}}
Used(r, l) == FLt(Tol, FlowOf(r, l))
RECURSIVE Reach2(_, _, _)
Reach2(c, E, R) == LET N == R \cup {c.link[l].rx : l \in {l \in E : c.link[l].tx \in R}} IN IF N = R THEN R ELSE Reach2(c, E, N)
Acyclic(c, r) == LET E == {l \in Links(c) : Used(r, l)} IN \A l \in E : c.link[l].tx \notin Reach2(c, E, {c.link[l].rx})

\* every flow is carried by something that can carry it
FlowFaults(c, r, on) ==
  LET odd == Range(r.odd) IN
     {"negative" : k \in {k \in DOMAIN r.flow : FLt(r.flow[k], "-0.000001")}}
     \cup {"link-capacity" : l \in {l \in Links(c) : ~FLeT(FlowOf(r, l), c.link[l].cap, Tol)}}
     \cup {"airtime" : l \in {l \in Links(c) : ~c.link[l].wired /\ l \in DOMAIN r.tdm /\ ~FLeT(FlowOf(r, l), FMul(c.link[l].cap, r.tdm[l]), Tol)}}
     \cup {"no-airtime" : l \in {l \in Links(c) : ~c.link[l].wired /\ Used(r, l) /\ l \notin DOMAIN r.tdm}}
     \cup {"sector-tx" : k \in {k \in DOMAIN c.sec : LET K == {l \in Links(c) : c.link[l].ts = k /\ l \in DOMAIN r.tdm} IN ~FLeT(SumF([l \in K |-> r.tdm[l]], K), "1", Tol)}}
     \cup {"sector-rx" : k \in {k \in DOMAIN c.sec : LET K == {l \in Links(c) : c.link[l].rs = k /\ l \in DOMAIN r.tdm} IN ~FLeT(SumF([l \in K |-> r.tdm[l]], K), "1", Tol)}}
     \cup {"dead-link" : l \in {l \in Links(c) : Used(r, l) /\ ~Real(c, l)}}
     \cup {"blocked-link" : l \in {l \in c.blocked : Used(r, l)}}
     \cup {"off-site" : l \in {l \in Links(c) : Used(r, l) /\ ~(c.link[l].tx \in on /\ c.link[l].rx \in on)}}
     \cup {"off-hand" : e \in {e \in Hand(c, Sites(c), DOMAIN c.dem) : FLt(Tol, FlowOf(r, e[2] \o ">" \o e[1])) /\ e[2] \notin on}}
     \cup {"off-source" : s \in {s \in Sites(c) : FLt(Tol, FlowOf(r, "SRC>" \o s)) /\ s \notin on}}
     \cup {"hand-capacity" : e \in {e \in Hand(c, Sites(c), DOMAIN c.dem) : ~FLeT(FlowOf(r, e[2] \o ">" \o e[1]), c.cfg.hand, Tol)}}
     \cup {"same-polarity" : l \in {l \in Links(c) : Used(r, l) /\ ~c.cfg.blind /\ Span(c, l) /\ ~c.link[l].wired /\ c.link[l].status \notin Given
                                                     /\ ((c.link[l].tx \in odd) = (c.link[l].rx \in odd))}}
     \cup {"pop-load" : s \in {s \in Sites(c) : c.site[s].type = "POP" /\ ~FLeT(FlowSum(r, Out(c, Links(c), s) \cup HandKeys(c, s)), c.cfg.pop, Tol)}}
     \cup {"pop-source" : s \in {s \in Sites(c) : ~FLeT(FlowOf(r, "SRC>" \o s), IF c.site[s].type = "POP" THEN c.cfg.pop ELSE "0", Tol)}}
     \cup {"balance" : s \in {s \in Sites(c) : ~FNear(FlowSum(r, In(c, Links(c), s) \cup {"SRC>" \o s}), FlowSum(r, Out(c, Links(c), s) \cup HandKeys(c, s)), Tol)}}
     \cup (IF Acyclic(c, r) THEN {} ELSE {"loop"})
Delivered(c, r, d) == LET K == {s \o ">" \o d : s \in Range(c.dem[d].sites)} IN FlowSum(r, K)

Fits(c, on, odd, l) == c.link[l].tx \in on /\ c.link[l].rx \in on /\ Real(c, l)
                       /\ (c.cfg.blind \/ ~Span(c, l) \/ c.link[l].wired \/ c.link[l].status \in Given
                           \/ ((c.link[l].tx \in odd) # (c.link[l].rx \in odd)))
\* an outcome r of the models that choose sites
Faults(c, r) ==
  LET on == Range(r.on)
      odd == Range(r.odd)
      even == Range(r.even)
      lnk == Range(r.links)
      asked == {s \in Sites(c) : c.site[s].status \in Given}
      touched == {c.link[l].tx : l \in lnk} \cup {c.link[l].rx : l \in lnk}
  IN FlowFaults(c, r, on)
     \cup (IF on \subseteq Sites(c) THEN {} ELSE {"unknown-site"})
     \cup {"dead-site" : s \in {s \in on : c.site[s].status \in Dead}}
     \cup {"two-in-one-place" : s \in {s \in on : Cardinality(on \cap Group(c, s)) > 1}}
     \cup {"wrong-successor" : s \in {s \in on : Kept(c) \cap Group(c, s) # {} /\ s \notin Successors(c, Group(c, s))}}
     \cup {"idle-site" : s \in {s \in on \ Kept(c) : FLeT(FAdd(FlowSum(r, In(c, Links(c), s) \cup {"SRC>" \o s}), FlowSum(r, Out(c, Links(c), s) \cup HandKeys(c, s))), "0.000001", "0")}}
     \cup {"bare-site" : s \in {s \in on \ touched : ~\E d \in DOMAIN c.dem : s \in Range(c.dem[d].sites)}}
     \* a kept site is dropped only if none of its links could be used
     \cup {"lost-site" : s \in {s \in asked \ on : Group(c, s) = {s} /\ c.site[s].status \notin Dead
                                 /\ \E l \in Links(c) : Real(c, l) /\ (c.link[l].wired \/ ~Span(c, l) \/ c.link[l].status \in Given)
                                      /\ ((c.link[l].tx = s /\ c.link[l].rx \in on) \/ (c.link[l].rx = s /\ c.link[l].tx \in on))}}
     \cup {"links" : l \in {l \in Links(c) : (l \in lnk) # Fits(c, on, odd, l)}}
     \cup (IF lnk \subseteq Links(c) THEN {} ELSE {"unknown-link"})
     \cup {"sectors" : k \in {k \in DOMAIN c.sec : (k \in Range(r.secs)) # (\E l \in lnk : k \in Kin(c, l))}}
     \cup {"channel" : k \in {k \in Range(r.secs) : r.chan[k] # 0}}
     \cup (IF c.cfg.blind THEN {"polarity" : x \in odd \cup even}
           ELSE {"polarity" : s \in {s \in Spines(c) : IF s \in on THEN (s \in odd) = (s \in even) ELSE s \in odd \cup even}})
     \cup (IF c.cfg.blind THEN {} ELSE {"given-polarity" : l \in {l \in GivenLinks(c) : Span(c, l) /\ ~c.link[l].wired /\ c.link[l].tx \in on /\ c.link[l].rx \in on
                                                                                       /\ ((c.link[l].tx \in odd) = (c.link[l].rx \in odd))}})
     \cup {"delivered" : d \in {d \in DOMAIN c.dem : ~FNear(FAdd(Delivered(c, r, d), r.short[d]), c.dem[d].need, Tol)}}
     \cup {"shortage" : d \in {d \in DOMAIN c.dem : FLt(r.short[d], "-0.00001") \/ ~FLeT(r.short[d], c.dem[d].need, Tol)}}
     \cup (IF FNear(r.cost, Spent(c, r), Tol) THEN {} ELSE {"cost"})

(* ---- M01: the cheapest network that covers enough --------------------- *)
Enough(c, S, D, tol) ==
  IF c.cfg.common
  THEN LET t == FMul(c.cov, MinNeed(c, D)) IN FLe(FSub(t, tol), Even(c, S, D, t))
  ELSE FLe(FSub(FMul(c.cov, TotalNeed(c)), tol), Most(c, S))
CostFails(c0) == IF c0.kind = "crash" THEN {"crash"} ELSE
  LET c == [c0 EXCEPT !.blocked = {}]
      CC == Options(c)
      Sets == IF c.cfg.common THEN Connectable(c) ELSE {{}}
      possible == \E D \in Sets : (~c.cfg.common \/ D # {}) /\ \E S \in Largest(CC) : Enough(c, S, D, "0.000000001")
  IN IF c.out = <<>>
     THEN (IF possible THEN {"gave-up"} ELSE {})
     ELSE LET r == c.out[1]
              cheaper == Largest({S \in CC : FLt(Cost(c, S), FSub(r.objective, "0.01"))})
              equal == {S \in CC : FNear(Cost(c, S), r.objective, "0.00001")}
          IN Faults(c, r)
             \cup (IF \E D \in Sets : (~c.cfg.common \/ D # {}) /\ ~\E S \in cheaper : Enough(c, S, D, "0.000000001") THEN {} ELSE {"not-cheapest"})
             \cup (IF \E D \in Sets : \E S \in equal : (~c.cfg.common \/ D # {}) /\ Enough(c, S, D, Tol) THEN {} ELSE {"impossible-objective"})
             \cup (IF FLeT(r.cost, r.objective, Tol) THEN {} ELSE {"dearer-than-objective"})
             \cup (IF c.cfg.common
                   THEN IF \E D \in Sets : \A d \in D : FLe(FSub(FMul(c.cov, MinNeed(c, D)), Tol), FSub(c.dem[d].need, r.short[d])) THEN {} ELSE {"uncovered"}
                   ELSE IF FLe(SumF([d \in DOMAIN c.dem |-> r.short[d]], DOMAIN c.dem), FAdd(FMul(FSub("1", c.cov), TotalNeed(c)), Tol)) THEN {} ELSE {"uncovered"})

(* ---- M02: the most a budget buys -------------------------------------- *)
CoverFails(c0) == IF c0.kind = "crash" THEN {"crash"} ELSE
  LET c == [c0 EXCEPT !.blocked = Range(c0.blocked)]
      CC == {S \in Options(c) : FLeT(Cost(c, S), c.cfg.budget, "0.0000001")}
      top == Largest(CC)
      Sets == IF c.cfg.common THEN Connectable(c) ELSE {{}}
      gain(D) == IF c.cfg.common THEN (IF D = {} THEN "0" ELSE Best({Even(c, S, D, MinNeed(c, D)) : S \in top}))
                 ELSE Best({Most(c, S) : S \in top})
      bound(D) == IF c.cfg.common THEN FNeg(gain(D)) ELSE FSub(TotalNeed(c), gain(D))
      barred == ~FLt("0", c.cfg.budget)
  IN IF c.out = <<>>
     THEN (IF ~barred /\ CC # {} /\ \A D \in Sets : FLt(Tol, gain(D)) THEN {"gave-up"} ELSE {})
     ELSE LET r == c.out[1] IN
          Faults(c, r)
          \cup (IF barred THEN {"no-budget"} ELSE {})
          \cup (IF FLeT(r.cost, c.cfg.budget, Tol) THEN {} ELSE {"over-budget"})
          \cup (IF \E D \in Sets : FNear(r.objective, bound(D), Tol) THEN {} ELSE {"not-most"})
          \cup (IF c.cfg.common
                THEN IF \E D \in Sets : \A d \in D : FLeT(FNeg(r.objective), FSub(c.dem[d].need, r.short[d]), Tol) THEN {} ELSE {"uneven"}
                ELSE IF FNear(r.objective, SumF([d \in DOMAIN c.dem |-> r.short[d]], DOMAIN c.dem), Tol) THEN {} ELSE {"objective"})

(* ---- M04: what a finished network delivers ---------------------------- *)
FlowFails(c0) == IF c0.kind = "crash" THEN {"crash"} ELSE
  LET c == [c0 EXCEPT !.blocked = {}, !.cfg.blind = TRUE]
      S == {s \in Sites(c) : c.site[s].status \in Given}
      live(k) == k \in DOMAIN c.sec /\ c.sec[k].status \in Given
      U0 == {l \in Links(c) : Real(c, l) /\ c.link[l].status \in Given /\ l \notin Range(c.spare) /\ c.link[l].tx \in S /\ c.link[l].rx \in S}
      U == {l \in U0 : c.link[l].wired \/ (live(c.link[l].ts) /\ live(c.link[l].rs))}
      D == Fed(c, S, U0)
      all == DOMAIN c.dem
      lim == FMul(c.cfg.pop, FInt(Cardinality({s \in Sites(c) : c.site[s].type = "POP"})))
      top == LpMax({<<"1", "b">>}, Rows(c, S, U, D) \cup Bare(c, S, D))
  IN IF D = {} THEN (IF c.out = <<>> THEN {} ELSE {"nobody-to-serve"})
     ELSE IF c.out = <<>> THEN {"gave-up"}
     ELSE LET r == c.out[1] IN
          FlowFaults(c, r, S)
          \cup {"dead-flow" : l \in {l \in Links(c) \ U : Used(r, l)}}
          \cup (IF Range(r.connected) = D THEN {} ELSE {"connected"})
          \cup (IF FNear(r.buffer, top, Tol) THEN {} ELSE {"not-most"})
          \cup {"uneven" : d \in {d \in all : ~FNear(Delivered(c, r, d), IF d \in D THEN r.buffer ELSE "0", Tol)}}
=============================================================================
