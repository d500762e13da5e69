---------------------------- MODULE Interference ----------------------------
(* Which links of a finished set of sites are switched on, in which channel.

   c is a plan of Capacity; besides
     link: ... [dist, rsl, raz]   length, received level (dBm), azimuth at rx
     heard: link -> level (dBm) at the receiver when its transmitter disturbs
     gear: site -> [noise, rows, scan]  rows = <<[snr, gbps], ...>>
     clash: <<<<i, j, k>>, ...>>  the links i-j and i-k are too close together
     lim: [dn, all, chan]         links per sector, number of channels
   The sites are settled.  Polarities, channels, links and modulation classes
   are enumerated, what then can be carried is the optimum of a linear
   programme.                                                              *)
EXTENDS Capacity

Dbm(x) == FPow("10", FDiv(x, "10"))
\* of several given sites in one place the highest type stays
Rank(t) == IF t = "POP" THEN 2 ELSE IF t = "DN" THEN 1 ELSE 0
Stay(c) == {s \in Sites(c) : /\ c.site[s].status \in Given
                             /\ \A t \in Group(c, s) : c.site[t].status \in Given => Rank(c.site[t].type) <= Rank(c.site[s].type)}
\* links that were only proposed are open again
Reopen(c) == [c EXCEPT !.blocked = {}, !.link = [l \in Links(c) |-> [c.link[l] EXCEPT !.status = IF @ = "PROPOSED" THEN "CANDIDATE" ELSE @]]]

\* the wireless links there are, and those that may be switched on
Air(c) == {l \in Links(c) : ~c.link[l].wired /\ c.link[l].ts # "none" /\ FLt("0", c.link[l].cap)}
Ready(c, S) == {l \in Air(c) : c.link[l].status \notin Dead /\ c.link[l].tx \in S /\ c.link[l].rx \in S}
Lines(c, S) == {l \in Links(c) : c.link[l].wired /\ c.link[l].status \notin Dead /\ FLt("0", c.link[l].cap) /\ c.link[l].tx \in S /\ c.link[l].rx \in S}
Both(c, l) == {l} \cup {m \in Air(c) : c.link[m].tx = c.link[l].rx /\ c.link[m].rx = c.link[l].tx}
Edges(c, S) == {e \in {Both(c, l) : l \in Ready(c, S)} : e \subseteq Ready(c, S)}
Must(c, S) == {e \in Edges(c, S) : \E l \in e : c.link[l].status = "EXISTING"}

Heads(c, S) == {k \in DOMAIN c.sec : Spine(c, c.sec[k].site) /\ \E l \in Ready(c, S) : k \in {c.link[l].ts, c.link[l].rs}}
Channels(c, S) ==
  LET K == Heads(c, S)
      one == IF K = {} THEN "none" ELSE CHOOSE k \in K : TRUE
  IN IF c.lim.chan = 1 THEN {[k \in K |-> 0]} ELSE {g \in [K -> 0..(c.lim.chan - 1)] : one = "none" \/ g[one] = 0}

Tuned(c, g, l) == ~Span(c, l) \/ g[c.link[l].ts] = g[c.link[l].rs]
\* pairs of links that must not be on in the same channel
Quarrel(c, l, m) == \E t \in Range(c.clash) :
                       /\ c.link[l].tx = t[1] /\ c.link[l].rx = t[2] /\ c.link[m].tx = t[1] /\ c.link[m].rx = t[3]
                       /\ ~(c.link[l].status = "EXISTING" /\ c.link[m].status = "EXISTING")
Quarrels(c) == {p \in Air(c) \X Air(c) : Quarrel(c, p[1], p[2])}
Orderly(c, g, U, Q) ==
  /\ \A k \in DOMAIN c.sec : Spine(c, c.sec[k].site) =>
        LET T == {l \in U : c.link[l].ts = k} IN Cardinality({l \in T : Span(c, l)}) <= c.lim.dn /\ Cardinality(T) <= c.lim.all
  /\ \A s \in Sites(c) : ~Spine(c, s) => Cardinality({l \in U : c.link[l].rx = s}) <= 1
  /\ \A p \in Q : ~(p[1] \in U /\ p[2] \in U /\ g[c.link[p[1]].ts] = g[c.link[p[2]].ts])

Longest(c) == FMaxSeq(SetToSeq({c.link[l].dist : l \in Links(c)}))
WeightOf(c, big) == [l \in Air(c) |-> IF FLe(big, "0") THEN "1" ELSE FAdd("1", FDiv(FSub(big, c.link[l].dist), big))]

(* ---- interference ------------------------------------------------------ *)
Turn(a, b) == LET d == FMod(FSub(a, b), "360") IN FMin2(d, FSub("360", d))
\* the sectors that are heard along m while l is received
Disturbs(c, S, l, m) ==
  LET r == c.link[l].rx IN
  /\ m \in Air(c) /\ c.link[m].rx = r /\ c.link[m].tx # c.link[l].tx /\ c.link[m].tx \in S
  /\ IF Spine(c, r) THEN c.link[m].rs = c.link[l].rs
     ELSE FLe("360", c.gear[r].scan) \/ FLt(Turn(c.link[m].raz, c.link[l].raz), FDiv(c.gear[r].scan, "2"))
Level(c, m) == IF m \in DOMAIN c.heard THEN Dbm(c.heard[m]) ELSE "0"
\* every pair of a path that is heard on l, and a link of U that causes it
Noises(c, S, U, l, same(_, _), chan(_)) ==
  {<<m, o>> \in Air(c) \X U : /\ Disturbs(c, S, l, m) /\ c.link[o].tx = c.link[m].tx /\ c.link[o].ts = c.link[m].ts /\ c.link[o].rx # c.link[l].rx
                              /\ c.link[o].rx \in S /\ same(c.link[m].tx, c.link[l].tx) /\ chan(o) = chan(l)}

NoiseOf(c, l) == Dbm(c.gear[c.link[l].rx].noise)
Ratio(c, l) == FDiv(Dbm(c.link[l].rsl), NoiseOf(c, l))             \* signal over bare noise
RowsOf(c, l) == c.gear[c.link[l].rx].rows
Slack(c, l, i) == FSub(FDiv(Ratio(c, l), Dbm(RowsOf(c, l)[i].snr)), "1")  \* disturbance a class bears, in units of noise
Classes(c, l) == {i \in DOMAIN RowsOf(c, l) : FLt("0", RowsOf(c, l)[i].gbps) /\ FLe("0", Slack(c, l, i))}
Top(c, l) == Best({RowsOf(c, l)[i].gbps : i \in Classes(c, l)})

(* ---- what a set of links delivers -------------------------------------- *)
\* every disturbed link settles for a class (0: none)
Settle(c, IL) == {h \in [IL -> 0..5] : \A l \in IL : h[l] = 0 \/ h[l] \in Classes(c, l)}
ClassRows(c, IL, h, N) ==
  {<<{<<"1", L(l)>>}, IF h[l] = 0 THEN "0" ELSE RowsOf(c, l)[h[l]].gbps>> : l \in IL}
  \cup {<<{<<FDiv(FDiv(Level(c, p[1]), NoiseOf(c, l)), c.link[p[2]].cap), L(p[2])>> : p \in N[l]}, Slack(c, l, h[l])>> : l \in {l \in IL : h[l] # 0}}
Offer(c, S, W, same(_, _), chan(_), goal(_), least) ==
  LET U == W \cup Lines(c, S)
      N == [l \in W |-> Noises(c, S, W, l, same, chan)]
      IL == {l \in W : N[l] # {} /\ Classes(c, l) # {}}
      calm == {<<{<<"1", L(l)>>}, Top(c, l)>> : l \in W}
      free == goal(<<U, calm>>)
  IN IF IL = {} \/ ~FLt(least, free) THEN free
     ELSE Best({goal(<<U, calm \cup ClassRows(c, IL, h, N)>>) : h \in Settle(c, IL)})

\* the most in total, or for everybody in D
Total(c, S, x) == LET D == DOMAIN c.dem IN
  LpMax({<<"1", X(e[1], e[2])>> : e \in Hand(c, S, D)}, Rows(c, S, x[1], D) \cup Needs(c, S, D) \cup x[2])
Share(c, S, D, x) == LET all == DOMAIN c.dem IN
  LpMax({<<"1", "b">>}, Rows(c, S, x[1], all) \cup Needs(c, S, all) \cup Bare(c, S, D) \cup {<<{<<"1", "b">>}, MinNeed(c, D)>>} \cup x[2])

(* ---- every way to switch the links on ----------------------------------- *)
\* least: how much weight a set of links must have to be of interest
Sets(c, S, f, g, Q, wt, least) ==
  LET E == {e \in Edges(c, S) : \A l \in e : Apart(c, f, l) /\ Tuned(c, g, l)}
      M == Must(c, S)
      fine == {W \in {M \cup V : V \in SUBSET (E \ M)} : FLt(least, SumF(wt, UNION W)) /\ Orderly(c, g, UNION W, Q)}
  IN IF ~(M \subseteq E) THEN {}
     ELSE {UNION W : W \in {W \in fine : \A e \in E \ W : (W \cup {e}) \notin fine}}

Here(c, S) == [c EXCEPT !.site = [s \in S |-> c.site[s]],
                        !.link = [l \in {l \in Links(c) : c.link[l].tx \in S /\ c.link[l].rx \in S} |-> c.link[l]]]
\* is there a way whose value is below the bound?  value = M * lack - weight
Better(c, S, bound, mode, D) ==
  LET wt == WeightOf(c, Longest(c))
      M == TotalNeed(c)
      Q == Quarrels(c)
      scale == IF mode = "total" THEN M ELSE FMul(M, FInt(Cardinality(DOMAIN c.dem)))
      \* value - M*lack of the best imaginable
      ideal == IF mode = "total" THEN "0" ELSE IF D = {} THEN "0" ELSE FNeg(FMul(scale, MinNeed(c, D)))
  IN \E f \in Cols(Here(c, S)) : \E g \in Channels(c, S) :
       LET same(a, b) == c.cfg.blind \/ f[a] = f[b]
           chan(l) == g[c.link[l].ts]
       IN \E W \in Sets(c, S, f, g, Q, wt, FSub(ideal, bound)) :
            LET w == SumF(wt, W)
                \* what must be delivered to be better
                need == IF mode = "total" THEN FDiv(FSub(FSub(FMul(M, M), w), bound), M) ELSE FDiv(FSub(FNeg(w), bound), scale)
            IN IF mode = "total" THEN FLt(need, Offer(c, S, W, same, chan, LAMBDA x : Total(c, S, x), need))
               ELSE IF D = {} THEN FLt(FNeg(w), bound)
               ELSE FLt(need, Offer(c, S, W, same, chan, LAMBDA x : Share(c, S, D, x), need))

\* the largest sets of demands that can be connected
Wired(c, S) ==
  LET Q == Quarrels(c)
      wt == WeightOf(c, Longest(c))
      all == UNION {UNION {{Fed(c, S, W \cup Lines(c, S)) : W \in Sets(c, S, f, g, Q, wt, "-1")} : g \in Channels(c, S)} : f \in Cols(Here(c, S))}
  IN {D \in all : \A E \in all : Cardinality(E) <= Cardinality(D)}

(* ---- what every outcome must respect ------------------------------------ *)
Busy(r, l) == IF l \in DOMAIN r.tdm THEN r.tdm[l] ELSE "0"
\* the classes the reported airtime leaves to a link
Held(c, S, r, l) ==
  LET odd == Range(r.odd)
      same(a, b) == c.cfg.blind \/ (a \in odd) = (b \in odd)
      chan(m) == r.chan[c.link[m].ts]
      U == {m \in Range(r.links) : m \in Air(c)}
      N == Noises(c, S, U, l, same, chan)
      heard == FDiv(SumF([p \in N |-> FMul(Level(c, p[1]), Busy(r, p[2]))], N), NoiseOf(c, l))
  IN {i \in DOMAIN RowsOf(c, l) : FLeT(FMul(FAdd(heard, "1"), Dbm(RowsOf(c, l)[i].snr)), Ratio(c, l), "0.002")}
Switched(c, S, r) ==
  LET lnk == Range(r.links)
      air == lnk \cap Air(c)
      on == Range(r.on)
      odd == Range(r.odd)
      even == Range(r.even)
      served == UNION {Range(c.dem[d].sites) : d \in DOMAIN c.dem}
      f == [s \in Spines(c) |-> IF s \in odd THEN 1 ELSE 0]
      touched == {c.link[l].tx : l \in lnk} \cup {c.link[l].rx : l \in lnk}
  IN FlowFaults(c, r, on)
     \cup (IF lnk \subseteq Links(c) THEN {} ELSE {"unknown-link"})
     \cup {"off-stage" : l \in air \ Ready(c, S)}
     \cup {"line" : l \in {l \in Links(c) \ Air(c) : IF c.link[l].wired /\ ~FLt("0", c.link[l].cap) /\ c.link[l].status \notin Dead THEN l \in lnk /\ ~({c.link[l].tx, c.link[l].rx} \subseteq S)
                                                                  ELSE (l \in lnk) # (l \in Lines(c, S))}}
     \cup {"dark" : l \in {l \in Links(c) \ lnk : Used(r, l)}}
     \cup {"one-way" : l \in {l \in air : ~(Both(c, l) \subseteq air)}}
     \cup {"lost-link" : e \in {e \in Must(c, S) : ~(e \subseteq air)}}
     \cup {"same-polarity" : l \in {l \in air : ~Apart(c, f, l)}}
     \cup {"channels" : l \in {l \in air : r.chan[c.link[l].ts] # r.chan[c.link[l].rs]}}
     \cup (IF Orderly(c, r.chan, air, Quarrels(c)) THEN {} ELSE {"disorder"})
     \cup {"sites" : s \in {s \in Sites(c) : (s \in on) # (s \in S /\ s \in touched \cup served)}}
     \cup (IF c.cfg.blind THEN {"polarity" : x \in odd \cup even}
           ELSE {"polarity" : s \in {s \in Spines(c) : IF s \in on THEN (s \in odd) = (s \in even) ELSE s \in odd \cup even}})
     \cup {"sectors" : k \in {k \in DOMAIN c.sec : (k \in Range(r.secs)) # (\E l \in lnk : k \in Kin(c, l))}}
     \cup {"channel" : k \in {k \in DOMAIN c.sec : IF k \in Range(r.secs) THEN r.chan[k] \notin 0..(c.lim.chan - 1) ELSE r.chan[k] # -1}}
     \cup {"class" : l \in {l \in air : Used(r, l) /\ ~\E i \in Held(c, S, r, l) : FLeT(FlowOf(r, l), RowsOf(c, l)[i].gbps, Tol)}}
     \cup {"delivered" : d \in {d \in DOMAIN c.dem : ~FNear(FAdd(Delivered(c, r, d), r.short[d]), c.dem[d].need, Tol)}}
     \cup {"shortage" : d \in {d \in DOMAIN c.dem : FLt(r.short[d], "-0.00001") \/ ~FLeT(r.short[d], c.dem[d].need, Tol)}}
     \cup (IF FNear(r.cost, Spent(c, r), Tol) THEN {} ELSE {"cost"})

Lacking(c, r) == SumF([d \in DOMAIN c.dem |-> r.short[d]], DOMAIN c.dem)
ValueIs(c, r, mode, D) ==
  LET wt == WeightOf(c, Longest(c))
      w == SumF(wt, Range(r.links) \cap Air(c))
      M == TotalNeed(c)
      b == FMinSeq(SetToSeq({FSub(c.dem[d].need, r.short[d]) : d \in D}))
  IN IF mode = "total" THEN FNear(r.objective, FSub(FMul(M, Lacking(c, r)), w), Tol)
     ELSE IF D = {} THEN FNear(r.objective, FNeg(w), Tol)
     ELSE FNear(r.objective, FSub(FNeg(FMul(FMul(M, FInt(Cardinality(DOMAIN c.dem))), b)), w), "0.001")
Edge(x) == FSub(x, FMul("0.0002", FAdd("1", FAbs(x))))
ModeFails(c, S, r, mode, D) ==
  (IF ValueIs(c, r, mode, D) THEN {} ELSE {"objective"}) \cup (IF Better(c, S, Edge(r.objective), mode, D) THEN {"not-best"} ELSE {})

SwitchFails(c0) == IF c0.kind = "crash" THEN {"crash"} ELSE
  LET c == Reopen(c0)
      S == Stay(c)
      M == TotalNeed(c)
      wt == WeightOf(c, Longest(c))
      DD == IF c.cfg.common THEN Wired(c, S) ELSE {{}}
      \* with nothing delivered, only the weight counts
      idle == FMinSeq(SetToSeq({FSub(FMul(M, M), SumF(wt, W)) :
                 W \in UNION {UNION {Sets(c, S, f, g, Quarrels(c), wt, "-1") : g \in Channels(c, S)} : f \in Cols(Here(c, S))}}))
      some == \E f \in Cols(Here(c, S)) : \E g \in Channels(c, S) : Sets(c, S, f, g, Quarrels(c), wt, "-1") # {}
      nobody(D) == D = {} \/ ~Better(c, S, Edge(FSub(idle, FMul(M, M))), "common", D)
  IN IF c.out = <<>>
     THEN (IF some /\ S # {} /\ Better(c, S, Edge(idle), "total", {}) /\ (~c.cfg.common \/ \A D \in DD : ~nobody(D)) THEN {"gave-up"} ELSE {})
     ELSE LET r == c.out[1] IN
          Switched(c, S, r)
          \cup (IF ~c.cfg.common THEN ModeFails(c, S, r, "total", {})
                ELSE IF \/ \E D \in DD : ModeFails(c, S, r, "common", D) = {}
                        \/ (\E D \in DD : nobody(D)) /\ ModeFails(c, S, r, "total", {}) = {} THEN {} ELSE {"not-fair"})
=============================================================================
