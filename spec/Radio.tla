------------------------------- MODULE Radio -------------------------------
(* The radio model: propagation losses, antenna gains, noise, modulation
   classes, transmit power, capacity (R01) and who interferes with whom (I01).

   A radio r = [boresight, txdiv, rxdiv, txloss, rxloss, freq (MHz), thermal,
   nf, rain, avail, max, min ("none" if unset), mcs, scan, ant]
   mcs: sequence of [mcs, snr, mbps, backoff]
   scan: "none" or a sequence of [az, row], row a sequence of [el, gain]
   ant: <<>> or <<slopes [r, l, u, d]>> of a beam pattern: the gain falls by r
   (l) dB per degree clockwise (anticlockwise) and by u (d) upwards (downwards) *)
EXTENDS F, Integers, Sequences, FiniteSets, TLC

Inf == "Infinity"
NegInf == "-Infinity"
Silent(x) == ~FIsFinite(x) /\ FLt(x, "0")
Eps == "1e-7"
Near(a, b) == FNear(a, b, Eps)

\* ---- propagation -------------------------------------------------------
Fspl(km, ghz) == FMax2("0", FAdd(FMul("20", FAdd(FLog10(km), FLog10(ghz))), "92.45"))

\* dB/km at whole GHz from 52 to 68, linear in between, nothing outside
Absorption == <<"0", "1", "2.2", "4", "6.6", "9.7", "12.6", "14.6", "15", "14.6", "14.3",
                "10.5", "6.8", "3.9", "1.9", "1", "0">>
Oxygen(km, ghz) ==
  IF FLt(ghz, "52") \/ FLt("68", ghz) THEN "0"
  ELSE LET lo == FFloor(ghz)
           k == IF lo >= 68 THEN 67 ELSE lo
           w == FSub(ghz, FInt(k))
       IN FMul(km, FAdd(FMul(FSub("1", w), Absorption[k - 51]), FMul(w, Absorption[k - 50])))

\* ITU rain attenuation not exceeded for the required availability
Rain(km, ghz, rate, avail) ==
  IF ~FLt("0", km) THEN "0" ELSE
  LET p == FSub("100", avail)
      spec == FMul("0.8515", FPow(rate, "0.7486"))
      den == FSub(FMul(FMul(FMul("0.477", FPow(km, "0.633")), FPow(rate, FMul("0.073", "0.7486"))), FPow(ghz, "0.123")),
                  FMul("10.579", FSub("1", FExp(FMul("-0.024", km)))))
      r == FMin2(FDiv("1", den), "2.5")
      a == FMul(FMul(spec, km), r)
      c0 == FAdd("0.12", FMul("0.4", FLog10(FPow(FDiv(ghz, "10"), "0.8"))))
      c0n == FSub("1", c0)
      c1 == FMul(FPow("0.07", c0), FPow("0.12", c0n))
      c2 == FAdd(FMul("0.855", c0), FMul("0.546", c0n))
      c3 == FAdd(FMul("0.139", c0), FMul("0.043", c0n))
  IN IF ~FLt("0", p) THEN IF FLt("0", a) THEN Inf ELSE "0"
     ELSE FMax2("0", FMul(FMul(a, c1), FPow(p, FNeg(FAdd(c2, FMul(c3, FLog10(p)))))))

\* ---- antennas: sets of values, because a deviation may lie midway --------
Key(x) == x
RECURSIVE Least(_, _, _)
Least(s, f(_), i) == IF i > Len(s) THEN Inf ELSE FMin2(f(s[i]), Least(s, f, i + 1))
AzDist(row, az) == FAbs(FSub(row.az, az))
ScanRows(scan, az) ==
  LET m == FMinSeq([i \in DOMAIN scan |-> AzDist(scan[i], az)])
  IN {i \in DOMAIN scan : Near(AzDist(scan[i], az), m)}
RowGains(row, el) ==
  LET d == [i \in DOMAIN row |-> FAbs(FSub(row[i].el, el))]
      m == FMinSeq(d)
  IN {row[i].gain : i \in {j \in DOMAIN row : Near(d[j], m)}}
ScanPeak(scan) == FMaxSeq([i \in DOMAIN scan |-> FMaxSeq([j \in DOMAIN scan[i].row |-> scan[i].row[j].gain])])
ScanGains(scan, az, el) ==
  LET peak == ScanPeak(scan)
  IN {FSub(g, peak) : g \in UNION {RowGains(scan[i].row, el) : i \in ScanRows(scan, az)}}
Whole(x) ==   \* whole degrees x may stand for
  LET f == FFloor(x)
      q == FSub(x, FInt(f))
  IN (IF FLt(q, "0.5000001") THEN {f} ELSE {}) \union (IF FLt("0.4999999", q) THEN {f + 1} ELSE {})
Slope(k, pos, neg) == LET a == ((k % 360) + 360) % 360
                      IN IF a <= 180 THEN FMul(FNeg(pos), FInt(a)) ELSE FMul(FNeg(neg), FInt(360 - a))
BeamGains(ant, az, el) ==
  {FAdd(Slope(a, ant.r, ant.l), Slope(e, ant.u, ant.d)) : a \in Whole(az), e \in Whole(el)}

\* ---- budget ------------------------------------------------------------
Km(c) == FDiv(c.dist, "1000")
Ghz(r) == FDiv(r.freq, "1000")
Loss(c, tx) == FAdd(FAdd(Fspl(Km(c), Ghz(tx)), Oxygen(Km(c), Ghz(tx))), Rain(Km(c), Ghz(tx), tx.rain, tx.avail))
NetGains(c, tx, rx, gt, gr) ==
  LET l == Loss(c, tx)
  IN {FSub(FAdd(FSub(FAdd(FAdd(tx.boresight, tx.txdiv), a), tx.txloss),
                FSub(FAdd(FAdd(rx.boresight, rx.rxdiv), b), rx.rxloss)), l) : a \in gt, b \in gr}
Steer(r, az, el) == IF r.scan = <<>> THEN {"0"} ELSE ScanGains(r.scan, az, el)
Beam(r, az, el) == IF r.ant = <<>> THEN {"0"} ELSE BeamGains(r.ant[1], az, el)
Noise(r) == FAdd(r.thermal, r.nf)
MaxTx(r, eirp) ==
  LET cap == IF eirp = "none" THEN r.max ELSE FMin2(r.max, FSub(eirp, FAdd(r.boresight, r.txdiv)))
  IN IF r.min = "none" THEN cap ELSE FMax2(r.min, cap)

Need(m, np, ng, min) == LET p == FSub(FAdd(m.snr, np), ng) IN IF min = "none" THEN p ELSE FMax2(min, p)
\* classes certainly / possibly usable: threshold met at full power, and the
\* power it needs within full power less its back-off
Sure(T, snr, np, ng, min, max) ==
  {m \in DOMAIN T : FLt(FAdd(T[m].snr, Eps), snr) /\ FLt(FAdd(Need(T[m], np, ng, min), Eps), FSub(max, T[m].backoff))}
Maybe(T, snr, np, ng, min, max) ==
  {m \in DOMAIN T : FLt(T[m].snr, FAdd(snr, Eps)) /\ FLt(Need(T[m], np, ng, min), FAdd(FSub(max, T[m].backoff), Eps))}
Level(T, m) == IF m = 0 THEN 0 ELSE T[m].mcs
Backoff(T, m) == IF m = 0 THEN "0" ELSE T[m].backoff
Rate(T, m) == IF m = 0 THEN "0" ELSE FDiv(T[m].mbps, "1000")
BestLevels(T, sure, maybe) ==   \* rows (0: none)
  {m \in maybe \union {0} : \A k \in sure : Level(T, k) <= Level(T, m)}

Measured(g, T, m, max, ng, np) ==
  LET tx == FSub(max, Backoff(T, m))
  IN g.mcs = Level(T, m) /\ Near(g.cap, Rate(T, m)) /\ Near(g.tx, tx)
     /\ Near(g.rsl, FAdd(tx, ng)) /\ Near(g.snr, FSub(FAdd(tx, ng), np))
BudgetOK(g, tx, rx, ngs, max) ==
  LET T == rx.mcs
      np == Noise(rx)
  IN \E ng \in ngs :
       LET snr == FSub(FAdd(max, ng), np)
       IN \E m \in BestLevels(T, Sure(T, snr, np, ng, tx.min, max), Maybe(T, snr, np, ng, tx.min, max)) :
            Measured(g, T, m, max, ng, np)
BudgetFails(c) ==
  LET ngs == NetGains(c, c.tx, c.rx, Steer(c.tx, c.txaz, c.txel), Steer(c.rx, c.rxaz, c.rxel))
  IN IF BudgetOK(c.got, c.tx, c.rx, ngs, MaxTx(c.tx, c.eirp)) THEN {} ELSE {"link_budget"}

\* ordered pairs of otherwise equal links: the second is the worse one
WorseFails(c) ==
  (IF FLeT(c.worse.rsl, c.better.rsl, "1e-9") \/ c.worse.mcs # c.better.mcs THEN {} ELSE {"worse_link_received_louder"})
  \union (IF c.worse.mcs <= c.better.mcs THEN {} ELSE {"worse_link_higher_class"})
  \union (IF FLe(c.worse.cap, c.better.cap) THEN {} ELSE {"worse_link_more_capacity"})

\* ---- networks ----------------------------------------------------------
(* c.radio[name]; c.site[s] = [type, status, pol, radio]; c.sec[k] = [site,
   status, channel]; c.link[l] = [tx, rx, wireless, status, ts, rs, redundant,
   dist, taz, raz (deviations from the sectors' azimuths), el, mcs, cap, txp,
   rsl, snr, sinr] *)
Act == {"PROPOSED", "EXISTING"}
Links(c) == DOMAIN c.link \ {"none"}
Deg(a) == FSub("180", FMod(FSub("180", a), "360"))          \* into (-180, 180]
Tx(c, l) == c.radio[c.site[c.link[l].tx].radio]
Rx(c, l) == c.radio[c.site[c.link[l].rx].radio]
InSector(c, l) == c.link[l].wireless /\ c.link[l].ts # "none"
Live(c, l) == c.link[l].wireless /\ c.link[l].status \in Act
IsAccess(c, l) == c.site[c.link[l].rx].type = "CN"

\* a CN listens in the slot opposite to its serving site's
Opposite(p) == IF p = "ODD" THEN "EVEN" ELSE IF p = "EVEN" THEN "ODD" ELSE "UNASSIGNED"
Pol(c, s) ==
  IF c.site[s].type # "CN" THEN c.site[s].pol
  ELSE LET ps == {Opposite(c.site[c.link[l].tx].pol) : l \in {m \in Links(c) : c.link[m].rx = s /\ c.link[m].status \in Act}}
       IN IF Cardinality(ps) = 1 THEN CHOOSE p \in ps : TRUE ELSE "UNASSIGNED"
SlotsMeet(c, l) ==
  LET a == Pol(c, c.link[l].tx)  b == Pol(c, c.link[l].rx)
  IN "UNASSIGNED" \in {a, b} \/ a # b
ChannelsMeet(c, l) ==
  LET a == c.sec[c.link[l].ts].channel  b == c.sec[c.link[l].rs].channel
  IN a = b \/ -1 \in {a, b}
\* a path along which one transmitting sector is heard by another
Path(c, l) ==
  /\ InSector(c, l)
  /\ c.sec[c.link[l].ts].status \in Act /\ c.sec[c.link[l].rs].status \in Act
  /\ c.site[c.link[l].tx].status \in Act /\ c.site[c.link[l].rx].status \in Act
  /\ SlotsMeet(c, l) /\ ChannelsMeet(c, l)
\* links whose traffic, leaving the same sector, is heard along path p by
\* the receiver of link l
Disturbers(c, p, l) ==
  {t \in Links(c) : InSector(c, t) /\ c.link[t].ts = c.link[p].ts /\ Live(c, t) /\ ~c.link[t].redundant
                    /\ c.link[t].rs # c.link[p].rs /\ c.link[t].rs # c.link[l].ts}
Paths(c, l) ==
  {p \in Links(c) : Path(c, p) /\ c.link[p].rs = c.link[l].rs /\ c.link[p].ts # c.link[l].ts}
Turn(a, b) == Deg(FSub(a, b))
PathGains(c, p, t, l) ==
  NetGains(c.link[p], Tx(c, p), Rx(c, p),
    Beam(Tx(c, p), Turn(c.link[p].taz, c.link[t].taz), Turn(c.link[p].el, c.link[t].el)),
    Beam(Rx(c, p), Turn(c.link[p].raz, c.link[l].raz), FNeg(Turn(c.link[p].el, c.link[l].el))))

Lin(db) == FPow("10", FDiv(db, "10"))
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN "0" ELSE LET x == CHOOSE y \in S : TRUE IN FAdd(f[x], SumOver(S \ {x}, f))
\* the sector serves its links in turn: the mean over them
HeardOn(c, p, l, pick(_)) ==
  LET D == Disturbers(c, p, l)
  IN IF D = {} THEN "0"
     ELSE FDiv(SumOver(D, [t \in D |-> Lin(FAdd(c.link[t].txp, pick(PathGains(c, p, t, l))))]), FInt(Cardinality(D)))
Low(S) == CHOOSE x \in S : \A y \in S : FLe(x, y)
High(S) == CHOOSE x \in S : \A y \in S : FLe(y, x)
Interference(c, l, pick(_)) ==
  LET P == IF InSector(c, l) THEN Paths(c, l) ELSE {}
  IN SumOver(P, [p \in P |-> HeardOn(c, p, l, pick)])
Sinr(c, l, pick(_)) == FSub(c.link[l].rsl, FMul("10", FLog10(FAdd(Interference(c, l, pick), Lin(Noise(Rx(c, l)))))))

SinrFails(c) ==
  UNION {LET v == c.link[l]
         IN IF Silent(v.rsl) THEN IF Silent(v.sinr) THEN {} ELSE {"sinr_without_signal"}
            ELSE IF FLeT(Sinr(c, l, High), v.sinr, "1e-6") /\ FLeT(v.sinr, Sinr(c, l, Low), "1e-6") THEN {}
            ELSE IF Interference(c, l, High) = "0" THEN {"noise_limited_sinr"} ELSE {"sinr"} :
         l \in {m \in Links(c) : Live(c, m)}}

\* worst case received level of each candidate path (used while optimizing)
WorstFails(c) ==
  UNION {LET v == c.link[l]  want == IF ~InSector(c, l) THEN {NegInf}
               ELSE {FAdd(MaxTx(Tx(c, l), c.eirp), g) : g \in NetGains(v, Tx(c, l), Rx(c, l),
                        Beam(Tx(c, l), v.taz, v.el), Beam(Rx(c, l), v.raz, FNeg(v.el)))}
         IN IF \E x \in want : Near(x, c.worst[l]) THEN {} ELSE {"worst_case_interference"} :
         l \in Links(c)}

\* link budgets before (deviation ignored) and after sector alignment
StoredOK(c, l, dev) ==
  LET v == c.link[l]
      idle == v.mcs = 0 /\ Silent(v.rsl) /\ Silent(v.snr) /\ Silent(v.txp)
      tx == Tx(c, l)  rx == Rx(c, l)
      gt == IF dev THEN Steer(tx, v.taz, v.el) ELSE {"0"}
      gr == IF dev THEN Steer(rx, v.raz, IF IsAccess(c, l) THEN "0" ELSE FNeg(v.el)) ELSE {"0"}
  IN IF ~v.wireless THEN idle /\ Near(v.cap, c.popcap)
     ELSE IF v.ts = "none" THEN idle /\ Near(v.cap, "0")
     ELSE BudgetOK([mcs |-> v.mcs, rsl |-> v.rsl, snr |-> v.snr, cap |-> v.cap, tx |-> v.txp], tx, rx,
                   NetGains(v, tx, rx, gt, gr), MaxTx(tx, c.eirp))
StoredFails(c) == UNION {IF StoredOK(c, l, c.dev) THEN {} ELSE {"stored_budget"} : l \in Links(c)}

(* ---- transmit power control: a machine over the active wireless links ----
   c.start: budgets at full power; c.step[k]: the state after k rounds.  One
   round lowers every link's power to the least that keeps the class its
   SINR supports (none: the link falls silent).                            *)
Gain(c, l) == FSub(c.start[l].rsl, c.start[l].txp)
RowOf(T, level) == CHOOSE m \in DOMAIN T : T[m].mcs = level
\* state s of a link has the class and capacity its SINR supports
ClassOK(T, s) ==
  LET sure == {m \in DOMAIN T : FLe(FAdd(T[m].snr, "1e-7"), s.sinr)}
      maybe == {m \in DOMAIN T : FLe(FSub(T[m].snr, "1e-7"), s.sinr)}
  IN \E m \in BestLevels(T, sure, maybe) : s.mcs = Level(T, m) /\ Near(s.cap, Rate(T, m))
PowerOK(c, l, a, b, tol) ==   \* a: before the round, b: after
  LET T == Rx(c, l).mcs
      min == Tx(c, l).min
      max == MaxTx(Tx(c, l), c.eirp)
      ng == Gain(c, l)
      nai == FSub(a.rsl, a.sinr)
      fit(m, e) == FLt(Need(T[m], nai, ng, min), FAdd(FSub(max, T[m].backoff), e))
      cand == {m \in DOMAIN T : T[m].mcs <= a.mcs}
      sure == {m \in cand : fit(m, FNeg(Eps))}
      maybe == {m \in cand : fit(m, Eps)}
  IN IF Silent(a.txp) \/ a.mcs = 0 THEN Silent(b.txp) /\ Silent(b.rsl) /\ Silent(b.snr)
     ELSE \E m \in BestLevels(T, sure, maybe) :
            /\ IF m = 0 THEN Silent(b.txp) ELSE FNear(b.txp, Need(T[m], nai, ng, min), tol)
            /\ Near(b.rsl, FAdd(b.txp, ng)) /\ Near(b.snr, FSub(b.rsl, Noise(Rx(c, l))))
PowerFails(c) ==
  LET A == {l \in Links(c) : Live(c, l) /\ c.link[l].ts # "none"}
      n == Len(c.step)
      at(k, l) == c.step[k][l]
      silent(k, l) == Silent(at(k, l).txp)
      eff(c0, k) == [c0 EXCEPT !.link = [l \in DOMAIN c0.link |-> IF l = "none" THEN c0.link[l] ELSE
                       [c0.link[l] EXCEPT !.txp = at(k, l).txp, !.rsl = at(k, l).rsl, !.sinr = at(k, l).sinr]]]
      \* the rounds end once no power changes by more than 1e-5
      stopped(k) == \A l \in A : at(k, l) = at(k + 1, l)
  IN (IF \A k \in 1..n, l \in A : ClassOK(Rx(c, l).mcs, at(k, l)) THEN {} ELSE {"class_of_sinr"})
     \union (IF \A k \in 1..(n - 1), l \in A : PowerOK(c, l, at(k, l), at(k + 1, l), IF stopped(k) THEN "1e-4" ELSE Eps) THEN {} ELSE {"power_control_round"})
     \union UNION {SinrFails(eff(c, k)) : k \in 1..n}
     \union (IF \A k \in 1..n, l \in A : silent(k, l)
                \/ /\ FLeT(at(k, l).txp, MaxTx(Tx(c, l), c.eirp), "1e-9")
                   /\ Tx(c, l).min = "none" \/ FLeT(Tx(c, l).min, at(k, l).txp, "1e-9")
             THEN {} ELSE {"power_limits"})
     \* power never rises from round to round
     \union (IF \A k \in 1..(n - 1), l \in A : FLeT(at(k + 1, l).txp, at(k, l).txp, Eps) THEN {} ELSE {"power_rises"})
     \* lowering the power to what a class needs does not itself lose the class
     \union (IF \A k \in 1..n, l \in A :
                  \A m \in DOMAIN Rx(c, l).mcs :
                     LET t == Rx(c, l).mcs[m]
                     IN ~silent(k, l) /\ FLe(FSub(t.snr, "1e-11"), at(k, l).sinr) => at(k, l).mcs >= t.mcs
             THEN {} ELSE {"class_lost_by_rounding"})

Fails(c) ==
  CASE c.kind = "budget" -> BudgetFails(c)
    [] c.kind = "worse"  -> WorseFails(c)
    [] c.kind = "sinr"   -> SinrFails(c)
    [] c.kind = "worst"  -> WorstFails(c)
    [] c.kind = "stored" -> StoredFails(c)
    [] c.kind = "power"  -> PowerFails(c)
    [] c.kind = "crash"  -> {"crash_" \o c.what}
=============================================================================
