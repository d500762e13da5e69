------------------------------- MODULE Range -------------------------------
(* How far a pair of devices reaches: the shortest whole distance at which the
   aligned link has no capacity left.

   c.radio[sku] as in Radio, c.type[sku]; c.eirp; c.backhaul, c.access: least
   class for links to DNs / CNs or -1; c.limit: configured maximum or
   -1; c.got[k] = [tx, rx, dist]; c.refused / c.beyond: the configuration was
   refused for an unknown class / a range beyond the search bound of 10 km   *)
EXTENDS Integers, Sequences, FiniteSets, F, TLC
Rd == INSTANCE Radio

Table(r, least) ==
  IF least = -1 THEN r.mcs
  ELSE SelectSeq(r.mcs, LAMBDA m : m.mcs >= least)

\* capacities the link may have at a distance (rounding at thresholds aside)
Caps(tx, rx, T, eirp, d) ==
  LET max == Rd!MaxTx(tx, eirp)
      np  == Rd!Noise(rx)
      ng  == CHOOSE g \in Rd!NetGains([dist |-> FInt(d)], tx, rx, {"0"}, {"0"}) : TRUE
      snr == FSub(FAdd(max, ng), np)
  IN {Rd!Rate(T, m) : m \in Rd!BestLevels(T, Rd!Sure(T, snr, np, ng, tx.min, max), Rd!Maybe(T, snr, np, ng, tx.min, max))}
MayBeZero(tx, rx, T, eirp, d)     == \E v \in Caps(tx, rx, T, eirp, d) : FLe(v, "0")
MayBePositive(tx, rx, T, eirp, d) == d = 0 \/ \E v \in Caps(tx, rx, T, eirp, d) : FLt("0", v)

LeastFor(c, sku) == IF c.type[sku] = "CN" THEN c.access ELSE c.backhaul
Directions(c, a, b) == IF c.type[b] = "CN" THEN {<<a, b>>} ELSE {<<a, b>>, <<b, a>>}
Skus(c) == DOMAIN c.radio
Pairs(c) == {<<a, b>> \in Skus(c) \X Skus(c) : c.type[a] # "CN"}
Unserved(c) == {p \in Pairs(c) : Table(c.radio[p[2]], LeastFor(c, p[2])) = <<>>}

PairFails(c, k) ==
  LET a == c.got[k].tx  b == c.got[k].rx  v == c.got[k].dist
      zero(p, d) == MayBeZero(c.radio[p[1]], c.radio[p[2]], Table(c.radio[p[2]], LeastFor(c, p[2])), c.eirp, d)
      plus(p, d) == MayBePositive(c.radio[p[1]], c.radio[p[2]], Table(c.radio[p[2]], LeastFor(c, p[2])), c.eirp, d)
      capped == c.limit # -1 /\ v = c.limit
  IN (IF capped \/ (v > 0 => \A p \in Directions(c, a, b) : zero(p, v)) THEN {} ELSE {"range_too_short"})
     \union (IF v > 0 => \E p \in Directions(c, a, b) : plus(p, v - 1) THEN {} ELSE {"range_too_long"})
     \union (IF c.limit # -1 /\ v > c.limit THEN {"beyond_configured_maximum"} ELSE {})

RangeFails(c) ==
  IF c.beyond THEN (IF \E p \in Pairs(c) :
                         MayBePositive(c.radio[p[1]], c.radio[p[2]], Table(c.radio[p[2]], LeastFor(c, p[2])), c.eirp, 10000)
                    THEN {} ELSE {"refused"})
  ELSE IF c.refused THEN (IF Unserved(c) # {} THEN {} ELSE {"refused"})
  ELSE (IF {<<c.got[k].tx, c.got[k].rx>> : k \in DOMAIN c.got} = Pairs(c) THEN {} ELSE {"pairs"})
       \union (IF Unserved(c) = {} THEN {} ELSE {"impossible_class_accepted"})
       \union UNION {PairFails(c, k) : k \in {k \in DOMAIN c.got : <<c.got[k].tx, c.got[k].rx>> \in Pairs(c) /\ Unserved(c) = {}}}

\* one search between bounds; got = "none": even the far bound has capacity
SearchFails(c) ==
  LET zero(d) == MayBeZero(c.tx, c.rx, c.table, c.eirp, d)
      plus(d) == MayBePositive(c.tx, c.rx, c.table, c.eirp, d)
  IN IF c.got = -1 THEN (IF plus(c.hi) THEN {} ELSE {"range_too_long"})
     ELSE (IF c.got = 0 \/ zero(c.got) THEN {} ELSE {"range_too_short"})
          \union (IF c.got <= c.lo \/ plus(c.got - 1) THEN {} ELSE {"range_too_long"})
          \union (IF c.lo <= c.got /\ c.got <= c.hi THEN {} ELSE {"outside_bounds"})

Fails(c) == CASE c.kind = "pairs"  -> RangeFails(c)
              [] c.kind = "search" -> SearchFails(c)
              [] c.kind = "crash"  -> {"crash"}
=============================================================================
