------------------------------ MODULE RoundTrip ------------------------------
(* A network written as KML and read back.

   c.sites[k] = [id, name, type, status, ltype, bld, sku, subs, pos, alt]
        pos = <<lat, lon>>, alt optional, all as text; bld -2 none, -1 unknown
   c.links[n] = [id, tx, rx, type, status, conf]     conf optional thousandths
   c.demands  = places of the demand sites
   c.first, c.second = the same after one and after two trips, with ok      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

R(q) == {q[k] : k \in DOMAIN q}
Back(s) == [s EXCEPT !.bld = IF s.ltype = "ROOFTOP" THEN -1 ELSE -2]

Kept(c) == {l \in R(c.links) : l.type # "ETHERNET"}
Bare(l) == [id |-> l.id, tx |-> l.tx, rx |-> l.rx, type |-> l.type, status |-> l.status]
Pair(c, l) == {m \in Kept(c) : <<m.tx, m.rx>> \in {<<l.tx, l.rx>>, <<l.rx, l.tx>>}}
Close(a, b) == a - b <= 51 /\ b - a <= 51
ConfOk(c, l) ==
  \E m \in Pair(c, l) : IF m.conf = << >> THEN l.conf = << >>
                        ELSE l.conf # << >> /\ l.conf[1] % 100 = 0 /\ Close(l.conf[1], m.conf[1])

TripFails(c, o) ==
  IF ~o.ok THEN {"readable"}
  ELSE LET f == {k \in {"id", "name", "type", "status", "ltype", "bld", "sku", "subs", "pos", "alt"} :
                   {<<Back(s).id, Back(s)[k]>> : s \in R(c.sites)} # {<<s.id, s[k]>> : s \in R(o.sites)}}
       IN f \cup (IF Len(o.sites) = Len(c.sites) THEN {} ELSE {"sites"})
          \cup (IF {Bare(l) : l \in Kept(c)} = {Bare(l) : l \in R(o.links)} THEN {} ELSE {"links"})
          \cup (IF \A l \in R(o.links) : Pair(c, l) = {} \/ ConfOk(c, l) THEN {} ELSE {"confidence"})
          \cup (IF o.demands = c.demands THEN {} ELSE {"demands"})

Fails(c) ==
  TripFails(c, c.first)
  \cup (IF c.first.ok /\ c.second # c.first THEN {"settled"} ELSE {})
=============================================================================
