------------------------------ MODULE SiteInput ------------------------------
(* What a table of input sites means.

   c.devices[k] = [sku, type]                 skus in lower case
   c.rows[i] = [type, pos, alt, height, sku, name, subs, ltype, bld, status, inside]
        pos a place; alt, height optional tenths of a metre; sku, name, ltype
        may be "" (not given); subs, bld -1 when not given; inside the boundary
   c.infer = << >> or <<[POP, DN, CN]>>       the location type found for a site
        of that kind when the table does not tell; the ground is at 100 m
   c.bad                                      the file breaks its format
   c.out = [ok, sites], sites[n] = [type, pos, alt, sku, name, named, subs,
        ltype, bld, status]; named = FALSE when the name is the site's own id,
        bld = -2 when there is none                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Given(s) == s # ""
Flat(q) == LET RECURSIVE F(_)
               F(i) == IF i > Len(q) THEN << >> ELSE q[i] \o F(i + 1)
           IN F(1)

KindOf(t) == IF t = "CN" THEN "CN" ELSE "DN"
Devices(c, r) ==
  IF Given(r.sku) THEN SelectSeq(c.devices, LAMBDA d : d.sku = r.sku)
  ELSE SelectSeq(c.devices, LAMBDA d : d.type = KindOf(r.type))
BadRow(c, r) == Given(r.sku) /\ \A k \in DOMAIN c.devices :
                  c.devices[k].sku = r.sku => c.devices[k].type # KindOf(r.type)

Ground == 1000
Altitude(c, r) ==
  IF c.infer = << >> \/ r.alt # << >> THEN r.alt
  ELSE IF r.height # << >> THEN <<Ground + r.height[1]>>
  ELSE <<Ground + 50>>
Where(c, r) ==
  LET t == IF Given(r.ltype) THEN r.ltype ELSE "UNKNOWN"
  IN IF c.infer # << >> /\ t = "UNKNOWN" THEN c.infer[1][r.type] ELSE t
Building(c, r) ==
  IF Where(c, r) # "ROOFTOP" THEN -2
  ELSE IF c.infer # << >> THEN -1 ELSE r.bld
Subscribers(r) == IF r.type # "CN" THEN 0 ELSE IF r.subs > 0 THEN r.subs ELSE 1

SiteOf(c, r, d) ==
  [type |-> r.type, pos |-> r.pos, alt |-> Altitude(c, r), sku |-> d.sku, name |-> r.name,
   subs |-> Subscribers(r), ltype |-> Where(c, r), bld |-> Building(c, r), status |-> r.status]
Inside(c) == SelectSeq(c.rows, LAMBDA r : r.inside)
Meant(c) == Flat([i \in DOMAIN Inside(c) |->
              LET r == Inside(c)[i] D == Devices(c, r)
              IN [k \in DOMAIN D |-> SiteOf(c, r, D[k])]])

\* the same site twice is one site: the first is kept
Key(s) == <<s.type, s.pos, s.alt, s.ltype, s.name, s.sku>>
Kept(c) == LET m == Meant(c) IN {i \in DOMAIN m : \A j \in 1..(i - 1) : Key(m[j]) # Key(m[i])}

\* a name borne by several devices is told apart by the device
Group(c, m, i) == {j \in Kept(c) : m[j].name = m[i].name}
FinalName(c, m, i) ==
  IF Cardinality({m[j].sku : j \in Group(c, m, i)}) > 1 THEN m[i].name \o "_" \o m[i].sku ELSE m[i].name
Same(a, b) == <<a.type, a.pos, a.alt, a.sku>> = <<b.type, b.pos, b.alt, b.sku>>

Refused(c) ==
  LET m == Meant(c) K == Kept(c)
  IN \/ c.bad
     \/ \E r \in {Inside(c)[i] : i \in DOMAIN Inside(c)} : BadRow(c, r)
     \/ \E i, j \in K : i # j /\ Given(m[i].name) /\ m[i].name = m[j].name /\ m[i].sku = m[j].sku
     \/ \E i, j \in K : i # j /\ ~Given(m[i].name) /\ ~Given(m[j].name) /\ Same(m[i], m[j])
     \/ \E i, j \in K : i # j /\ Given(m[i].name) /\ Given(m[j].name) /\ FinalName(c, m, i) = FinalName(c, m, j)

Expected(c) ==
  LET m == Meant(c)
  IN {[type |-> m[i].type, pos |-> m[i].pos, alt |-> m[i].alt, sku |-> m[i].sku,
       name |-> IF Given(m[i].name) THEN FinalName(c, m, i) ELSE "", named |-> Given(m[i].name),
       subs |-> m[i].subs, ltype |-> m[i].ltype, bld |-> m[i].bld, status |-> m[i].status] : i \in Kept(c)}
Got(c) == {c.out.sites[n] : n \in DOMAIN c.out.sites}

On(f, S) == {s[f] : s \in S}
Fails(c) ==
  IF ~c.out.ok /\ c.out.how # "told" THEN {"foreign-error"}   \* refused by the program's own kind of error
  ELSE IF Refused(c) THEN IF c.out.ok THEN {"refused"} ELSE {}
  ELSE IF ~c.out.ok THEN {"accepted"}
  ELSE LET E == Expected(c) G == Got(c)
       IN IF E = G /\ Len(c.out.sites) = Cardinality(G) THEN {}
          ELSE IF Cardinality(E) # Len(c.out.sites) THEN {"complete"}
          ELSE LET f == {k \in {"type", "pos", "alt", "sku", "name", "subs", "ltype", "bld", "status"} : On(k, E) # On(k, G)}
               IN IF f = {} THEN {"mixed"} ELSE f
=============================================================================
