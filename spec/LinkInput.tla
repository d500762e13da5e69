------------------------------ MODULE LinkInput ------------------------------
(* What a table of input links means.

   c.sites[k] = [name, kind, status]
   c.rows[n] = [by, a, b, status, type, conf, near]
        by = "name": a, b the names given (the site may not exist);
        by = "place": near[e] = [d |-> <<distance to each site, in decimetres>>]
             for the two ends e = 1, 2
        conf = << >> or <<thousandths>>
   c.once      a directed pair may be written once only
   c.bad       the file breaks its format
   c.out = [ok, how, links, demands]; how a network was refused: "told" is by the
        program's own kind of error.  links[n] = [tx, rx, status, type, conf]
   c.demands, c.out.demands   places of the demand sites                     *)
EXTENDS StatusRules, Integers

S(c) == DOMAIN c.sites
Named(c, x) == {s \in S(c) : c.sites[s].name = x}
Reach == 100   \* 10 m

Nearest(c, d) == {s \in S(c) : d[s] <= Reach /\ \A t \in S(c) : d[s] <= d[t]}
Near(c, d) == {s \in S(c) : d[s] <= Reach}
Wireless(r) == r.type # "ETHERNET"

\* the sites a row certainly / possibly links, in the order tx, rx
Certain(c, r) ==
  IF r.by = "name" THEN Named(c, r.a) \X Named(c, r.b)
  ELSE Nearest(c, r.near[1].d) \X Nearest(c, r.near[2].d)
Possible(c, r) ==
  IF r.by = "name" THEN Named(c, r.a) \X Named(c, r.b)
  ELSE Near(c, r.near[1].d) \X Near(c, r.near[2].d)
Lost(c, r) == Certain(c, r) = {}

\* both directions, but a client does not transmit
Directed(c, P) == {p \in P \cup {<<q[2], q[1]>> : q \in P} : c.sites[p[1]].kind # "CN"}

Rows(c) == {n \in DOMAIN c.rows : Wireless(c.rows[n])}
Wrong(c, n, p) == ~LinkOk(c.sites[p[1]].status, c.sites[p[2]].status, c.rows[n].status)
Clash(c, f, n, m) ==  \* rows n < m disagree about a link
  n < m /\ c.rows[n].status # c.rows[m].status
        /\ Directed(c, f[n]) \cap Directed(c, f[m]) # {}
Twice(c) ==
  c.once # "no" /\ \E n, m \in DOMAIN c.rows : n # m /\
    \/ <<c.rows[n].a, c.rows[n].b>> = <<c.rows[m].a, c.rows[m].b>>
    \/ c.once = "pair" /\ <<c.rows[n].a, c.rows[n].b>> = <<c.rows[m].b, c.rows[m].a>>

Broken(c, f) ==
  \/ \E n \in Rows(c) : \E p \in Directed(c, f[n]) : Wrong(c, n, p)
  \/ \E n, m \in Rows(c) : Clash(c, f, n, m)
MustRefuse(c) ==
  \/ c.bad \/ Twice(c)
  \/ \E n \in Rows(c) : Lost(c, c.rows[n])
  \/ Broken(c, [n \in Rows(c) |-> Certain(c, c.rows[n])])
MayRefuse(c) == MustRefuse(c) \/ Broken(c, [n \in Rows(c) |-> Possible(c, c.rows[n])])

Type(c, p) == IF c.sites[p[2]].kind = "CN" THEN "WIRELESS_ACCESS" ELSE "WIRELESS_BACKHAUL"
\* what may be said of the link p: it comes from the first row that mentions it
Said(c, p) ==
  {n \in Rows(c) : /\ p \in Directed(c, Possible(c, c.rows[n]))
                   /\ \A m \in Rows(c) : m < n => p \notin Directed(c, Certain(c, c.rows[m]))}
Site(c, x) == CHOOSE s \in S(c) : c.sites[s].name = x

LinkFails(c, l) ==
  IF Named(c, l.tx) = {} \/ Named(c, l.rx) = {} THEN {"unknown_end"}
  ELSE LET p == <<Site(c, l.tx), Site(c, l.rx)>> f == Said(c, p)
       IN IF f = {} THEN {"not_given"}
          ELSE (IF l.type = Type(c, p) THEN {} ELSE {"link_type"})
               \cup (IF \E n \in f : c.rows[n].status = l.status THEN {} ELSE {"link_status"})
               \cup (IF \E n \in f : c.rows[n].conf = l.conf THEN {} ELSE {"confidence"})

InputFails(c) ==
  IF c.out.ok
  THEN IF MustRefuse(c) THEN {"refused"}
       ELSE UNION {LinkFails(c, c.out.links[k]) : k \in DOMAIN c.out.links}
            \cup (LET got == {<<c.out.links[k].tx, c.out.links[k].rx>> : k \in DOMAIN c.out.links}
                      must == UNION {Directed(c, Certain(c, c.rows[n])) : n \in Rows(c)}
                  IN (IF \A p \in must : <<c.sites[p[1]].name, c.sites[p[2]].name>> \in got THEN {} ELSE {"missing"})
                     \cup (IF Cardinality(got) = Len(c.out.links) THEN {} ELSE {"twice"}))
            \cup (IF c.out.demands = c.demands THEN {} ELSE {"demands"})
            \cup (IF c.out.sites = Len(c.sites) THEN {} ELSE {"sites"})
  ELSE (IF MayRefuse(c) THEN {} ELSE {"accepted"})
       \cup (IF c.out.how = "told" THEN {} ELSE {"foreign-error"})
=============================================================================
