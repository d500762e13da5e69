-------------------------------- MODULE Plan --------------------------------
(* Applying the decisions of a planning step to the network.

   A network n: n.site[s] = [type, status, pol]; n.sec[k] = [site, status, channel];
   n.link[l] = [tx, rx, status].
   Decisions d: d.site[s], d.sec[k], d.link[l] in {0, 1} (absent = 0),
   d.odd, d.even (sets of sites as sequences), d.channel[k].                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Active == {"PROPOSED", "EXISTING"}
Fixed  == {"EXISTING", "UNAVAILABLE", "UNREACHABLE"}
Get(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
SeqSet(s) == {s[i] : i \in DOMAIN s}

Decided(status, chosen) == IF status \in Fixed THEN status ELSE IF chosen = 1 THEN "PROPOSED" ELSE "CANDIDATE"

\* step 1: take over the decisions
Taken(n, d) ==
  [site |-> [s \in DOMAIN n.site |->
              [type |-> n.site[s].type,
               status |-> Decided(n.site[s].status, Get(d.site, s, 0)),
               pol |-> IF s \in SeqSet(d.odd) THEN "ODD" ELSE IF s \in SeqSet(d.even) THEN "EVEN" ELSE "UNASSIGNED"]],
   sec |-> [k \in DOMAIN n.sec |->
              [site |-> n.sec[k].site,
               status |-> Decided(n.sec[k].status, Get(d.sec, k, 0)),
               channel |-> Get(d.channel, k, -1)]],
   link |-> [l \in DOMAIN n.link |->
              [tx |-> n.link[l].tx, rx |-> n.link[l].rx,
               status |-> Decided(n.link[l].status, Get(d.link, l, 0))]]]

\* step 2: what no active POP reaches over active links and sites is dropped
RECURSIVE Grow(_, _)
Grow(n, S) ==
  LET T == S \union {n.link[l].rx : l \in {m \in DOMAIN n.link :
                n.link[m].status \in Active /\ n.link[m].tx \in S /\ n.site[n.link[m].rx].status \in Active}}
  IN IF T = S THEN S ELSE Grow(n, T)
Served(n) == Grow(n, {s \in DOMAIN n.site : n.site[s].type = "POP" /\ n.site[s].status \in Active})

Dropped(n) ==
  LET ok == Served(n)
      site == [s \in DOMAIN n.site |->
                 IF s \in ok \/ n.site[s].status \in Fixed THEN n.site[s]
                 ELSE [n.site[s] EXCEPT !.status = "CANDIDATE"]]
      sec == [k \in DOMAIN n.sec |->
                 IF n.sec[k].site \in ok \/ n.sec[k].status \in Fixed THEN n.sec[k]
                 ELSE [n.sec[k] EXCEPT !.status = "CANDIDATE"]]
      link == [l \in DOMAIN n.link |->
                 IF n.link[l].status = "PROPOSED" /\ (~({n.link[l].tx, n.link[l].rx} \subseteq ok) \/ "CANDIDATE" \in {site[n.link[l].tx].status, site[n.link[l].rx].status})
                 THEN [n.link[l] EXCEPT !.status = "CANDIDATE"] ELSE n.link[l]]
  IN [site |-> site, sec |-> sec, link |-> link]

Apply(n, d) == Dropped(Taken(n, d))

\* what every applied plan satisfies, whatever was decided
Sane(n, m) ==
  /\ \A s \in DOMAIN n.site : n.site[s].status \in Fixed => m.site[s].status = n.site[s].status
  /\ \A l \in DOMAIN n.link : n.link[l].status \in Fixed => m.link[l].status = n.link[l].status
  /\ \A l \in DOMAIN m.link : m.link[l].status \in Active =>
        m.site[m.link[l].tx].status \in Active /\ m.site[m.link[l].rx].status \in Active
  /\ \A s \in DOMAIN m.site : m.site[s].status = "PROPOSED" => s \in Served(m)
  /\ \A l \in DOMAIN m.link : m.link[l].status = "PROPOSED" => {m.link[l].tx, m.link[l].rx} \subseteq Served(m)

Fails(c) ==
  CASE c.kind = "apply" ->
         LET want == Apply(c.before, c.d)
         IN (IF c.after.site = want.site THEN {}
             ELSE IF \A s \in DOMAIN want.site : c.after.site[s].status = want.site[s].status THEN {"polarity_not_recorded"} ELSE {"site_status"})
            \union (IF c.after.sec = want.sec THEN {}
                    ELSE IF \A k \in DOMAIN want.sec : c.after.sec[k].status = want.sec[k].status THEN {"channel_not_recorded"} ELSE {"sector_status"})
            \union (IF c.after.link = want.link THEN {} ELSE {"link_status"})
            \union (IF Sane(c.before, c.after) THEN {} ELSE {"plan_inconsistent"})
            \union (IF c.again = c.after THEN {} ELSE {"not_idempotent"})
    [] c.kind = "both_polarities" -> IF c.refused THEN {} ELSE {"contradictory_polarity_accepted"}
    [] c.kind = "crash" -> {"crash_" \o c.what}
=============================================================================
