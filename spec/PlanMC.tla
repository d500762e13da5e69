------------------------------- MODULE PlanMC -------------------------------
(* All histories of planning steps on small networks with one POP, two DNs
   (the second without sectors, wired) and a CN: whatever the steps decide, in
   whatever order, the plan stays sane and fixed elements stay fixed.        *)
EXTENDS Plan, Json
VARIABLES net, first

Sites == {"P", "D", "E", "C"}
TypeOf == [P |-> "POP", D |-> "DN", E |-> "DN", C |-> "CN"]
Edge == [PD |-> <<"P", "D">>, DP |-> <<"D", "P">>, DE |-> <<"D", "E">>, ED |-> <<"E", "D">>, DC |-> <<"D", "C">>]
Secs == [p |-> "P", d |-> "D", c |-> "C"]
Pairs == {{"PD", "DP"}, {"DE", "ED"}, {"DC"}}

Legal(a, b) == IF "UNAVAILABLE" \in {a, b} THEN {"UNAVAILABLE"} ELSE IF "UNREACHABLE" \in {a, b} THEN {"UNREACHABLE"}
               ELSE {"CANDIDATE", "UNAVAILABLE"} \union (IF {a, b} = {"EXISTING"} THEN {"EXISTING"} ELSE {})
Init ==
  \E st \in [Sites -> {"CANDIDATE", "EXISTING", "UNREACHABLE"}] :
  \E ls \in [{"PD", "DE", "DC"} -> {"CANDIDATE", "EXISTING", "UNAVAILABLE", "UNREACHABLE"}] :
    LET key(l) == IF l \in {"PD", "DP"} THEN "PD" ELSE IF l \in {"DE", "ED"} THEN "DE" ELSE "DC"
    IN /\ \A l \in DOMAIN Edge : ls[key(l)] \in Legal(st[Edge[l][1]], st[Edge[l][2]])
       /\ net = [site |-> [s \in Sites |-> [type |-> TypeOf[s], status |-> st[s], pol |-> "UNASSIGNED"]],
                 sec |-> [k \in DOMAIN Secs |-> [site |-> Secs[k], channel |-> -1,
                            status |-> IF st[Secs[k]] \in {"UNAVAILABLE", "UNREACHABLE"} THEN st[Secs[k]]
                                       ELSE IF \E l \in DOMAIN Edge : Secs[k] \in {Edge[l][1], Edge[l][2]} /\ ls[key(l)] = "EXISTING" /\ key(l) # "DE"
                                       THEN "EXISTING" ELSE "CANDIDATE"]],
                 link |-> [l \in DOMAIN Edge |-> [tx |-> Edge[l][1], rx |-> Edge[l][2], status |-> ls[key(l)]]]]
       /\ first = net

Dec(S, G, odd) ==
  LET L == UNION G
  IN [site |-> [s \in Sites |-> IF s \in S THEN 1 ELSE 0],
      link |-> [l \in DOMAIN Edge |-> IF l \in L THEN 1 ELSE 0],
      sec |-> [k \in DOMAIN Secs |-> IF Secs[k] \in S THEN 1 ELSE 0],
      odd |-> odd, even |-> IF odd = <<>> THEN <<>> ELSE <<"D">>, channel |-> [p |-> 0, d |-> 1, c |-> 0]]
Step ==
  \E S \in SUBSET Sites, G \in SUBSET Pairs :
    LET odd == IF Cardinality(S) % 2 = 0 THEN <<>> ELSE <<"P">>
        d == Dec(S, G, odd)
        t == Taken(net, d)
    IN /\ \A l \in UNION G : "CANDIDATE" \notin {t.site[Edge[l][1]].status, t.site[Edge[l][2]].status}
       /\ net' = Apply(net, d)
       /\ PrintT("EDGE " \o ToJson([k |-> "E", s |-> net, d |-> d]))
  /\ UNCHANGED first
Spec == Init /\ [][Step]_<<net, first>>
PlanSane == net = first \/ Sane(first, net)
=============================================================================
