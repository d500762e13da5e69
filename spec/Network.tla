------------------------------- MODULE Network -------------------------------
(* A network as a directed graph: an imaginary source feeds every usable POP,
   usable links join usable sites, and a demand point hangs on the sites that
   may serve it.  n.site[x] = [type, status], n.link[l] = [tx, rx, wireless,
   status, mcs, cap], n.demand[d] = sequence of sites.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
\* JSON objects without fields arrive as the empty sequence
Dom(f) == DOMAIN f
Src == "SRC"
Active    == {"PROPOSED", "EXISTING"}
Reachable == {"PROPOSED", "EXISTING", "CANDIDATE"}
AllStatus == {"PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"}

Sites(n)   == Dom(n.site)
Links(n)   == Dom(n.link)
Demands(n) == Dom(n.demand)

LinkKind(n, l) == IF ~n.link[l].wireless THEN "ETHERNET"
                  ELSE IF n.site[n.link[l].rx].type = "CN" THEN "WIRELESS_ACCESS"
                  ELSE "WIRELESS_BACKHAUL"
Usable(n, F) == {l \in Links(n) : n.link[l].status \in F
                   /\ n.site[n.link[l].tx].status \in F /\ n.site[n.link[l].rx].status \in F}
Pair(n, l) == <<n.link[l].tx, n.link[l].rx>>
Pops(n, F) == {x \in Sites(n) : n.site[x].type = "POP" /\ n.site[x].status \in F}

SourceEdges(n, F) == {<<Src, x>> : x \in Pops(n, F)}
LinkEdges(n, F)   == {Pair(n, l) : l \in Usable(n, F)}
DemandEdges(n, F) == UNION {{<<x, d>> : x \in {y \in Rng(n.demand[d]) : n.site[y].status \in F}} : d \in Demands(n)}
Edges(n, F) == SourceEdges(n, F) \union LinkEdges(n, F) \union DemandEdges(n, F)

RECURSIVE ReachFrom(_, _)
ReachFrom(E, S) ==
  LET N == S \union {e[2] : e \in {x \in E : x[1] \in S}}
  IN IF N = S THEN S ELSE ReachFrom(E, N)
Fed(E) == ReachFrom(E, {Src})
Served(n, E) == Demands(n) \intersect Fed(E)

\* Layers[k] = what is first reached after k hops
RECURSIVE Layers(_, _, _)
Layers(E, seen, front) ==
  IF front = {} THEN << >>
  ELSE LET nxt == {e[2] : e \in {x \in E : x[1] \in front}} \ (seen \union front)
       IN <<front>> \o Layers(E, seen \union front, nxt)
HopMap(E, S) ==
  LET ls == Layers(E, {}, S)
      D  == UNION Rng(ls)
  IN [x \in D |-> (CHOOSE k \in 1..Len(ls) : x \in ls[k]) - 1]

\* All shortest chains from a to b as sequences of nodes.
RECURSIVE ChainsTo(_, _, _)
ChainsTo(E, h, b) ==
  IF h[b] = 0 THEN {<<b>>}
  ELSE UNION {{Append(c, b) : c \in ChainsTo(E, h, p)} :
                p \in {e[1] : e \in {x \in E : x[2] = b /\ x[1] \in DOMAIN h /\ h[x[1]] = h[b] - 1}}}
=============================================================================
