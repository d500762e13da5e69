------------------------------ MODULE Pipeline ------------------------------
(* Planning as a whole: which step runs when, with what, and what happens to
   the network when a step has no answer.

   e: [pops, extra, legacy, level]
      pops    the input network has a POP
      extra   number of extra POPs asked for (capped at 1)
      legacy  redundancy by spending the budget instead of by disjoint paths
      level   NONE, LOW, MEDIUM, HIGH
   s: [at, cov, end]   at: the step asked next; cov: tenths of the demand to
      cover in the next minimum-cost attempt; end: "" while planning goes on.
   An answer is "plan", "none" or "timeout".                               *)
EXTENDS Plan, F

Steps == {"extra", "cost", "coverage", "redundancy", "interference"}
Answers == {"plan", "none", "timeout"}
Lowest == 5

\* asked before anything else: something to start from
Start(e) ==
  IF e.extra > 0 THEN [at |-> "extra", cov |-> 10, end |-> ""]
  ELSE IF ~e.pops THEN [at |-> "end", cov |-> 10, end |-> "no-pop"]
  ELSE [at |-> "cost", cov |-> 10, end |-> ""]

\* the step after the minimum-cost plan; left: budget left beyond its cost
Second(e, left) == IF e.legacy THEN (IF left THEN "coverage" ELSE "interference")
                   ELSE (IF e.level = "NONE" THEN "interference" ELSE "redundancy")

Step(e, s, a, left) ==
  CASE s.at = "extra" -> [s EXCEPT !.at = "cost"]        \* goes on without more POPs
    [] s.at = "cost" ->
         IF a = "plan" THEN [s EXCEPT !.at = Second(e, left)]
         ELSE IF s.cov > Lowest THEN [s EXCEPT !.cov = s.cov - 1]
         ELSE [s EXCEPT !.at = "end", !.end = IF a = "timeout" THEN "timed-out" ELSE "infeasible"]
    [] s.at \in {"coverage", "redundancy"} -> [s EXCEPT !.at = "interference"]   \* goes on with the minimum-cost plan
    [] s.at = "interference" ->
         [s EXCEPT !.at = "end", !.end = IF a = "plan" THEN "planned" ELSE IF a = "timeout" THEN "timed-out" ELSE "infeasible"]

\* how many failures a redundant plan withstands, as capacities of disjoint
\* paths at <<POPs, DNs, the DN looked at>>
Withstand(level, pops) ==
  CASE level = "LOW" -> <<2, 2, 2>>
    [] level = "MEDIUM" -> IF pops > 1 THEN <<1, 1, 2>> ELSE <<2, 1, 2>>
    [] level = "HIGH" -> IF pops > 1 THEN <<2, 1, 4>> ELSE <<3, 1, 3>>

(* ---- a recorded history ------------------------------------------------ *)
\* c.asked: sequence of [step, cov, answer, left, before, d, ask]
\*   before   the network when the step was asked, d its decisions
\*   ask      what the step was given: [caps, missing, odd]  (see below)
\* c.after: the network in the end;  c.end: how planning ended
RECURSIVE Follow(_, _, _)
\* the states of planning along the history, last one first known wrong: "odd"
Follow(c, s, k) ==
  IF k > Len(c.asked) THEN <<s>>
  ELSE IF s.at # c.asked[k].step THEN <<s, [at |-> "odd", cov |-> 0, end |-> "odd"]>>
  ELSE <<s>> \o Follow(c, Step(c.e, s, c.asked[k].answer, c.asked[k].left), k + 1)

OnPops(n) == Cardinality({x \in DOMAIN n.site : n.site[x].type = "POP" /\ n.site[x].status \in Active})
Same(n, m) == n.site = m.site /\ n.link = m.link /\ n.sec = m.sec
\* sectors of the final network are judged elsewhere (they are aimed anew)
SamePlan(n, m) == n.link = m.link /\ DOMAIN n.site = DOMAIN m.site /\ \A x \in DOMAIN n.site : n.site[x] = m.site[x]

Barren(c) ==
  LET live == SeqSet(c.live)
  IN \/ ~\E l \in live : c.after.site[c.after.link[l].tx].type = "POP"
     \/ ~\E l \in live : c.after.link[l].rx \in SeqSet(c.wants)

\* at most this much leaves the POPs: of the links of a sector one at a time
RECURSIVE TotalOf(_, _)
TotalOf(f, S) == IF S = {} THEN "0" ELSE LET x == CHOOSE x \in S : TRUE IN FAdd(f[x], TotalOf(f, S \ {x}))
RECURSIVE MostIn(_, _)
MostIn(q, b) == IF q = <<>> THEN "0" ELSE LET r == MostIn(Tail(q), b) IN IF Head(q).by = b THEN FMax2(Head(q).most, r) ELSE r
Leaves(c, p) ==
  LET q == c.feed.pop[p]
      B == {q[i].by : i \in DOMAIN q}
  IN FMin2(c.feed.limit, TotalOf([b \in B |-> MostIn(q, b)], B))
Supply(c) == TotalOf([p \in DOMAIN c.feed.pop |-> Leaves(c, p)], DOMAIN c.feed.pop)
Half(c) == FMul("0.5", c.feed.need)

\* why the minimum-cost step found nothing
Reasons(c, end) ==
  IF end # "infeasible" THEN {end}
  ELSE IF FNear(Supply(c), Half(c), "1e-9") THEN {"infeasible", "too-few-pops"}
  ELSE IF FLt(Supply(c), Half(c)) THEN {"too-few-pops"} ELSE {"infeasible"}

HistoryFails(c) ==
  LET path == Follow(c, Start(c.e), 1)
      n == Len(c.asked)
      fine == path[Len(path)].at # "odd"
      done == path[Len(path)]
      then(k) == IF c.asked[k].answer = "plan" THEN Apply(c.asked[k].before, c.asked[k].d) ELSE c.asked[k].before
      costs == {k \in 1..n : c.asked[k].step # "extra"}
  IN IF ~fine THEN {"wrong-step"}
     ELSE (IF done.at = "end" THEN (IF (IF n > 0 /\ c.asked[n].step = "cost" THEN c.end \in Reasons(c, done.end) ELSE c.end = done.end) \/ (c.end = "refused" /\ done.end = "no-pop") THEN {} ELSE {"end"})
           \* no model of a network in which nothing can be sent or received
           ELSE IF c.end = "refused" /\ done.at = "cost" /\ done.cov = 10 /\ Barren(c) THEN {} ELSE {"stopped-early"})
       \cup {"coverage-asked" : k \in {k \in 1..n : c.asked[k].step = "cost" /\ c.asked[k].cov # path[k].cov}}
       \cup {"withstand" : k \in {k \in 1..n : c.asked[k].step = "redundancy" /\ c.asked[k].caps # Withstand(c.e.level, OnPops(c.asked[k].before))}}
       \cup {"polarities-ignored" : k \in {k \in costs : c.asked[k].blind}}
       \cup UNION {{c.asked[k].step \o "-" \o x : x \in {x \in DOMAIN c.asked[k].ask : ~c.asked[k].ask[x]}} : k \in 1..n}
       \* nothing but the answers of the steps changes the network
       \cup {"applied" : k \in {k \in costs : k < n /\ ~Same(then(k), c.asked[k + 1].before)}}
       \cup (IF n = 0 \/ c.asked[n].step # "interference" \/ c.asked[n].answer # "plan" THEN {}
             ELSE IF SamePlan(then(n), c.after) THEN {} ELSE {"final"})
       \* the network planning started from is kept
       \cup (IF costs = {} \/ c.end # "planned" THEN {}
             ELSE LET k == CHOOSE k \in costs : \A m \in costs : k <= m
                  IN IF Sane(c.asked[k].before, c.after) THEN {} ELSE {"plan-inconsistent"})
       \cup (IF c.end = "planned" /\ c.e.legacy /\ ~c.within THEN {"budget"} ELSE {})

PipelineFails(c) ==
  CASE c.kind = "history" -> HistoryFails(c)
    [] c.kind = "order" -> IF c.first = c.second THEN {} ELSE {"depends-on-order"}
    [] c.kind = "gate" -> IF c.refused = ((~c.e.pops /\ c.e.extra <= 0) \/ (~c.e.demand /\ ~c.e.cns)) THEN {} ELSE {"gate"}
    [] c.kind = "crash" -> {"crash"}
=============================================================================
