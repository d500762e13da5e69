----------------------------- MODULE PipelineMC -----------------------------
(* Every course planning can take: all settings, all sequences of answers.  *)
EXTENDS Pipeline, Json
VARIABLES e, s, left, hist

Init == /\ e \in [pops : BOOLEAN, extra : 0..1, legacy : BOOLEAN, level : {"NONE", "LOW", "MEDIUM", "HIGH"}]
        /\ (e.legacy => e.level = "LOW")
        /\ left \in BOOLEAN /\ (~left => e.legacy)
        /\ s = Start(e) /\ hist = <<>>
Next == /\ s.at # "end"
        /\ \E a \in Answers :
             /\ s' = Step(e, s, a, left)
             /\ hist' = Append(hist, <<s.at, a>>)
             /\ UNCHANGED <<e, left>>
             /\ IF s'.at = "end" THEN PrintT("EDGE " \o ToJson([e |-> e, left |-> left, hist |-> hist', end |-> s'.end])) ELSE TRUE
Spec == Init /\ [][Next]_<<e, s, left, hist>> /\ WF_<<e, s, left, hist>>(Next)

Asked(x) == {k \in DOMAIN hist : hist[k][1] = x}
Got(x) == \E k \in Asked(x) : hist[k][2] = "plan"
\* a network is planned only from a minimum-cost plan and an interference plan
Sound == s.end = "planned" => Got("cost") /\ Got("interference")
\* every degree of coverage is tried once before giving up, the highest first
Patient == /\ Cardinality(Asked("cost")) <= 6
           /\ (s.end \in {"infeasible", "timed-out"} /\ ~Got("cost") => Cardinality(Asked("cost")) = 6)
\* redundancy is sought unless it is switched off or there is no money left
Redundant == s.end = "planned" => (Asked("coverage") # {} <=> e.legacy /\ left) /\ (Asked("redundancy") # {} <=> ~e.legacy /\ e.level # "NONE")
\* missing redundancy or missing extra POPs never stop the planning
Forgiving == \A k \in Asked("extra") \cup Asked("coverage") \cup Asked("redundancy") : k < Len(hist) \/ s.at # "end"
Ends == <>(s.at = "end")
=============================================================================
