---------------------------- MODULE StatusRulesMC ----------------------------
EXTENDS StatusRules, Json
VARIABLES st, born
Init == /\ st \in {s \in [Elems -> Status] : Buildable(s)}
        /\ born = st
        /\ PrintT("EDGE " \o ToJson([k |-> "I", s |-> st]))
Next == \E e \in Elems, x \in Status :
          /\ st' = After(st, e, x) /\ born' = born
\* existing and unavailable are never entered nor left
Frozen == \A e \in Elems : (st[e] \in Immutable) = (born[e] \in Immutable)
                           /\ (born[e] \in Immutable => st[e] = born[e])
\* no accepted change makes the changed element illegal with its ends
NextLegal == [][\A e \in Elems : st'[e] # st[e] => Compatible(st', e, st'[e])]_<<st, born>>
Spec == Init /\ [][Next]_<<st, born>>
=============================================================================
