----------------------------- MODULE StatusRules -----------------------------
(* Status of two sites A, B, a sector S on A, and the links AB and BA.
   Statuses are changed one element at a time.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Status == {"PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"}
Immutable == {"EXISTING", "UNAVAILABLE"}
Active    == {"PROPOSED", "EXISTING"}

SectorOk(site, x) ==
  IF site \in Active THEN x \in {"CANDIDATE", "PROPOSED", "EXISTING"} ELSE x = site

LinkOk(a, b, x) ==
  /\ x = "EXISTING" => a = "EXISTING" /\ b = "EXISTING"
  /\ (a = "UNAVAILABLE" \/ b = "UNAVAILABLE") => x = "UNAVAILABLE"
  /\ (a = "UNREACHABLE" \/ b = "UNREACHABLE") => x \in {"UNREACHABLE", "UNAVAILABLE"}
  /\ (a = "CANDIDATE" \/ b = "CANDIDATE") => x \notin Active

Elems == {"A", "B", "S", "AB", "BA"}
\* May element e of state s be built with / changed to status x?
Compatible(s, e, x) ==
  CASE e \in {"A", "B"} -> TRUE
    [] e = "S" -> SectorOk(s.A, x)
    [] e \in {"AB", "BA"} -> LinkOk(s.A, s.B, x)
Accepts(s, e, x) ==
  /\ s[e] \notin Immutable /\ x \notin Immutable
  /\ Compatible(s, e, x)
After(s, e, x) == IF Accepts(s, e, x) THEN [s EXCEPT ![e] = x] ELSE s

\* A freshly built network: elements are built ends first.
Buildable(s) == SectorOk(s.A, s.S) /\ LinkOk(s.A, s.B, s.AB) /\ LinkOk(s.A, s.B, s.BA)

-----------------------------------------------------------------------------
RECURSIVE Walk(_, _, _)
Walk(s, steps, k) ==
  IF k > Len(steps) THEN {}
  ELSE LET r == steps[k]
           ok == Accepts(s, r.e, r.x)
           t == After(s, r.e, r.x)
       IN IF r.res # (IF ok THEN "ok" ELSE "refused") THEN {"change_outcome"}
          ELSE IF r.after # t THEN {"status_after_change"}
          ELSE Walk(t, steps, k + 1)

\* case: [kind |-> "build", state, res] or [kind |-> "history", init, steps]
Fails(case) ==
  IF case.kind = "build"
  THEN IF case.res = (IF Buildable(case.state) THEN "ok" ELSE "refused") THEN {} ELSE {"construction"}
  ELSE Walk(case.init, case.steps, 1)
=============================================================================
