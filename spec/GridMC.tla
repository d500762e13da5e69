-------------------------------- MODULE GridMC ------------------------------
(* All orders of asking a 2 x 2 grid with any pattern of holes: heights that
   were there stay, a hole once asked keeps its answer, no answer is a hole. *)
EXTENDS Grid, Json
VARIABLES st, asked
Z == {NODATA, "1.0", "4.0"}
Places == {<<0, 0>>, <<10, 1>>, <<1, -9>>, <<7, -7>>, <<2, -3>>}
Mk(m) == [l |-> 0, t |-> 0, rx |-> 8, ry |-> 8, v |-> <<<<m[1], m[2]>>, <<m[3], m[4]>>>>,
          box |-> [x0 |-> -4, y0 |-> -12, x1 |-> 12, y1 |-> 4]]
Init == /\ \E m \in [1..4 -> Z] : st = Start(Mk(m))
        /\ asked = {}
        /\ PrintT("EDGE " \o ToJson([k |-> "I", v |-> st.g.v]))
Next == /\ Valid(st.src) # {}
        /\ \E q \in Places : \E z \in Answers(st, q[1], q[2]) :
          /\ st' = Fill(st, q[1], q[2], z)
          /\ asked' = asked \union {[q |-> q, z |-> z]}
Spec == Init /\ [][Next]_<<st, asked>>
NoHoleAnswer == \A a \in asked : ~Hole(a.z)
Steady == \A a, b \in asked : NearCells(st.g, a.q[1], a.q[2]) = NearCells(st.g, b.q[1], b.q[2]) => a.z = b.z
Kept == \A p \in Valid(st.src) : At(st.g, p) = At(st.src, p)
=============================================================================
