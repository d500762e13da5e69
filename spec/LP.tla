------------------------------- MODULE LP -------------------------------
(* The optimum of a small linear programme, as a constant-level operator.

   LpMax(obj, rows) is the maximum of obj.x over all x >= 0 that satisfy
   every row; obj is a set of <<coefficient, variable>>, a row is
   <<set of <<coefficient, variable>>, right hand side>> and means
   "sum <= right hand side".  Every right hand side must be >= 0, so doing
   nothing (x = 0) is always allowed.  Variables are strings, numbers are
   Reals of module F.  "inf" when there is no maximum.  Evaluated by the Java
   override spec/java/LP.java (textbook simplex with Bland's rule), which
   shares nothing with the solver the planner is run with.                *)
LOCAL Undefined == CHOOSE x : x \notin {}
LpMax(obj, rows) == Undefined
=========================================================================
