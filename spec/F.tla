------------------------------- MODULE F -------------------------------
(* Real-valued arithmetic for the specification.

   TLC's integers are 32 bit and it has no reals.  The planner's physics
   (link budgets, geometry, probabilities, money) is stated here with an
   abstract sort "Real" whose values are written as decimal strings; the
   operators below are constant-level operators that TLC evaluates through
   the Java overrides in spec/java/F.java (IEEE doubles).  The TLA+ bodies
   are never evaluated: they only fix the arity.                           *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL Undefined == CHOOSE x : x \notin {}

FInt(i)      == Undefined   \* integer -> Real
FFloor(a)    == Undefined   \* Real -> integer (floor)
FRound(a)    == Undefined   \* Real -> integer (nearest, ties away from zero)
FAdd(a, b)   == Undefined
FSub(a, b)   == Undefined
FMul(a, b)   == Undefined
FDiv(a, b)   == Undefined
FMod(a, b)   == Undefined   \* floored modulus, sign of the divisor
FPow(a, b)   == Undefined
FNeg(a)      == Undefined
FAbs(a)      == Undefined
FSqrt(a)     == Undefined
FLog10(a)    == Undefined
FExp(a)      == Undefined
FSin(a)      == Undefined   \* radians
FCos(a)      == Undefined
FTan(a)      == Undefined
FAsin(a)     == Undefined
FAcos(a)     == Undefined
FAtan(a)     == Undefined
FAtan2(a, b) == Undefined
FRad(a)      == Undefined   \* degrees -> radians
FDeg(a)      == Undefined   \* radians -> degrees
FMin2(a, b)  == Undefined
FMax2(a, b)  == Undefined
FLt(a, b)    == Undefined   \* strict
FLe(a, b)    == Undefined
FNear(a, b, tol) == Undefined \* |a-b| <= tol*max(1,|a|,|b|); infinities equal
FLeT(a, b, tol)  == Undefined \* a <= b + tol*max(1,|a|,|b|)
FIsFinite(a) == Undefined
FSumSeq(s)   == Undefined   \* sum of a sequence of Reals
FMinSeq(s)   == Undefined
FMaxSeq(s)   == Undefined
=============================================================================
