-------------------------------- MODULE Num --------------------------------
(* IEEE-754 binary64 numbers as data.  TLC has 32-bit integers only, so a double is the pair <<hi, lo>> of its two
   32-bit halves (signed).  The operators below are the IEEE operations (round to nearest even); TLC evaluates them
   with Num.class (Num.java in this directory), because their TLA+ definition over Reals plus rounding is not
   executable.  Nothing else of the specification is hidden in Java: Vec.tla gives a definition for every vector
   operation and VecTest.tla checks the accelerated versions against those definitions. *)
EXTENDS Integers, Sequences
IEEE(op) == CHOOSE r \in Int \X Int : TRUE   \* placeholder body, never evaluated
FLit(s)    == IEEE(s)          \* the double nearest to the decimal or hexadecimal literal s (a string)
FInt(i)    == IEEE(i)          \* the double equal to the integer i
FAdd(a, b) == IEEE(<<a, b>>)
FSub(a, b) == IEEE(<<a, b>>)
FMul(a, b) == IEEE(<<a, b>>)
FDiv(a, b) == IEEE(<<a, b>>)
FNeg(a)    == IEEE(a)
FAbs(a)    == IEEE(a)
FSqrt(a)   == IEEE(a)
FMax(a, b) == IEEE(<<a, b>>)   \* C's (a > b) ? a : b
FMin(a, b) == IEEE(<<a, b>>)   \* C's (a < b) ? a : b
FLt(a, b)  == TRUE
FLe(a, b)  == TRUE
FEq(a, b)  == TRUE
FIsNaN(a)  == TRUE
FFloor(a)  == 0                \* floor of a double as an integer (|a| < 2^31)
FFmt(fmt, a) == ""             \* the text C's printf gives for one double in the format fmt ("%.4f", "%.2e", ...)
FStr(a)    == ""               \* readable text, for diagnostics only
=============================================================================
