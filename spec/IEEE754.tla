------------------------------- MODULE IEEE754 -------------------------------
(* IEEE-754 binary64 arithmetic. A floating point number is a pair <<hi, lo>> *)
(* of signed 32-bit integers that hold its bit pattern. All operators are     *)
(* implemented by the Java class IEEE754 (TLC loads it from its class path);  *)
(* the definitions below only fix the arities.                                *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

FInt(i) == CHOOSE x \in {} : TRUE            \* the number i
FRat(p, q) == CHOOSE x \in {} : TRUE         \* the number p / q
FAdd(a, b) == CHOOSE x \in {} : TRUE
FSub(a, b) == CHOOSE x \in {} : TRUE
FMul(a, b) == CHOOSE x \in {} : TRUE
FDiv(a, b) == CHOOSE x \in {} : TRUE
FNeg(a) == CHOOSE x \in {} : TRUE
FAbs(a) == CHOOSE x \in {} : TRUE
FSqrt(a) == CHOOSE x \in {} : TRUE
FExp(a) == CHOOSE x \in {} : TRUE
FLog(a) == CHOOSE x \in {} : TRUE
FPow(a, b) == CHOOSE x \in {} : TRUE
FMin(a, b) == CHOOSE x \in {} : TRUE
FMax(a, b) == CHOOSE x \in {} : TRUE
FLt(a, b) == CHOOSE x \in BOOLEAN : TRUE
FLe(a, b) == CHOOSE x \in BOOLEAN : TRUE
FEq(a, b) == CHOOSE x \in BOOLEAN : TRUE      \* numerical equality
FIsNaN(a) == CHOOSE x \in BOOLEAN : TRUE
FIsFinite(a) == CHOOSE x \in BOOLEAN : TRUE
FCeil(a) == CHOOSE x \in Int : TRUE           \* integer results (must fit into 32 bits)
FFloor(a) == CHOOSE x \in Int : TRUE
FSum(s) == CHOOSE x \in {} : TRUE             \* sum of a sequence of numbers
FDot(s, t) == CHOOSE x \in {} : TRUE          \* scalar product of two sequences
FSolve(A, b) == CHOOSE x \in {} : TRUE        \* Gaussian elimination with pivoting, A and b sequences
FSingle(a) == CHOOSE x \in {} : TRUE          \* rounded to binary32
FStr(a) == CHOOSE x \in STRING : TRUE         \* decimal representation (diagnostics)
\* |a - b| <= tol * 2^-40 * max(1, |a|, |b|); NaN is close to NaN, infinities to themselves
FClose(a, b, tol) == CHOOSE x \in BOOLEAN : TRUE
=============================================================================
