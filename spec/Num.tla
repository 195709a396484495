-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Extended rational numbers, used for every value the specification talks *)
(* about.  A number is a string: "p", "p/q" (lowest terms), "nan", "inf",   *)
(* "-inf", or "any" - a value the specification deliberately leaves open    *)
(* (it absorbs everything in arithmetic and is close to every observation).*)
(* TLC integers have 32 bits, so the operators below are evaluated by the   *)
(* Java class VNum (arbitrary precision); the definitions given here are    *)
(* placeholders that only fix the arity.  NumLaws.tla checks the field and  *)
(* order laws they have to satisfy.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

NAdd(a, b) == CHOOSE x \in STRING : TRUE      \* a + b   (IEEE rules for nan/inf)
NSub(a, b) == CHOOSE x \in STRING : TRUE      \* a - b
NMul(a, b) == CHOOSE x \in STRING : TRUE      \* a * b
NDiv(a, b) == CHOOSE x \in STRING : TRUE      \* a / b,  0/0 = nan, c/0 = +-inf
NPow(a, b) == CHOOSE x \in STRING : TRUE      \* a ^ b
NNeg(a)    == CHOOSE x \in STRING : TRUE      \* - a
NSqrt(a)   == CHOOSE x \in STRING : TRUE      \* non-negative root, nan below 0
NLn(a)     == CHOOSE x \in STRING : TRUE      \* natural logarithm
NExp(a)    == CHOOSE x \in STRING : TRUE
NLt(a, b)  == CHOOSE x \in BOOLEAN : TRUE     \* FALSE whenever nan/any is involved
NLe(a, b)  == CHOOSE x \in BOOLEAN : TRUE
NInt(n)    == CHOOSE x \in STRING : TRUE      \* TLA+ integer -> number
NFloor(a)  == CHOOSE x \in Int : TRUE         \* floor, as a TLA+ integer
NSum(s)    == CHOOSE x \in STRING : TRUE      \* sum of a sequence of numbers
NClose(expected, observed, digits) == CHOOSE x \in BOOLEAN : TRUE
                                              \* equal up to 10^-digits (relative above 1); all infinities are equal
TQuantile(conf, dof) == CHOOSE x \in STRING : TRUE
                                              \* t with P(|T_dof| <= t) = conf
StrLt(s, t) == CHOOSE x \in BOOLEAN : TRUE    \* lexicographic order of labels
Force(v) == v    \* the identity; makes TLC evaluate v completely

Unsaid(a) == a   \* a; in databases, which may do otherwise, "any" (a sum over nothing, say)

NIsNan(a) == a = "nan"
NOk(a)    == a # "nan"
NAbs(a)   == IF NLt(a, "0") THEN NNeg(a) ELSE a
NMax2(a, b) == IF NLt(a, b) THEN b ELSE a
NMin2(a, b) == IF NLt(b, a) THEN b ELSE a
NSquare(a) == NMul(a, a)
NMean(s)  == IF s = <<>> THEN "nan" ELSE NDiv(NSum(s), NInt(Len(s)))
=============================================================================
