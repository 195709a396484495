------------------------------ MODULE NumLaws ------------------------------
(* Laws the Java implementation of Num has to satisfy, over a sample.       *)
EXTENDS Num, TLC
S == {"0", "1", "-1", "1/2", "-7/3", "5", "1000000007/3", "22/7"}
P == {"1", "1/2", "5", "22/7", "4/9", "2"}
VARIABLE done
Init == done = FALSE
Next == done' = TRUE
Laws ==
  /\ \A a, b \in S : NAdd(a, b) = NAdd(b, a) /\ NMul(a, b) = NMul(b, a)
  /\ \A a, b, c \in S : /\ NAdd(a, NAdd(b, c)) = NAdd(NAdd(a, b), c)
                        /\ NMul(a, NMul(b, c)) = NMul(NMul(a, b), c)
                        /\ NMul(a, NAdd(b, c)) = NAdd(NMul(a, b), NMul(a, c))
  /\ \A a \in S : NAdd(a, "0") = a /\ NMul(a, "1") = a /\ NSub(a, a) = "0"
  /\ \A a \in S \ {"0"} : NDiv(a, a) = "1" /\ NMul(a, NDiv("1", a)) = "1"
  /\ \A a, b \in S : (NLt(a, b) \/ NLt(b, a) \/ a = b) /\ ~(NLt(a, b) /\ NLt(b, a))
  /\ \A a, b, c \in S : NLt(a, b) => NLt(NAdd(a, c), NAdd(b, c))
  /\ \A a \in P : NClose(a, NSquare(NSqrt(a)), 15) /\ NClose(a, NExp(NLn(a)), 12)
  /\ NDiv("1", "0") = "inf" /\ NDiv("-1", "0") = "-inf" /\ NDiv("0", "0") = "nan"
  /\ NSub("inf", "inf") = "nan" /\ NMul("inf", "0") = "nan" /\ NAdd("nan", "1") = "nan"
  /\ NAdd("any", "nan") = "any" /\ ~NLt("nan", "1") /\ ~NLt("1", "nan")
  /\ NFloor("-7/3") = -3 /\ NFloor("5") = 5 /\ NFloor("22/7") = 3
  /\ NClose("12706204736/1000000000", TQuantile("95/100", "1"), 8)
  /\ NClose("4302652730/1000000000", TQuantile("95/100", "2"), 8)
  /\ NClose("1812461123/1000000000", TQuantile("9/10", "10"), 8)
  /\ NClose("2009575237/1000000000", TQuantile("95/100", "49"), 8)
  /\ NSum(<<"1", "1/2", "1/3">>) = "11/6" /\ NSum(<<>>) = "0"
  /\ NPow("2/3", "-2") = "9/4" /\ NPow("4", "1/2") = "2"
=============================================================================
