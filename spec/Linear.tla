------------------------------- MODULE Linear -------------------------------
(* Exact linear algebra on sequences of sequences of numbers.              *)
EXTENDS Num, TLC

Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
SubRow(r, f, p) == [k \in DOMAIN r |-> NSub(r[k], NMul(f, p[k]))]

(* Gauss-Jordan on the augmented matrix m (n rows, n+1 columns), column c   *)
RECURSIVE GaussJordan(_, _, _)
GaussJordan(m, c, n) ==
  IF c > n THEN m
  ELSE LET piv == {i \in c..n : m[i][c] # "0"} IN
       IF piv = {} THEN <<>>                       \* singular
       ELSE LET m1 == Swap(m, c, CHOOSE i \in piv : \A j \in piv : i <= j)
                pr == [k \in DOMAIN m1[c] |-> NDiv(m1[c][k], m1[c][c])]
                m2 == [i \in 1..n |-> IF i = c THEN pr ELSE SubRow(m1[i], m1[i][c], pr)]
            IN GaussJordan(m2, c + 1, n)
(* the solution of A x = b, or <<>> when A is singular                      *)
Solve(A, b) ==
  LET n == Len(A)
      m == GaussJordan([i \in 1..n |-> Append(A[i], b[i])], 1, n)
  IN IF m = <<>> THEN <<>> ELSE [i \in 1..n |-> m[i][n + 1]]

DotP(u, v) == NSum([i \in DOMAIN u |-> NMul(u[i], v[i])])
Column(X, j) == [i \in DOMAIN X |-> X[i][j]]
Gram(X) == [i \in 1..Len(X[1]) |-> [j \in 1..Len(X[1]) |-> DotP(Column(X, i), Column(X, j))]]
(* least squares coefficients of y on the columns of X (<<>> if singular)   *)
OLS(X, y) == Solve(Gram(X), [j \in 1..Len(X[1]) |-> DotP(Column(X, j), y)])
=============================================================================
