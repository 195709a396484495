--------------------------------- MODULE Fit ---------------------------------
(***************************************************************************)
(* Linear models: the coefficients that minimise the objective, found      *)
(* exactly.  X: rows of features, y: outcomes.  l1, l2: penalties of every   *)
(* coefficient in  |y - Xw|^2 / 2n + sum l1|w| + sum l2 w^2 / 2  (the        *)
(* intercept, when there is one, goes free: the data are centred).           *)
(* A result is <<intercept, w1, ..>> or <<w1, ..>>; "any" where the optimum is *)
(* not unique.                                                               *)
(***************************************************************************)
EXTENDS Linear, FiniteSets

Cols(X) == 1..Len(X[1])
Means(X) == [j \in Cols(X) |-> NMean([i \in DOMAIN X |-> X[i][j]])]
Centred(X) == LET m == Force(Means(X)) IN [i \in DOMAIN X |-> [j \in Cols(X) |-> NSub(X[i][j], m[j])]]
SumSq(X, j) == NSum([i \in DOMAIN X |-> NSquare(X[i][j])])

(* the coefficients with the given signs (0: vanishing), or <<>>             *)
WithSigns(G, b, l1, l2, s, k) ==
  LET A == SelectSeq([j \in 1..k |-> j], LAMBDA j : s[j] # 0)
      sgn(j) == IF s[j] = 1 THEN "1" ELSE "-1"
      M == [p \in DOMAIN A |-> [q \in DOMAIN A |-> IF p = q THEN NAdd(G[A[p]][A[p]], l2[A[p]]) ELSE G[A[p]][A[q]]]]
      v == Force(IF A = <<>> THEN <<>> ELSE Solve(M, [p \in DOMAIN A |-> NSub(b[A[p]], NMul(l1[A[p]], sgn(A[p])))]))
      w == [j \in 1..k |-> IF s[j] = 0 THEN "0" ELSE v[CHOOSE p \in DOMAIN A : A[p] = j]]
  IN IF A # <<>> /\ v = <<>> THEN <<>> ELSE w
(* the stationary points of the penalised objective                          *)
Stationary(G, b, l1, l2, positive) ==
  LET k == Len(b)
      signs == [1..k -> IF positive THEN {0, 1} ELSE {-1, 0, 1}]
      fits(s, w) ==
        \A j \in 1..k :
          LET r == NSub(b[j], DotP(G[j], w)) IN      \* minus the gradient of the loss
          CASE s[j] = 1 -> NLt("0", w[j])
            [] s[j] = -1 -> NLt(w[j], "0")
            [] OTHER -> NLe(r, l1[j]) /\ (positive \/ NLe(NNeg(l1[j]), r))
      cand == Force([s \in signs |-> WithSigns(G, b, l1, l2, s, k)])
  IN {cand[s] : s \in {s \in signs : cand[s] # <<>> /\ fits(s, cand[s])}}

Ridged(G, l2) == [i \in DOMAIN G |-> [j \in DOMAIN G |-> IF i = j THEN NAdd(G[i][i], l2[i]) ELSE G[i][j]]]
(* t: kind, alpha, ratio, icept, norm, positive                               *)
LinearFit(t, X0, y0) ==
  LET n == NInt(Len(y0))
      X == IF t.icept THEN Force(Centred(X0)) ELSE X0
      ym == NMean(y0)
      y == IF t.icept THEN [i \in DOMAIN y0 |-> NSub(y0[i], ym)] ELSE y0
      k == Len(X0[1])
      G == Force([i \in 1..k |-> [j \in 1..k |-> NDiv(DotP(Column(X, i), Column(X, j)), n)]])
      b == Force([j \in 1..k |-> NDiv(DotP(Column(X, j), y), n)])
      normed == t.norm /\ t.icept             \* without intercept nothing is normalised
      nsq(j) == IF normed THEN SumSq(X, j) ELSE "1"
      nrm(j) == IF normed THEN NSqrt(SumSq(X, j)) ELSE "1"
      ridge == IF t.kind = "Ridge" THEN NDiv(t.alpha, n)
               ELSE IF t.kind = "ElasticNet" THEN NMul(t.alpha, NSub("1", t.ratio)) ELSE "0"
      lasso == IF t.kind = "Lasso" THEN t.alpha ELSE IF t.kind = "ElasticNet" THEN NMul(t.alpha, t.ratio) ELSE "0"
      l2 == Force([j \in 1..k |-> NMul(ridge, nsq(j))])
      l1 == Force([j \in 1..k |-> NMul(lasso, nrm(j))])
      sol == Solve(Ridged(G, l2), b)
      opt == IF sol = <<>> THEN {} ELSE IF lasso = "0" /\ ~t.positive THEN {sol} ELSE Stationary(G, b, l1, l2, t.positive)
      w == IF Cardinality(opt) = 1 THEN CHOOSE w \in opt : TRUE ELSE [j \in 1..k |-> "any"]
      m == Means(X0)
  IN IF t.icept THEN <<NSub(ym, DotP(m, w))>> \o w ELSE w

(* ---- logistic regression -------------------------------------------------*)
(* Classes: sequence of the labels in order. With two, B is <<b>>, the          *)
(* coefficients of the second; with more, one row of coefficients for each      *)
(* class. A row is <<intercept, b1, ..>> or <<b1, ..>>. The slopes of the      *)
(* objective  C sum(loss) + r1 sum|b| + r2 sum b^2 / 2  divided by C.           *)
Score(t, x, b) == IF t.icept THEN NAdd(b[1], DotP(Tail(b), x)) ELSE DotP(b, x)
(* probabilities of every class for every row                                   *)
Probabilities(t, X, B, i) ==
  LET z == Force([c \in DOMAIN B |-> Score(t, X[i], B[c])])
      z0 == IF Len(B) = 1 THEN <<"0">> \o z ELSE z
      top == CHOOSE m \in {z0[c] : c \in DOMAIN z0} : \A a \in {z0[c] : c \in DOMAIN z0} : NLe(a, m)
      e == Force([c \in DOMAIN z0 |-> NExp(NSub(z0[c], top))])
      s == NSum(e)
  IN [c \in DOMAIN e |-> NDiv(e[c], s)]
Slopes(t, X, y, classes, B) ==   \* [class -> <<slope of the loss per coefficient>>]
  LET p == Force([i \in DOMAIN X |-> Probabilities(t, X, B, i)])
      one(c, x(_)) == LET cl == IF Len(B) = 1 THEN 2 ELSE c
                   IN NSum([i \in DOMAIN X |-> NMul(x(i), NSub(p[i][cl], IF y[i] = classes[cl] THEN "1" ELSE "0"))])
      w(c) == [j \in Cols(X) |-> one(c, LAMBDA i : X[i][j])]
  IN Force([c \in DOMAIN B |-> IF t.icept THEN <<one(c, LAMBDA i : "1")>> \o w(c) ELSE w(c)])
(* whether B is optimal, up to eps relative to the size of the data               *)
LogitOptimal(t, X, y, classes, B, eps) ==
  LET S == Slopes(t, X, y, classes, B)
      sh == IF t.icept THEN 1 ELSE 0
      r1 == IF t.penalty = "l1" THEN NDiv("1", t.c) ELSE IF t.penalty = "elasticnet" THEN NDiv(t.ratio, t.c) ELSE "0"
      r2 == IF t.penalty = "l2" THEN NDiv("1", t.c) ELSE IF t.penalty = "elasticnet" THEN NDiv(NSub("1", t.ratio), t.c) ELSE "0"
      size(j) == NMul(eps, NAdd("1", NSum([i \in DOMAIN X |-> NAbs(X[i][j])])))
      near(a, e) == NLe(NAbs(a), e)
      ok(c, j) == LET b == B[c][j + sh]
                      g == NAdd(S[c][j + sh], NMul(r2, b))
                      e == size(j)
                  IN IF r1 = "0" THEN near(g, e)
                     ELSE IF near(b, eps) THEN NLe(NAbs(g), NAdd(r1, e))
                     ELSE IF NLt("0", b) THEN near(NAdd(g, r1), e) ELSE near(NSub(g, r1), e)
  IN \A c \in DOMAIN B : /\ t.icept => near(S[c][1], NMul(eps, NInt(Len(X) + 1)))
                         /\ \A j \in Cols(X) : ok(c, j)
=============================================================================
