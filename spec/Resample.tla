------------------------------ MODULE Resample ------------------------------
(***************************************************************************)
(* Bootstrap and Poisson bootstrap.  The draws are the library's choice, so *)
(* they are part of the recorded behaviour: ev.reps is the sequence of the  *)
(* replicate results of the inner metric.  The inner metric is a list whose *)
(* first ev.k members are indicator sums (Sum(e1), Sum(e2), ...), where     *)
(* column e<j> is 1 on the rows of unit ev.units[j] (or on row j when rows   *)
(* are resampled) and 0 elsewhere.  They tell how many times each unit was   *)
(* drawn into each slice; everything else is determined by that.             *)
(***************************************************************************)
EXTENDS Meter

AsFrame(o) == Frame(o.idx, o.n,
                [k \in {o.rows[i].k : i \in DOMAIN o.rows} |->
                   o.rows[CHOOSE i \in DOMAIN o.rows : o.rows[i].k = k].v])

IsCount(x) == NOk(x) /\ ~NLt(x, "0") /\ NLt(x, "1000") /\ NInt(NFloor(x)) = x
Zero(x) == IF NOk(x) THEN x ELSE "0"

(* how many times unit j was drawn into slice s: the set of the answers      *)
(* given by the rows of the slice in which the unit occurs                   *)
Mults(C, rep, sp, s, j) ==
  {NDiv(Zero(Get(rep, k)[j]), C.f[k][j]) :
     k \in {k \in SliceKeys(C, sp, s) : NOk(C.f[k][j]) /\ C.f[k][j] # "0"}}

(* C: inner metric on the original rows; rep: on a replicate                  *)
DrawDiff(ev, C, rep, s, poisson) ==
  LET js == {j \in 1..ev.k : \E k \in SliceKeys(C, ev.sp, s) : NOk(C.f[k][j]) /\ C.f[k][j] # "0"}
      m == Force([j \in js |-> Mults(C, rep, ev.sp, s, j)])
  IN IF \E j \in js : Cardinality(m[j]) # 1
     THEN "unit drawn a different number of times in parts of slice [" \o ToString(s) \o "]"
     ELSE IF \E j \in js : \E x \in m[j] : ~IsCount(x)
     THEN "not whole units in slice [" \o ToString(s) \o "]"
     ELSE IF \E k \in SliceKeys(rep, ev.sp, s) : \E j \in 1..ev.k :
               Zero(Get(rep, k)[j]) # "0" /\ (k \notin DOMAIN C.f \/ Zero(Get(C, k)[j]) = "0")
     THEN "a unit was drawn into slice [" \o ToString(s) \o "] where it does not occur"
     ELSE IF ~poisson /\ NSum([i \in DOMAIN SetToSeq(js) |-> CHOOSE x \in m[SetToSeq(js)[i]] : TRUE])
                         # NInt(Cardinality(js))
     THEN "wrong number of draws in slice [" \o ToString(s) \o "]"
     ELSE ""

Multiplicity(ev, C, rep, s, j) == LET m == Mults(C, rep, ev.sp, s, j)
                                  IN IF m = {} THEN 0 ELSE NFloor(CHOOSE x \in m : TRUE)

(* the rows of the replicate                                                  *)
Expand(ev, tb, C, rep) ==
  LET slices == {Proj(C.idx, ev.sp, k) : k \in DOMAIN C.f}
      M == Force([s \in slices |-> [j \in 1..ev.k |-> Multiplicity(ev, C, rep, s, j)]])
      unit(r) == CHOOSE j \in 1..ev.k : r[ev.ind[j]] = "1"
      times(r) == IF KeyOf(r, ev.sp) \in slices THEN M[KeyOf(r, ev.sp)][unit(r)] ELSE 0
  IN [tb EXCEPT !.rows = FlattenSeq([i \in DOMAIN tb.rows |-> [c \in 1..times(tb.rows[i]) |-> tb.rows[i]]])]

(* replicate values, compared cell by cell: a missing row is a missing value  *)
CellsDiff(e, o, digits) ==
  LET ks == DOMAIN e.f \cup DOMAIN o.f
      bad == {k \in ks : \E i \in 1..e.n : ~NClose(Get(e, k)[i], Get(o, k)[i], digits)}
  IN IF bad = {} THEN ""
     ELSE LET k == CHOOSE k \in bad : TRUE
              i == CHOOSE i \in 1..e.n : ~NClose(Get(e, k)[i], Get(o, k)[i], digits)
          IN "replicate value at " \o ToString(k) \o " column " \o ToString(i) \o ": expected "
             \o Get(e, k)[i] \o ", got " \o Get(o, k)[i]

First(ds) == LET bad == {i \in DOMAIN ds : ds[i] # ""} IN IF bad = {} THEN "" ELSE ds[Min(bad)]

(* the expected output given the recorded replicates                          *)
BootFrame(ev, C, reps) ==
  WithError(C, ev.tree.conf,
            LAMBDA k, i : SelectSeq([r \in DOMAIN reps |-> Get(reps[r], k)[i]], NOk),
            SampleSD)

RepsDiff(ev) ==
  LET t == ev.tree
      tb == Filter(ev.tb, t.where)
      C == Eval(t.kids[1], tb, ev.sp)
      poisson == t.op = "Poisson"
      reps == [r \in DOMAIN ev.reps |-> AsFrame([ev.reps[r] EXCEPT !.n = C.n])]
      slices == SetToSeq({Proj(C.idx, ev.sp, k) : k \in DOMAIN C.f})
      one(rep) ==
        LET d == First([i \in DOMAIN slices |-> DrawDiff(ev, C, rep, slices[i], poisson)])
        IN IF d # "" THEN d
           ELSE CellsDiff(Eval(t.kids[1], Expand(ev, tb, C, rep), ev.sp), rep, 6)
  IN IF ~ev.partial /\ Len(reps) # t.n THEN "made " \o ToString(Len(reps)) \o " replicates instead of " \o ToString(t.n)
     ELSE IF Len(reps) > t.n THEN "made too many replicates"
     ELSE First([r \in DOMAIN reps |-> one(reps[r])])

(* ---- distribution of the draws ------------------------------------------*)
(* ev.w: a sequence of count vectors, one per replicate and slice, all of    *)
(* length ev.n.  Five-sigma bounds on moments of Poisson(1), respectively     *)
(* multinomial counts.                                                        *)
SumSeq(s) == FoldSeq(LAMBDA x, a : x + a, 0, s)
Sq(x) == x * x
Within(x, bound) == ~NLt(NMul("25", bound), NMul(x, x))      \* x^2 <= 25 * bound
Stretch == 40
Repeats(w, n) ==
  LET T == Force([j \in 1..n |-> Force([r \in DOMAIN w |-> w[r][j]])])
      m == Len(w) - Stretch
  IN Cardinality({SubSeq(T[j], r, r + Stretch) : <<j, r>> \in (1..n) \X (1..m)}) # n * m
DrawsDiff(ev) ==
  LET R == Len(ev.w) n == ev.n N == R * n
      poisson == ev.tree.op = "Poisson"
      tot == [r \in 1..R |-> SumSeq(ev.w[r])]
      S == SumSeq(tot)
      Q == SumSeq([r \in 1..R |-> SumSeq([j \in 1..n |-> Sq(ev.w[r][j])])])
      D == SumSeq([r \in 1..R |-> Sq(tot[r] - n)])
      P(j) == SumSeq([r \in 1..R |-> ev.w[r][j]]) - R
      Lag == SumSeq([r \in 1..(R-1) |-> SumSeq([j \in 1..n |-> (ev.w[r][j] - 1) * (ev.w[r+1][j] - 1)])])
      q == IF poisson THEN NInt(2 * N) ELSE NSub(NInt(2 * N), NInt(R))     \* E w^2 = 2 - 1/n for counts
  IN IF \E r \in 1..R : Len(ev.w[r]) # n THEN "harness: ragged draws"
     ELSE IF ~poisson /\ \E r \in 1..R : tot[r] # n THEN "wrong number of draws"
     ELSE IF ~Within(NInt(S - N), NInt(N)) THEN "draws do not have mean one"
     ELSE IF ~Within(NSub(NInt(Q), q), NInt(11 * N)) THEN "draws do not have the right second moment"
     ELSE IF ~Within(NSub(NInt(Q - 2 * S + 2 * N), q), NInt(3 * N)) THEN "draws do not have the right variance"
     ELSE IF \E j \in 1..n : ~Within(NInt(P(j)), NInt(R)) THEN "some unit is drawn too often or too rarely"
     ELSE IF poisson /\ ~Within(NInt(D - N), NInt(R * (n + 2 * n * n))) THEN "units are not drawn independently"
     ELSE IF Repeats(ev.w, n) THEN "a sequence of draws repeats itself"
     ELSE IF ~Within(NInt(Lag), NInt(N)) THEN "consecutive replicates are not drawn independently"
     ELSE ""
=============================================================================
