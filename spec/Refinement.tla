----------------------------- MODULE Refinement ------------------------------
(* The refinements a rule may be subject to: all conditions on a feature that *)
(* separate the values of the examples that are covered by the rule.          *)
(* Case: x[e][f]: values (NaN = missing), types[f]: "n", "o" or "c",          *)
(* sparse: 1 if features are stored in a sparse format, all: 1 if all         *)
(* refinements must be considered by the implementation, 0 if those that are  *)
(* known to be missed (see known-findings.jsonl) are exempted.                *)
EXTENDS Rules, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
Case == Cases[c]
Examples == 1..Case.n
Val(e, f) == Case.x[e][f]
Missing(e, f) == FIsNaN(Val(e, f))
Present(f, C) == {e \in C : ~Missing(e, f)}
ValuesOf(f, C) == {Val(e, f) : e \in Present(f, C)}
SortedValues(S) == SortSeq(SetToSeq(S), FLt)
Mean(a, b) == FSingle(FAdd(a, FMul(FSub(b, a), FRat(1, 2))))

\* ------------------------------------------------------------------- conditions that separate values of covered examples
\* A refinement: feature, operator, the examples it covers, the ones with another value, and the smallest value
\* (or the only value) that is told apart
Cand(f, op, cov, rest) == [f |-> f, op |-> op, cov |-> cov, rest |-> rest]

Splits(f, C, leq, gr) ==
    LET v == SortedValues(ValuesOf(f, C)) IN
    UNION {LET below == {e \in Present(f, C) : FLe(Val(e, f), v[i])}
               above == Present(f, C) \ below IN
           {Cand(f, leq, below, above), Cand(f, gr, above, below)} : i \in 1..(Len(v) - 1)}

Refinements(f, C) ==
    CASE Case.types[f] = "n" -> Splits(f, C, "<=", ">")
      [] Case.types[f] = "o" -> Splits(f, C, "o<=", "o>")
      [] OTHER ->
           LET V == ValuesOf(f, C) IN
           IF Cardinality(V) < 2 THEN {}
           ELSE UNION {LET eq == {e \in Present(f, C) : FEq(Val(e, f), v)} IN
                       {Cand(f, "==", eq, Present(f, C) \ eq), Cand(f, "!=", Present(f, C) \ eq, eq)} : v \in V}

\* Whether a condition <<f, op, threshold>> may be added at all: numerical thresholds are in the middle of neighbouring
\* values (including the value of sparse elements), conditions on other features refer to values of the feature
MayRefine(cond, C) ==
    LET f == cond[1]
        op == cond[2]
        thr == cond[3]
        extra == IF Case.sparse = 1 THEN {Zero} ELSE {} IN
    CASE op \in {"<=", ">"} ->
           /\ Case.types[f] = "n"
           /\ LET v == SortedValues(ValuesOf(f, C) \cup extra) IN
              \E i \in 1..(Len(v) - 1) : FClose(thr, Mean(v[i], v[i + 1]), 1048576)
      [] op \in {"o<=", "o>"} -> Case.types[f] = "o" /\ thr \in ValuesOf(f, Examples) \cup extra
      [] OTHER -> Case.types[f] \in {"o", "c"} /\ thr \in ValuesOf(f, Examples) \cup extra

Kept(cond, C) == {e \in C : Satisfies(Val(e, cond[1]), cond[2], cond[3])}

\* ------------------------------------------------------------------- known omissions
\* Whether the implementation is known to consider a refinement if the rule consists of the conditions P and covers the
\* examples C, of which W have non-zero weights
Majority(f) == CHOOSE v \in ValuesOf(f, Examples) : \A v2 \in ValuesOf(f, Examples) :
                   Cardinality({e \in Examples : FEq(Val(e, f), v)}) >= Cardinality({e \in Examples : FEq(Val(e, f), v2)})
Considered(cand, P, C, W) ==
    LET f == cand.f
        zero == Present(f, C) \ W
        nonneg(X) == {e \in X \cap W : FLe(Zero, Val(e, f))} IN
    \/ Case.all = 1
    \/ CASE Case.types[f] = "n" ->
              \* the smallest non-negative value is not separated from others if it occurs once
              /\ Cardinality(nonneg(cand.cov)) # 1 \/ nonneg(cand.rest) = {} \/ cand.op = ">"
              /\ Cardinality(nonneg(cand.rest)) # 1 \/ nonneg(cand.cov) = {} \/ cand.op = "<="
              \* examples with zero weights hide changes of the value
              /\ \A e \in zero : \A e2 \in Present(f, C) \cap W : ~FEq(Val(e, f), Val(e2, f))
              \* a feature may be dropped after it was constrained from below
              /\ \A i \in DOMAIN P : ~(P[i][1] = f /\ P[i][2] = ">")
         [] Case.types[f] = "o" ->
              \* values less (greater) than the majority are skipped if the smallest (largest) one has no weight
              \A v \in ValuesOf(f, C) : \E e \in Present(f, C) \cap W : FEq(Val(e, f), v)
         [] OTHER ->
              \* a feature is dropped after its majority value has been excluded
              \A i \in DOMAIN P : ~(P[i][1] = f /\ P[i][2] = "!=" /\ P[i][3] = Majority(f))
=============================================================================
