------------------------------- MODULE Boosting ------------------------------
(* Gradient boosting of rules. A state holds the scores predicted so far, the *)
(* gradients and Hessians they result in, and the rule that is being grown.   *)
(* A rule starts with an empty body and is refined by the condition that      *)
(* minimizes the regularized second-order approximation of the loss, taking   *)
(* sampled examples, features and outputs into account (which are recorded),  *)
(* until no condition results in an improvement or a limit is reached.        *)
(* Afterwards, its conditions may be pruned (IREP), its head is recalculated  *)
(* and scaled, and the scores of the examples it covers are updated. Finally, *)
(* rules may be relearned one after the other, in the context of all others.  *)
EXTENDS Refinement, Losses

VARIABLES s,        \* number of segments (rules) that have been processed
          ph,       \* "default", "begin", "grow", "end" or "done"
          S,        \* predicted scores, per example
          G, H,     \* gradients and Hessians, per output (and pair of outputs)
          C,        \* covered examples
          P,        \* conditions of the current rule
          outs,     \* [o |-> outputs the rule may predict for, all |-> TRUE if these have not been sampled or fixed]
          q,        \* quality of the current rule
          hd,       \* scores the current rule may predict
          R         \* rules that have been learned
vars == <<c, s, ph, S, G, H, C, P, outs, q, hd, R>>

NR == Len(R) + IF Case.p.def = 1 THEN 1 ELSE 0

Par == Case.p
K == Case.k
Outs == 1..K
AllOuts == [o |-> [i \in Outs |-> i], all |-> TRUE]
Tol == 16384
Close(a, b) == FClose(a, b, Tol)
Seg == Case.segs[s + 1]
Dec == Par.dec = 1
\* The implementation deviates from the intended behaviour in a few known respects (see known-findings.jsonl). Cases that
\* are subject to any of them are judged twice: by the intended behaviour and by the one that is implemented (`Asis`).
Asis == "variant" \in DOMAIN Case /\ Case.variant = 2
AsisRegression == Asis /\ Case.reg = 1
\* whether heads are obtained by solving systems of linear equations
Joint(head) == ~Dec /\ head # "single"

\* ------------------------------------------------------------------- statistics
\* Target values of a regression problem are mistaken for labels
AsisNonDecStatistics(y, sc, regular) ==
    LET label == [o \in Outs |-> IF FEq(y[o], Zero) THEN FNeg(One) ELSE One] IN
    IF Par.head = "single" /\ regular THEN NonDecStatistics(Par.loss, label, sc)
    ELSE NonDecStats(Par.loss, y, sc,
                     LAMBDA r : [o \in Outs |-> FAdd(FSub(Sq(sc[o]), FMul(FMul(Two, y[o]), sc[o])), One)])
Statistics(scores, regular) ==
    LET st == [e \in Examples |->
                 LET y == Case.y[e] IN
                 IF Dec THEN [g |-> [o \in Outs |-> DecGradient(Par.loss, y[o], scores[e][o])],
                              h |-> [o \in Outs |-> [r \in Outs |-> IF o = r THEN DecHessian(Par.loss, y[o], scores[e][o]) ELSE Zero]]]
                 ELSE IF AsisRegression THEN AsisNonDecStatistics(y, scores[e], regular)
                 ELSE NonDecStatistics(Par.loss, y, scores[e])] IN
    TLCEval([g |-> [o \in Outs |-> [e \in Examples |-> TLCEval(st[e].g)[o]]],
             h |-> [o \in Outs |-> [r \in Outs |-> [e \in Examples |-> TLCEval(st[e].h)[o][r]]]]])

W(e) == IF Seg.sampled = 1 THEN Seg.w[e] ELSE 1
Weighted(X) == {e \in X : W(e) > 0}
\* Weighted sums of gradients and Hessians
Sums(X, weight(_), joint) ==
    LET m == TLCEval([e \in Examples |-> FInt(IF e \in X THEN weight(e) ELSE 0)]) IN
    TLCEval([g |-> [o \in Outs |-> FDot(m, G[o])],
             h |-> [o \in Outs |-> [r \in Outs |-> IF o = r \/ joint THEN FDot(m, H[o][r]) ELSE Zero]]])

\* ------------------------------------------------------------------- heads
DivOrZero(a, b) == LET d == FDiv(a, b) IN IF FIsFinite(d) THEN d ELSE Zero
\* gradient, shrunk towards zero by the L1 regularization weight
Shrunk(g) == IF FLt(Par.l1, g) THEN FSub(g, Par.l1) ELSE IF FLt(g, FNeg(Par.l1)) THEN FAdd(g, Par.l1) ELSE Zero
Score(t, o) == DivOrZero(FNeg(Shrunk(t.g[o])), FAdd(t.h[o][o], Par.l2))
\* Hessians of a pair of outputs are looked up in a triangular matrix. This requires that outputs are in increasing order,
\* whereas heads with a fixed number of outputs order them by their quality.
Tri(n) == (n * (n - 1)) \div 2
Packed(p) == LET col == CHOOSE i \in Outs : Tri(i) < p /\ p <= Tri(i + 1) IN <<p - Tri(col), col>>
Hessians(t, os) ==
    LET at(i, j) == IF Asis /\ os[j] > os[i] THEN LET p == Packed(Tri(os[i]) + os[j]) IN t.h[p[1]][p[2]] ELSE t.h[os[i]][os[j]] IN
    [i \in DOMAIN os |-> [j \in DOMAIN os |-> IF i >= j THEN at(i, j) ELSE at(j, i)]]
Scores(t, os, joint) ==
    IF ~joint THEN [i \in DOMAIN os |-> Score(t, os[i])]
    ELSE LET h == TLCEval(Hessians(t, os)) IN
         FSolve([i \in DOMAIN os |-> [j \in DOMAIN os |-> IF i = j THEN FAdd(h[i][i], Par.l2) ELSE h[i][j]]],
                [i \in DOMAIN os |-> FNeg(Shrunk(t.g[os[i]]))])
Quality(t, g, h, sc) ==
    FAdd(FAdd(FDot(sc, g), FMul(Half, FDot(sc, [i \in DOMAIN sc |-> FDot(sc, h[i])]))),
         FAdd(FMul(Par.l1, FSum([i \in DOMAIN sc |-> FAbs(sc[i])])), FMul(FMul(Half, Par.l2), FDot(sc, sc))))
RuleHead(t, os, joint) ==
    LET sc == TLCEval(Scores(t, os, joint)) IN
    [o |-> os, s |-> sc, q |-> Quality(t, [i \in DOMAIN os |-> t.g[os[i]]], Hessians(t, os), sc)]
\* Gradients and Hessians of the first outputs are mistaken for the ones of the outputs a partial head predicts for
AsisHead(t, os) ==
    LET sc == TLCEval(Scores(t, os, TRUE)) IN
    [o |-> os, s |-> sc, q |-> Quality(t, [i \in DOMAIN os |-> t.g[i]], [i \in DOMAIN os |-> [j \in DOMAIN os |-> t.h[i][j]]], sc)]

Ascending(X) == SortSeq(SetToSeq(X), <)
\* Numbers of outputs a head with a fixed number of outputs may have (the product is subject to rounding)
Fixed(n) == LET b(r) == LET m == Max2(r, Min2(n, Par.min)) IN IF Par.max >= Par.min THEN Min2(m, Par.max) ELSE m
                x == FMul(Par.ratio, FInt(n)) IN
            {b(FCeil(FMul(x, FSub(One, FRat(1, 1000000))))), b(FCeil(FMul(x, FAdd(One, FRat(1, 1000000)))))}
\* The sets of outputs a head may predict for: the ones with the largest scores, depending on the type of the head
Selections(t, os) ==
    LET O == Range(os)
        abs == TLCEval([o \in Outs |-> FAbs(Score(t, o))])
        ge(a, b) == FLe(b, a) \/ Close(a, b) IN
    CASE Par.head = "single" -> {{o} : o \in {o \in O : \A r \in O : ge(abs[o], abs[r])}}
      [] Par.head = "fixed" -> {X \in SUBSET O : /\ Cardinality(X) \in Fixed(Cardinality(O))
                                                 /\ \A o \in X : \A r \in O \ X : ge(abs[o], abs[r])}
      [] Par.head = "dynamic" ->
           LET mn == CHOOSE a \in {abs[o] : o \in O} : \A r \in O : FLe(a, abs[r])
               mx == CHOOSE a \in {abs[o] : o \in O} : \A r \in O : FLe(abs[r], a)
               thr == FMul(FPow(FSub(mx, mn), Par.exponent), FSub(One, Par.threshold))
               val(o) == FPow(FSub(abs[o], mn), Par.exponent)
               sure == {o \in O : FLt(thr, val(o)) /\ ~Close(thr, val(o))}
               tie == {o \in O : Close(thr, val(o))} IN
           {X \cup sure : X \in SUBSET tie} \ {{}}
      [] OTHER -> {O}

\* The heads that are optimal if the rule covers the examples X. Outputs that have been sampled or fixed are all
\* predicted, unless rules should predict for a single output.
Heads(X, weight(_), os) ==
    LET joint == Joint(Par.head)
        t == Sums(X, weight, joint) IN
    IF Asis /\ joint /\ os.all /\ Par.head = "dynamic" THEN {AsisHead(t, Ascending(Y)) : Y \in Selections(t, os.o)}
    ELSE IF Asis /\ joint /\ os.all /\ Par.head = "fixed"
    THEN LET abs == TLCEval([o \in Outs |-> FAbs(Score(t, o))]) IN
         {LET h == AsisHead(t, x)
              o == Ascending(Range(x)) IN
          [h EXCEPT !.o = o, !.s = [i \in DOMAIN o |-> h.s[CHOOSE j \in DOMAIN x : x[j] = o[i]]]] : x \in UNION {{x \in [1..Cardinality(Y) -> Y] :
             /\ \A i, j \in DOMAIN x : i < j => x[i] # x[j] /\ (FLe(abs[x[j]], abs[x[i]]) \/ Close(abs[x[i]], abs[x[j]]))} :
               Y \in Selections(t, os.o)}}
    ELSE IF os.all \/ Par.head = "single" THEN {RuleHead(t, Ascending(Y), joint) : Y \in Selections(t, os.o)}
    ELSE {RuleHead(t, os.o, joint)}

\* ------------------------------------------------------------------- limits
MinCoverage ==
    IF FEq(Par.minsupport, Zero) THEN {Min2(Case.n, Par.mincov)}
    ELSE LET x == FMul(Par.minsupport, FInt(Case.n))
             b(r) == Max2(Min2(r, Case.n), Min2(Par.mincov, Case.n)) IN
         {b(FCeil(FMul(x, FSub(One, FRat(1, 1000000))))), b(FCeil(FMul(x, FAdd(One, FRat(1, 1000000)))))}
MinCov == CHOOSE m \in MinCoverage : \A m2 \in MinCoverage : m <= m2       \* at least
MinCovMax == CHOOSE m \in MinCoverage : \A m2 \in MinCoverage : m >= m2

\* If a sparse feature has no positive values, a condition that covers all examples may be created. Its threshold is in
\* the middle of the largest negative value and zero, but examples with greater values are treated as if they were covered.
Bogus(cond) ==
    LET f == cond[1]
        neg(X) == {e \in X : FLt(Val(e, f), Zero)}
        prev == IF neg(Weighted(C)) = {} THEN Zero
                ELSE Val(CHOOSE e \in neg(C) : \A e2 \in neg(C) : FLe(Val(e2, f), Val(e, f)), f) IN
    /\ Asis /\ Case.sparse = 1 /\ Case.types[f] = "n" /\ cond[2] = "<="
    /\ ~\E e \in Weighted(C) : FLt(Zero, Val(e, f))
    /\ FEq(cond[3], Mean(Zero, prev))
Covered(cond, n) ==
    LET kept == Kept(cond, C) IN
    IF Bogus(cond) /\ (Cardinality(Weighted(kept)) # n \/ Weighted(kept) = Weighted(Present(cond[1], C))) THEN Present(cond[1], C) ELSE kept

\* Refinements that must be taken into account, given the features that have been sampled
Must(features) ==
    {x \in UNION {Refinements(f, C) : f \in features \ (IF Asis /\ Case.sparse = 1 THEN {P[i][1] : i \in DOMAIN P} ELSE {})} :
        /\ Cardinality(Weighted(x.cov)) >= MinCovMax
        /\ Weighted(x.rest) # {}
        /\ Considered(x, P, C, Weighted(C))}
Better(features, than) ==
    \E x \in Must(features) : \A h \in Heads(x.cov, W, outs) : FLt(h.q, than) /\ ~Close(h.q, than)

\* ------------------------------------------------------------------- behaviour
AddScores(rule, X, d) ==
    [e \in Examples |-> [o \in Outs |-> IF e \notin X THEN S[e][o] ELSE IF d = 1 THEN FAdd(S[e][o], ScoreFor(rule, o))
                                                                 ELSE FSub(S[e][o], ScoreFor(rule, o))]]
\* The scores of a rule that covers the examples X are added (d = 1) or subtracted (d = -1)
UpdateScores(rule, X, d) ==
    LET new == TLCEval(AddScores(rule, X, d))
        st == Statistics(new, rule.d = 0)
        \* The statistics of the first outputs are updated instead of the ones the rule predicts for, unless targets are sparse
        fresh(e, o) == e \in X /\ (AsisRegression /\ Dec /\ Case.ysparse = 0 => o <= Len(rule.o)) IN
    /\ S' = new
    /\ G' = TLCEval([o \in Outs |-> [e \in Examples |-> IF fresh(e, o) THEN st.g[o][e] ELSE G[o][e]]])
    /\ H' = TLCEval([o \in Outs |-> [r \in Outs |-> [e \in Examples |-> IF fresh(e, o) THEN st.h[o][r][e] ELSE H[o][r][e]]]])
\* The gradients of norms change abruptly if the norm is close to zero: subject to rounding errors
Abrupt(scores) ==
    /\ ~Dec /\ Par.loss # "logistic"
    /\ \E e \in Examples : LET r == Residual(Par.loss, Case.y[e], scores[e])
                               norm2 == FDot(r, r) IN
                           FLt(norm2, FRat(1, 100000)) /\ (FEq(norm2, Zero) => Par.loss = "squared-error")
SameScores(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i])

Zeros == [e \in Examples |-> [o \in Outs |-> Zero]]
Init == /\ c \in 1..Len(Cases)
        /\ s = 0
        /\ ph = "default"
        /\ S = Zeros
        /\ LET st == Statistics(Zeros, FALSE) IN G = st.g /\ H = st.h
        /\ C = {}
        /\ P = <<>>
        /\ outs = AllOuts
        /\ q = Zero
        /\ hd = {}
        /\ R = <<>>

Halt(what) == /\ Reject(Case.id, Len(R), what)
              /\ ph' = "done"
              /\ UNCHANGED <<c, s, S, G, H, C, P, outs, q, hd, R>>

Default ==
    /\ ph = "default"
    /\ IF Par.def = 0
       THEN /\ IF \E i \in DOMAIN Case.rules : Case.rules[i].d = 1 THEN Halt("superfluous default rule")
               ELSE ph' = "begin" /\ UNCHANGED <<c, s, S, G, H, C, P, outs, q, hd, R>>
       ELSE IF Len(Case.rules) = 0 \/ Case.rules[1].d = 0 THEN Halt("default rule is missing")
       ELSE LET rule == Case.rules[1]
                h == RuleHead(Sums(Examples, LAMBDA e : 1, ~Dec), AllOuts.o, ~Dec) IN
            IF rule.o # AllOuts.o \/ ~SameScores(rule.s, h.s) THEN Halt("default rule")
            ELSE /\ UpdateScores(rule, Examples, 1)
                 /\ ph' = IF Abrupt(S') THEN "done" ELSE "begin"
                 /\ UNCHANGED <<c, s, C, P, outs, q, hd, R>>

CoveredBy(conds) == {e \in Examples : CoversAll(conds, Case.x[e])}
SameRule(m, r) == /\ m.d = 0
                  /\ m.o = r.o
                  /\ SameScores(m.s, r.s)
                  /\ Range(m.c) = Range(r.c)
Full == Par.maxrules > 0 /\ NR >= Par.maxrules
Post == s < Len(Case.segs) /\ Seg.kind = "postopt"
\* The rule that is relearned
Nth == 1 + ((s - Par.regular) % Len(R))
\* Number of rules (without the default rule) that are left after unused rules have been removed
InModel == Len(SelectSeq(Case.rules, LAMBDA r : r.d = 0))
\* Unused rules are removed together with the scores they predict before the remaining ones are relearned
Discard ==
    /\ ph = "begin"
    /\ s = Par.regular /\ Par.cut = 1 /\ Len(R) > InModel
    /\ R' = SubSeq(R, 1, Len(R) - 1)
    /\ UpdateScores(R[Len(R)], CoveredBy(R[Len(R)].c), -1)
    /\ ph' = IF Abrupt(S') THEN "done" ELSE "begin"
    /\ UNCHANGED <<c, s, C, P, outs, q, hd>>
Begin ==
    /\ ph = "begin"
    /\ ~(s = Par.regular /\ Par.cut = 1 /\ Len(R) > InModel)
    /\ IF s < Par.regular /\ Full THEN Halt("too many rules")
       ELSE IF s = Par.regular /\ Par.cut = 0 /\ ~(Full \/ (s > 0 /\ Case.segs[s].found = 0)) THEN Halt("too few rules")
       ELSE IF s >= Par.regular /\ Len(Case.segs) # Par.regular + Par.iterations * Len(R) THEN Halt("number of relearned rules")
       ELSE IF s = Len(Case.segs)
       THEN IF Len(Case.rules) # NR THEN Halt("number of rules")
            ELSE IF \E i \in DOMAIN R : ~SameRule(Case.rules[i + NR - Len(R)], R[i]) THEN Halt("rule differs from the model")
            ELSE ph' = "done" /\ UNCHANGED <<c, s, S, G, H, C, P, outs, q, hd, R>>
       ELSE /\ C' = Examples
            /\ P' = <<>>
            /\ q' = Zero
            /\ outs' = IF Post /\ Par.refine = 0 THEN [o |-> R[Nth].o, all |-> FALSE] ELSE [o |-> Seg.outs, all |-> Par.outsamp = 0]
            /\ IF Post THEN UpdateScores(R[Nth], CoveredBy(R[Nth].c), -1) ELSE UNCHANGED <<S, G, H>>
            /\ ph' = IF Post /\ Par.refine = 0 /\ Seg.outs # R[Nth].o THEN "outputs"
                     ELSE IF Post /\ Abrupt(S') THEN "done" ELSE "grow"
            /\ UNCHANGED <<c, s, hd, R>>
Outputs == ph = "outputs" /\ Halt("outputs must not change")

Features(j) == Range(Seg.steps[j])
Grow ==
    /\ ph = "grow"
    /\ Len(P) < Len(Seg.grow)
    /\ LET j == Len(P) + 1
           g == Seg.grow[j]
           cond == g.c
           kept == Covered(cond, g.n)
           n == Cardinality(Weighted(kept))
           heads == {h \in Heads(kept, W, outs) : h.o = g.o} IN
       IF Len(Seg.steps) < j \/ cond[1] \notin Features(j) THEN Halt("feature is not available")
       ELSE IF Post /\ Par.resample = 0 /\ Features(j) # {R[Nth].c[i][1] : i \in DOMAIN R[Nth].c} THEN Halt("features of the rule")
       ELSE IF ~MayRefine(cond, C) /\ ~Bogus(cond) THEN Halt("condition")
       ELSE IF Par.maxcond > 0 /\ j > Par.maxcond THEN Halt("too many conditions")
       ELSE IF j > 1 /\ Seg.grow[j - 1].n <= MinCov THEN Halt("rule covers too few examples to be refined")
       ELSE IF n # g.n THEN Halt("number of covered examples")
       ELSE IF n < MinCov THEN Halt("minimum coverage")
       ELSE IF heads = {} THEN Halt("outputs of the head")
       ELSE IF \A h \in heads : ~Close(h.q, g.q) THEN Halt("quality")
       ELSE IF ~FLt(g.q, q) THEN Halt("no improvement")
       ELSE IF Better(Features(j), g.q) THEN Halt("better refinement")
       ELSE /\ C' = kept
            /\ P' = Append(P, cond)
            /\ q' = g.q
            /\ hd' = {h.s : h \in {h \in heads : Close(h.q, g.q)}}
            /\ outs' = IF Par.maxref > 0 /\ j >= Par.maxref
                       THEN [o |-> g.o, all |-> outs.all /\ Par.head \notin {"single", "fixed", "dynamic"}]
                       ELSE outs
            /\ UNCHANGED <<c, s, ph, S, G, H, R>>

Stop ==
    /\ ph = "grow"
    /\ Len(P) = Len(Seg.grow)
    /\ LET j == Len(P) IN
       IF /\ ~(Par.maxcond > 0 /\ j >= Par.maxcond)
          /\ ~(j > 0 /\ Seg.grow[j].n <= MinCovMax)
          /\ (Len(Seg.steps) <= j \/ Better(Features(j + 1), q))
       THEN Halt("stopped too early")
       ELSE IF j = 0
       THEN IF Seg.found = 1 THEN Halt("rule without conditions")
            ELSE IF ~Post /\ s + 1 < Par.regular THEN Halt("continued without a rule")
            ELSE /\ s' = s + 1
                 /\ ph' = "begin"
                 \* The previous rule remains in the model if no other is found
                 /\ IF Post /\ ~Asis THEN UpdateScores(R[Nth], CoveredBy(R[Nth].c), 1) ELSE UNCHANGED <<S, G, H>>
                 /\ UNCHANGED <<c, C, P, outs, q, hd, R>>
       ELSE IF Seg.found = 0 THEN Halt("rule is missing")
       ELSE ph' = "end" /\ UNCHANGED <<c, s, S, G, H, C, P, outs, q, hd, R>>

\* ------------------------------------------------------------------- pruning, recalculation, update
HasZeroWeights == \E e \in Examples : W(e) = 0
Train == Range(Case.train)
PruneSet == {e \in Train : W(e) = 0}
PruneCovered(i) == CoveredBy(SubSeq(P, 1, i)) \cap PruneSet
\* Quality of the first i conditions on the prune set
PrefixQuality(i, os) ==
    LET joint == Joint(Par.head) IN
    RuleHead(Sums(PruneCovered(i), LAMBDA e : 1, joint), os, joint).q
\* Numbers of conditions that may remain: the fewest among those with the best quality
Remaining(os) ==
    IF Par.irep = 0 \/ ~HasZeroWeights THEN {Len(P)}
    ELSE LET pq == TLCEval([i \in DOMAIN P |-> PrefixQuality(i, os)]) IN
         {i \in DOMAIN P : /\ \A k \in DOMAIN P : FLe(pq[i], pq[k]) \/ Close(pq[i], pq[k])
                           \* Exactly the same quality (others are subject to rounding errors)
                           /\ \A k \in 1..(i - 1) : PruneCovered(k) # PruneCovered(i)}

\* The scores of examples that are covered by all conditions but the last one are updated instead
AsisCovered(kept) == IF Par.irep = 1 /\ HasZeroWeights /\ Len(P) > 1 THEN CoveredBy(SubSeq(P, 1, Len(P) - 1)) ELSE kept

End ==
    /\ ph = "end"
    /\ LET rule == [d |-> 0, c |-> Seg.c, o |-> Seg.o, s |-> Seg.s]
           joint == Joint(Par.head)
           kept == IF Asis /\ Par.irep = 0 THEN C ELSE CoveredBy(Seg.c)
           expected == IF HasZeroWeights /\ Par.recalc = 1
                       THEN {Scores(Sums(kept \cap Train, LAMBDA e : 1, joint), Seg.o, joint)} ELSE hd IN
       IF Seg.c # SubSeq(P, 1, Len(Seg.c)) THEN Halt("conditions of the rule")
       ELSE IF Len(Seg.c) \notin Remaining(Seg.o) THEN Halt("pruning")
       ELSE IF Seg.o # Seg.grow[Len(Seg.grow)].o THEN Halt("outputs of the rule")
       ELSE IF \A x \in expected : ~SameScores(Seg.s, [i \in DOMAIN x |-> FMul(Par.shrink, x[i])]) THEN Halt("scores of the rule")
       \* Scores of all examples that are covered by the pruned rule must be updated
       ELSE /\ UpdateScores(rule, IF Asis THEN AsisCovered(kept) ELSE kept, 1)
            /\ s' = s + 1
            /\ R' = IF Post THEN [R EXCEPT ![Nth] = rule] ELSE Append(R, rule)
            /\ ph' = IF Abrupt(S') THEN "done" ELSE "begin"
            /\ UNCHANGED <<c, C, P, outs, q, hd>>

Next == Default \/ Discard \/ Begin \/ Outputs \/ Grow \/ Stop \/ End
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------- sanity properties of the model
\* Each condition covers fewer examples and improves the quality
Refines == [][Len(P') = Len(P) + 1 => C' \subseteq C /\ FLt(q', q)]_vars
Limits == (Par.maxrules > 0 => NR <= Par.maxrules) /\ (Par.maxcond > 0 => Len(P) <= Par.maxcond)
=============================================================================
