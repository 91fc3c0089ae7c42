--------------------------------- MODULE SeCo --------------------------------
(* Separate-and-conquer learning of rules. A state holds how often each label *)
(* of each example has been covered by rules that do not predict the majority *)
(* and the rule that is being grown. A rule starts with an empty body and is  *)
(* refined by the condition that maximizes a heuristic, which assesses how    *)
(* well the rule predicts the labels that have not been covered yet, taking   *)
(* sampled examples, features and outputs into account (which are recorded),  *)
(* until no condition results in an improvement or a limit is reached.        *)
(* Afterwards, its conditions may be pruned (IREP), and the labels it         *)
(* predicts are marked as covered. Rules are learned as long as there are     *)
(* labels that are predicted incorrectly by the default rule and not covered. *)
(* Finally, rules may be relearned one after the other.                       *)
EXTENDS Refinement

VARIABLES s,        \* number of segments (attempts to learn a rule) that have been processed
          ph,       \* "default", "begin", "grow", "end" or "done"
          cov,      \* how often the labels of examples have been covered, per output
          unc,      \* number of uncovered labels, as counted by the implementation
          C,        \* covered examples
          P,        \* conditions of the current rule
          outs,     \* [o |-> outputs the rule may predict for, all |-> TRUE if these have not been sampled or fixed]
          q,        \* quality of the current rule
          R         \* rules that have been learned: <<conditions, outputs, scores>>
vars == <<c, s, ph, cov, unc, C, P, outs, q, R>>

Par == Case.p
K == Case.k
Outs == 1..K
Tol == 16384
Close(a, b) == FClose(a, b, Tol)
Seg == Case.segs[s + 1]
Asis == "variant" \in DOMAIN Case /\ Case.variant = 2
Tail_(seq) == seq[Len(seq)]

W(e) == IF Seg.sampled = 1 THEN Seg.w[e] ELSE 1
Weighted(X) == {e \in X : W(e) > 0}
RECURSIVE SumOver(_, _)
SumOver(X, f) == IF X = {} THEN 0 ELSE LET e == CHOOSE e \in X : TRUE IN f[e] + SumOver(X \ {e}, f)

\* ------------------------------------------------------------------- default rule
\* A label is predicted by default if it is relevant to more than half of the examples
Relevant(e, o) == Case.y[e][o] = 1
Majority_ == TLCEval([o \in Outs |-> 2 * Cardinality({e \in Examples : Relevant(e, o)}) > Case.n])
Minority(e, o) == Relevant(e, o) # Majority_[o]
\* Labels that are predicted incorrectly by the default rule and not covered by any other rule
Remaining_(co) == {<<e, o>> \in Examples \X Outs : Minority(e, o) /\ co[o][e] = 0}

\* ------------------------------------------------------------------- heuristics
\* For each output: weights of the labels that have not been covered by other rules, if these are (not) covered by the rule
\* and it predicts them correctly (t) or not (f)
Counts(X, T, weight(_), o) ==
    LET n(Y, right) == SumOver({e \in Y : cov[o][e] = 0 /\ Minority(e, o) = right}, [e \in Y |-> weight(e)])
        ct == n(X, TRUE)
        cf == n(X, FALSE) IN
    [ct |-> ct, cf |-> cf, ut |-> n(T, TRUE) - ct, uf |-> n(T, FALSE) - cf]
Ratio(a, b) == IF b = 0 THEN Zero ELSE FDiv(FInt(a), FInt(b))
Precision(m) == Ratio(m.ct, m.ct + m.cf)
Recall(m) == Ratio(m.ct, m.ct + m.ut)
Wra(m) ==
    LET covered == m.ct + m.cf
        total == covered + m.ut + m.uf IN
    IF covered = 0 THEN Zero
    ELSE FMul(Ratio(covered, total), FSub(Ratio(m.ct, covered), Ratio(m.ct + m.ut, total)))
\* The labels of uncovered examples are predicted correctly by the default rule if they correspond to the majority
Accuracy(m) == Ratio(m.ct + m.uf, m.ct + m.cf + m.ut + m.uf)
Heuristic(h, m) ==
    CASE h.t = "accuracy" -> Accuracy(m)
      [] h.t = "precision" -> Precision(m)
      [] h.t = "recall" -> Recall(m)
      [] h.t = "laplace" -> Ratio(m.ct + 1, m.ct + m.cf + 2)
      [] h.t = "wra" -> Wra(m)
      [] h.t = "f-measure" ->
           IF h.inf = 1 THEN Recall(m)
           ELSE IF ~FLt(Zero, h.v) THEN Precision(m)
           ELSE LET b == FMul(h.v, h.v)
                    num == FMul(FAdd(One, b), FInt(m.ct))
                    den == FAdd(num, FAdd(FMul(b, FInt(m.ut)), FInt(m.cf))) IN
                IF FEq(den, Zero) THEN Zero ELSE FDiv(num, den)
      [] h.t = "m-estimate" ->
           IF h.inf = 1 THEN Wra(m)
           ELSE IF ~FLt(Zero, h.v) THEN Precision(m)
           ELSE LET total == m.ct + m.cf + m.ut + m.uf IN
                IF total = 0 THEN Zero
                ELSE FDiv(FAdd(FInt(m.ct), FMul(h.v, Ratio(m.ct + m.ut, total))), FAdd(FInt(m.ct + m.cf), h.v))

\* ------------------------------------------------------------------- lift functions
LnOf(n) == FLog(FInt(n))
Peak == IF Par.lift.peak > 0 THEN Min2(K, Par.lift.peak) ELSE Par.lift.card
Lift(n) ==
    CASE Par.lift.t = "none" -> One
      [] Par.lift.t = "kln" -> FAdd(One, FMul(Par.lift.k, LnOf(n)))
      [] OTHER -> IF n = Peak THEN Par.lift.max
                  ELSE LET x == IF n < Peak THEN FDiv(FInt(n - 1), FInt(Peak - 1))
                                \* the lift decreases from the peak to the total number of labels
                                ELSE FDiv(FInt(K - n), FInt(K - Peak)) IN
                       FAdd(One, FMul(FPow(x, FDiv(One, Par.lift.curv)), FSub(Par.lift.max, One)))

\* ------------------------------------------------------------------- heads
Ascending(X) == SortSeq(SetToSeq(X), <)
\* Qualities of a rule that covers the examples X out of T for each output
Qualities(h, X, T, weight(_)) == TLCEval([o \in Outs |-> Heuristic(h, Counts(X, T, weight, o))])
Lifted(qu, os) == FMul(FDiv(FSum([i \in DOMAIN os |-> qu[os[i]]]), FInt(Len(os))), Lift(Len(os)))
RuleHead(qu, os) == [o |-> os, q |-> IF Par.head = "single" THEN qu[os[1]] ELSE Lifted(qu, os)]

\* The heads that are optimal. Outputs that have been sampled or fixed are all predicted, unless rules should predict for a
\* single output. Partial heads consist of the outputs with the best qualities.
Heads(qu, os) ==
    LET O == Range(os.o)
        ge(a, b) == FLe(b, a) \/ Close(a, b)
        best(A) == {h \in A : \A h2 \in A : ge(h.q, h2.q)} IN
    IF Par.head = "single" THEN {RuleHead(qu, <<o>>) : o \in {o \in O : \A r \in O : ge(qu[o], qu[r])}}
    ELSE IF os.all
    THEN best({RuleHead(qu, Ascending(Y)) : Y \in {Y \in SUBSET O \ {{}} : \A o \in Y : \A r \in O \ Y : ge(qu[o], qu[r])}})
    ELSE {RuleHead(qu, os.o)}
HeadsOf(X, os) == Heads(Qualities(Par.heur, X, Examples, W), os)

\* ------------------------------------------------------------------- limits
MinCoverage ==
    IF FEq(Par.minsupport, Zero) THEN {Min2(Case.n, Par.mincov)}
    ELSE LET x == FMul(Par.minsupport, FInt(Case.n))
             b(r) == Max2(Min2(r, Case.n), Min2(Par.mincov, Case.n)) IN
         {b(FCeil(FMul(x, FSub(One, FRat(1, 1000000))))), b(FCeil(FMul(x, FAdd(One, FRat(1, 1000000)))))}
MinCov == CHOOSE m \in MinCoverage : \A m2 \in MinCoverage : m <= m2       \* at least
MinCovMax == CHOOSE m \in MinCoverage : \A m2 \in MinCoverage : m >= m2

\* If a sparse feature has no positive values, a condition that covers all examples may be created. Its threshold is in
\* the middle of the largest negative value and zero, but examples with greater values are treated as if they were covered.
Bogus(cond) ==
    LET f == cond[1]
        neg(X) == {e \in X : FLt(Val(e, f), Zero)}
        prev == IF neg(Weighted(C)) = {} THEN Zero
                ELSE Val(CHOOSE e \in neg(C) : \A e2 \in neg(C) : FLe(Val(e2, f), Val(e, f)), f) IN
    /\ Asis /\ Case.sparse = 1 /\ Case.types[f] = "n" /\ cond[2] = "<="
    /\ ~\E e \in Weighted(C) : FLt(Zero, Val(e, f))
    /\ FEq(cond[3], Mean(Zero, prev))
Covered(cond, n) ==
    LET kept == Kept(cond, C) IN
    IF Bogus(cond) /\ (Cardinality(Weighted(kept)) # n \/ Weighted(kept) = Weighted(Present(cond[1], C))) THEN Present(cond[1], C) ELSE kept

\* Refinements that must be taken into account, given the features that have been sampled
Must(features) ==
    {x \in UNION {Refinements(f, C) : f \in features \ (IF Asis /\ Case.sparse = 1 THEN {P[i][1] : i \in DOMAIN P} ELSE {})} :
        /\ Cardinality(Weighted(x.cov)) >= MinCovMax
        /\ Weighted(x.rest) # {}
        /\ Considered(x, P, C, Weighted(C))}
Better(features, than) ==
    \E x \in Must(features) : \A h \in HeadsOf(x.cov, outs) : FLt(than, h.q) /\ ~Close(h.q, than)

\* ------------------------------------------------------------------- behaviour
CoveredBy(conds) == {e \in Examples : CoversAll(conds, Case.x[e])}
\* The rule becomes (d = 1) or stops being (d = -1) one of the rules that cover the examples X
Cover(X, os, d) ==
    LET touched(o, e) == e \in X /\ o \in Range(os)
        new == TLCEval([o \in Outs |-> [e \in Examples |-> IF touched(o, e) THEN cov[o][e] + d ELSE cov[o][e]]]) IN
    /\ cov' = new
    /\ unc' = unc - d * Cardinality({<<e, o>> \in Examples \X Outs : touched(o, e) /\ (IF d = 1 THEN cov ELSE new)[o][e] = 0})

Init == /\ c \in 1..Len(Cases)
        /\ s = 0
        /\ ph = "default"
        /\ cov = [o \in Outs |-> [e \in Examples |-> 0]]
        /\ unc = Cardinality({<<e, o>> \in Examples \X Outs : Minority(e, o)})
        /\ C = {}
        /\ P = <<>>
        /\ outs = [o |-> [i \in Outs |-> i], all |-> TRUE]
        /\ q = Zero
        /\ R = <<>>

NR == Len(R) + IF Par.def = 1 THEN 1 ELSE 0
Halt(what) == /\ Reject(Case.id, Len(R), what)
              /\ ph' = "done"
              /\ UNCHANGED <<c, s, cov, unc, C, P, outs, q, R>>

\* The default rule is evaluated last: it predicts the majority of each label
DefaultRules == {i \in DOMAIN Case.rules : Case.rules[i].d = 1}
Default ==
    /\ ph = "default"
    /\ IF Par.def = 0
       THEN IF DefaultRules # {} THEN Halt("superfluous default rule")
            ELSE ph' = "begin" /\ UNCHANGED <<c, s, cov, unc, C, P, outs, q, R>>
       ELSE IF DefaultRules # {Len(Case.rules)} THEN Halt("default rule is missing")
       ELSE LET rule == Tail_(Case.rules) IN
            IF rule.o # [o \in Outs |-> o] \/ rule.s # [o \in Outs |-> IF Majority_[o] THEN One ELSE Zero]
            THEN Halt("default rule")
            ELSE ph' = "begin" /\ UNCHANGED <<c, s, cov, unc, C, P, outs, q, R>>

Same(a, b) == a.o = b[2] /\ a.s = b[3] /\ Range(a.c) = Range(b[1]) /\ Len(a.c) = Len(b[1])
Full == Par.maxrules > 0 /\ NR >= Par.maxrules
Complete == IF Asis THEN unc <= 0 ELSE Remaining_(cov) = {}
Post == s < Len(Case.segs) /\ Seg.kind = "postopt"
\* The rule that is relearned
Nth == 1 + ((s - Par.regular) % Len(R))
Begin ==
    /\ ph = "begin"
    /\ IF s < Par.regular /\ (Full \/ Complete) THEN Halt("too many rules")
       ELSE IF s = Par.regular /\ ~(Full \/ Complete \/ (s > 0 /\ Case.segs[s].found = 0)) THEN Halt("too few rules")
       ELSE IF s >= Par.regular /\ Len(Case.segs) # Par.regular + Par.iterations * Len(R) THEN Halt("number of relearned rules")
       ELSE IF s = Len(Case.segs)
       THEN IF Len(Case.rules) # NR THEN Halt("number of rules")
            ELSE IF \E i \in DOMAIN R : ~Same(Case.rules[i], R[i]) THEN Halt("rule differs from the model")
            ELSE ph' = "done" /\ UNCHANGED <<c, s, cov, unc, C, P, outs, q, R>>
       ELSE /\ C' = Examples
            /\ P' = <<>>
            /\ q' = Zero
            /\ outs' = IF Post /\ Par.refine = 0 THEN [o |-> R[Nth][2], all |-> FALSE]
                       ELSE [o |-> Seg.outs, all |-> Par.outsamp = 0]
            /\ IF Post THEN Cover(CoveredBy(R[Nth][1]), R[Nth][2], -1) ELSE UNCHANGED <<cov, unc>>
            /\ IF Post /\ Par.refine = 0 /\ Seg.outs # R[Nth][2] THEN Reject(Case.id, Len(R), "outputs") /\ ph' = "done"
               ELSE ph' = "grow"
            /\ UNCHANGED <<c, s, R>>

Features(j) == Range(Seg.steps[j])
Grow ==
    /\ ph = "grow"
    /\ Len(P) < Len(Seg.grow)
    /\ LET j == Len(P) + 1
           g == Seg.grow[j]
           cond == g.c
           kept == Covered(cond, g.n)
           n == Cardinality(Weighted(kept))
           heads == {h \in HeadsOf(kept, outs) : h.o = g.o} IN
       IF Len(Seg.steps) < j \/ cond[1] \notin Features(j) THEN Halt("feature is not available")
       ELSE IF Post /\ Par.resample = 0 /\ Features(j) # {R[Nth][1][i][1] : i \in DOMAIN R[Nth][1]} THEN Halt("features of the rule")
       ELSE IF ~MayRefine(cond, C) /\ ~Bogus(cond) THEN Halt("condition")
       ELSE IF Par.maxcond > 0 /\ j > Par.maxcond THEN Halt("too many conditions")
       ELSE IF j > 1 /\ Seg.grow[j - 1].n <= MinCov THEN Halt("rule covers too few examples to be refined")
       ELSE IF n # g.n THEN Halt("number of covered examples")
       ELSE IF n < MinCov THEN Halt("minimum coverage")
       ELSE IF heads = {} THEN Halt("outputs of the head")
       ELSE IF \A h \in heads : ~Close(h.q, g.q) THEN Halt("quality")
       ELSE IF ~FLt(q, g.q) THEN Halt("no improvement")
       ELSE IF Better(Features(j), g.q) THEN Halt("better refinement")
       ELSE /\ C' = kept
            /\ P' = Append(P, cond)
            /\ q' = g.q
            /\ outs' = IF Par.maxref > 0 /\ j >= Par.maxref THEN [o |-> g.o, all |-> FALSE] ELSE outs
            /\ UNCHANGED <<c, s, ph, cov, unc, R>>

Stop ==
    /\ ph = "grow"
    /\ Len(P) = Len(Seg.grow)
    /\ LET j == Len(P) IN
       IF /\ ~(Par.maxcond > 0 /\ j >= Par.maxcond)
          /\ ~(j > 0 /\ Seg.grow[j].n <= MinCovMax)
          /\ (Len(Seg.steps) <= j \/ Better(Features(j + 1), q))
       THEN Halt("stopped too early")
       ELSE IF j = 0
       THEN IF Seg.found = 1 THEN Halt("rule without conditions")
            ELSE IF ~Post /\ s + 1 < Par.regular THEN Halt("continued without a rule")
            ELSE /\ s' = s + 1
                 /\ ph' = "begin"
                 \* The previous rule remains in the model if no other is found
                 /\ IF Post /\ ~Asis THEN Cover(CoveredBy(R[Nth][1]), R[Nth][2], 1) ELSE UNCHANGED <<cov, unc>>
                 /\ UNCHANGED <<c, C, P, outs, q, R>>
       ELSE IF Seg.found = 0 THEN Halt("rule is missing")
       ELSE ph' = "end" /\ UNCHANGED <<c, s, cov, unc, C, P, outs, q, R>>

\* ------------------------------------------------------------------- pruning, update
HasZeroWeights == \E e \in Examples : W(e) = 0
Train == Range(Case.train)
PruneSet == {e \in Train : W(e) = 0}
\* Quality of the first i conditions on the examples of the prune set. Examples in the holdout set are counted among those
\* that are not covered.
PrefixQuality(i, os) ==
    LET total == IF Asis THEN {e \in Examples : W(e) = 0} ELSE PruneSet IN
    RuleHead(Qualities(Par.pheur, CoveredBy(SubSeq(P, 1, i)) \cap PruneSet, total, LAMBDA e : 1), os).q
\* Numbers of conditions that may remain: the fewest among those with the best quality
Prunable(os) ==
    IF Par.irep = 0 \/ ~HasZeroWeights THEN {Len(P)}
    ELSE LET pq == TLCEval([i \in DOMAIN P |-> PrefixQuality(i, os)]) IN
         {i \in DOMAIN P : /\ \A k \in DOMAIN P : FLe(pq[k], pq[i]) \/ Close(pq[i], pq[k])
                           /\ \A k \in 1..(i - 1) : ~FEq(pq[k], pq[i]) /\ ~FLt(pq[i], pq[k])}
\* All conditions but the last one are taken into account if the rule was subject to pruning
AsisCovered(kept) == IF Par.irep = 1 /\ HasZeroWeights /\ Len(P) > 1 THEN CoveredBy(SubSeq(P, 1, Len(P) - 1)) ELSE kept

End ==
    /\ ph = "end"
    /\ LET kept == IF Asis /\ Par.irep = 0 THEN C ELSE CoveredBy(Seg.c)
           rule == <<Seg.c, Seg.o, Seg.s>> IN
       IF Seg.c # SubSeq(P, 1, Len(Seg.c)) THEN Halt("conditions of the rule")
       ELSE IF Len(Seg.c) \notin Prunable(Seg.o) THEN Halt("pruning")
       ELSE IF Seg.o # Tail_(Seg.grow).o THEN Halt("outputs of the rule")
       ELSE IF Seg.s # [i \in DOMAIN Seg.o |-> IF Majority_[Seg.o[i]] THEN Zero ELSE One] THEN Halt("scores of the rule")
       ELSE /\ Cover(IF Asis THEN AsisCovered(kept) ELSE kept, Seg.o, 1)
            /\ s' = s + 1
            /\ R' = IF Post THEN [R EXCEPT ![Nth] = rule] ELSE Append(R, rule)
            /\ ph' = "begin"
            /\ UNCHANGED <<c, C, P, outs, q>>

Next == Default \/ Begin \/ Grow \/ Stop \/ End
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------- sanity properties of the model
Refines == [][Len(P') = Len(P) + 1 => C' \subseteq C /\ FLt(q, q')]_vars
Limits == (Par.maxrules > 0 => NR <= Par.maxrules) /\ (Par.maxcond > 0 => Len(P) <= Par.maxcond)
\* Each additional rule never increases the number of labels that remain
Progress == [][Len(R') = Len(R) + 1 => Remaining_(cov') \subseteq Remaining_(cov)]_vars
\* The number of uncovered labels is as counted
Coverage == ph # "done" /\ ~Asis => \A o \in Outs : \A e \in Examples : cov[o][e] >= 0
=============================================================================
