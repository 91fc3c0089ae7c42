----------------------------- MODULE Calibration -----------------------------
(* Probabilities: marginal and joint probabilities, isotonic calibration.     *)
(* A calibration map is a sequence of pairs <<threshold, probability>>; no    *)
(* map at all is denoted by an empty sequence of maps.                        *)
EXTENDS Losses

\* Piecewise linear interpolation, the map is implicitly extended by (0, 0) and (1, 1)
Calibrate(bins, p) ==
    LET n == Len(bins)
        k == Cardinality({i \in 1..n : FLt(bins[i][1], p)})
        lo == IF k = 0 THEN <<Zero, Zero>> ELSE bins[k]
        up == IF k = n THEN <<One, One>> ELSE bins[k + 1] IN
    IF ~FLt(lo[1], up[1]) THEN up[2]
    ELSE FAdd(lo[2], FMul(FDiv(FSub(p, lo[1]), FSub(up[1], lo[1])), FSub(up[2], lo[2])))

CalibrateWith(maps, i, p) == IF maps = <<>> THEN p ELSE Calibrate(maps[i], p)

\* Marginal probability of output o being relevant
Marginal(maps, o, s) == CalibrateWith(maps, o, Sigmoid(s))

Product(q) == LET RECURSIVE P(_) P(i) == IF i = 0 THEN One ELSE FMul(q[i], P(i - 1)) IN P(Len(q))

\* Joint probability of the v-th label vector (a set of labels), according to the chain rule
Joint(mmaps, jmaps, v, vec, s) ==
    CalibrateWith(jmaps, v, Product([o \in DOMAIN s |->
        LET p == Marginal(mmaps, o, s[o]) IN IF o \in vec THEN p ELSE FSub(One, p)]))

\* ------------------------------------------------------------------- fitting
\* Groups pairs <<p, outcome>> (outcome 0 or 1), sorted by p, by probability: sequence of [t, sum, n]
Gap == FRat(1, 1000000000)
GroupByThreshold(pairs) ==
    LET RECURSIVE G(_, _)
        G(i, acc) == IF i > Len(pairs) THEN acc
                     ELSE IF acc # <<>> /\ FLe(FSub(pairs[i][1], pairs[i - 1][1]), Gap)
                     THEN G(i + 1, [acc EXCEPT ![Len(acc)] = [@ EXCEPT !.sum = @ + pairs[i][2], !.n = @ + 1]])
                     ELSE G(i + 1, Append(acc, [t |-> pairs[i][1], sum |-> pairs[i][2], n |-> 1]))
    IN G(1, <<>>)
\* Whether it depends on rounding errors which probabilities are considered equal
\* (the third component are the scores the probability results from)
Ambiguous(pairs) == \E i \in 2..Len(pairs) : /\ pairs[i][3] # pairs[i - 1][3]
                                              /\ FLe(FSub(pairs[i][1], pairs[i - 1][1]), Gap)

\* Isotonic regression by pooling adjacent violators: [t, sum, n] -> [t, sum, n] with strictly increasing sum / n
Pool(groups) ==
    LET RECURSIVE Merge(_), P(_, _)
        Merge(b) == IF Len(b) < 2 THEN b
                    ELSE LET u == b[Len(b) - 1]
                             v == b[Len(b)] IN
                         IF u.sum * v.n < v.sum * u.n THEN b
                         ELSE Merge(Append(SubSeq(b, 1, Len(b) - 2),
                                           [t |-> u.t, sum |-> u.sum + v.sum, n |-> u.n + v.n]))
        P(i, acc) == IF i > Len(groups) THEN acc ELSE P(i + 1, Merge(Append(acc, groups[i])))
    IN P(1, <<>>)
Isotonic(pairs) == LET b == Pool(GroupByThreshold(pairs)) IN [i \in DOMAIN b |-> <<b[i].t, FRat(b[i].sum, b[i].n)>>]

\* What is implemented instead (known finding): pools are averaged without taking the number of examples and of
\* previously merged pools into account. A pool is [t, p].
\* Rounding errors may prevent pools with equal means from being merged, `gap` is the tolerance used.
UnweightedPool(groups, gap) ==
    LET n == Len(groups)
        Greater(a, b) == FLt(FAdd(b, gap), a)
        ps == [i \in 1..n |-> FRat(groups[i].sum, groups[i].n)]
        \* state: i = first bin of a pool, val = probability of the first bin of each pool, end = last bin of each pool
        RECURSIVE Extend(_, _, _, _, _, _), Run(_, _, _, _)
        \* returns <<mean, last bin>> of the non-increasing subsequence
        Extend(j, cur, mean, k, val, end) ==
            LET nxt == end[j] + 1 IN
            IF nxt > n THEN <<mean, n>>
            ELSE IF Greater(val[nxt], cur) THEN <<mean, nxt - 1>>
            ELSE Extend(nxt, val[nxt], FAdd(mean, FDiv(FSub(val[nxt], mean), FInt(k + 1))), k + 1, val, end)
        Run(i, val, end, start) ==
            LET j == end[i] + 1 IN
            IF j > n THEN <<val, end>>
            ELSE IF Greater(val[j], val[i]) THEN Run(j, val, end, start)
            ELSE LET m == FAdd(val[i], FDiv(FSub(val[j], val[i]), Two))
                     x == Extend(j, val[j], m, 2, val, end)
                     val2 == [val EXCEPT ![i] = x[1]]
                     end2 == [end EXCEPT ![i] = x[2]]
                     start2 == [k \in 1..n |-> IF k \in i..x[2] THEN i ELSE start[k]] IN
                 Run(IF i > 1 THEN start2[i - 1] ELSE i, val2, end2, start2)
        r == Run(1, ps, [i \in 1..n |-> i], [i \in 1..n |-> i])
        RECURSIVE Collect(_)
        Collect(i) == IF i > n THEN <<>> ELSE <<<<groups[i].t, r[1][i]>>>> \o Collect(r[2][i] + 1)
    IN IF n = 0 THEN <<>> ELSE Collect(1)
Unweighted(pairs, gap) == UnweightedPool(GroupByThreshold(pairs), gap)
\* Merges neighbouring bins with the same probability, except for rounding errors
Merged(bins) ==
    LET RECURSIVE M(_, _)
        M(i, acc) == IF i > Len(bins) THEN acc
                     ELSE IF acc # <<>> /\ ~FLt(FAdd(acc[Len(acc)][2], Gap), bins[i][2]) THEN M(i + 1, acc)
                     ELSE M(i + 1, Append(acc, bins[i]))
    IN M(1, <<>>)
=============================================================================
