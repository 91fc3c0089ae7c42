--------------------------- MODULE IsotonicDesign ---------------------------
(* Pooling adjacent violators in any order: for all short sequences of        *)
(* outcome counts, every schedule of merges terminates with the same blocks,  *)
(* which satisfy the min-max characterization of isotonic regression and      *)
(* equal what Calibration!Pool computes.                                      *)
EXTENDS Calibration
CONSTANTS MaxLen, MaxN
VARIABLES input, blocks
vars == <<input, blocks>>
\* a group of n examples with s positive outcomes, thresholds are positions
Groups(k) == {[t |-> k, sum |-> s, n |-> n] : s \in 0..MaxN, n \in 1..MaxN}
Valid(g) == g.sum <= g.n
Inputs == UNION {{f \in [1..k -> UNION {Groups(i) : i \in 1..k}] :
                    \A i \in 1..k : f[i].t = i /\ Valid(f[i])} : k \in 1..MaxLen}
Init == input \in Inputs /\ blocks = input
Violates(i) == blocks[i].sum * blocks[i + 1].n >= blocks[i + 1].sum * blocks[i].n
Merge(i) == /\ Violates(i)
            /\ blocks' = SubSeq(blocks, 1, i - 1)
                         \o <<[t |-> blocks[i].t, sum |-> blocks[i].sum + blocks[i + 1].sum,
                               n |-> blocks[i].n + blocks[i + 1].n]>>
                         \o SubSeq(blocks, i + 2, Len(blocks))
            /\ UNCHANGED input
Next == \E i \in 1..(Len(blocks) - 1) : Merge(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == ~ENABLED Next
Sum(i, j) == LET RECURSIVE S(_) S(k) == IF k > j THEN 0 ELSE input[k].sum + S(k + 1) IN S(i)
Num(i, j) == LET RECURSIVE S(_) S(k) == IF k > j THEN 0 ELSE input[k].n + S(k + 1) IN S(i)
\* a/b <= c/d
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
Avg(i, j) == <<Sum(i, j), Num(i, j)>>
MinMax(k) == LET Best(i) == CHOOSE a \in {Avg(i, j) : j \in k..Len(input)} :
                                \A j \in k..Len(input) : Leq(a, Avg(i, j)) IN
             CHOOSE a \in {Best(i) : i \in 1..k} : \A i \in 1..k : Leq(Best(i), a)
BlockOf(k) == CHOOSE b \in DOMAIN blocks : blocks[b].t <= k /\ (b = Len(blocks) \/ blocks[b + 1].t > k)
Confluent == Done => blocks = Pool(input)
IsIsotonicRegression == Done => \A k \in DOMAIN input :
    LET b == blocks[BlockOf(k)]
        m == MinMax(k) IN b.sum * m[2] = m[1] * b.n
Conserves == Sum(1, Len(input)) = LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE blocks[k].sum + S(k - 1) IN S(Len(blocks))
Terminates == <>Done
=============================================================================
