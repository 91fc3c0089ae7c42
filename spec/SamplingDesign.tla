--------------------------- MODULE SamplingDesign ----------------------------
(* The algorithms that draw indices without replacement, for every possible   *)
(* outcome of the random number generator. One step per random number. The    *)
(* state holds the array of drawn indices and the pool of remaining ones.     *)
(*   tracking:    draw an index, repeat if it has been drawn before           *)
(*   reservoir:   start with the first K, replace them at random              *)
(*   permutation: swap position i with a random later one                     *)
(*   pool:        take a random element, move the last one to its position    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MaxN
Algorithms == {"tracking", "reservoir", "permutation", "pool"}

VARIABLES alg, n, k, i, drawn, pool
vars == <<alg, n, k, i, drawn, pool>>

Range(s) == {s[j] : j \in DOMAIN s}
All(m) == [j \in 1..m |-> j]

Init == /\ alg \in Algorithms /\ n \in 0..MaxN /\ k \in 0..MaxN /\ k <= n
        /\ i = (IF alg = "reservoir" THEN k ELSE 0)
        /\ drawn = (IF alg = "reservoir" THEN All(k) ELSE <<>>)
        /\ pool = All(n)

Done == IF alg = "reservoir" THEN i = n ELSE i = k

Track(r) == IF r \in Range(drawn) THEN UNCHANGED <<drawn, i>> ELSE drawn' = Append(drawn, r) /\ i' = i + 1
Reservoir(r) == /\ r <= i + 1
                /\ drawn' = IF r <= k THEN [drawn EXCEPT ![r] = i + 1] ELSE drawn
                /\ i' = i + 1
Permute(r) == /\ r > i
              /\ pool' = [pool EXCEPT ![i + 1] = pool[r], ![r] = pool[i + 1]]
              /\ drawn' = Append(drawn, pool[r])
              /\ i' = i + 1
Pool(r) == /\ r <= n - i
           /\ drawn' = Append(drawn, pool[r])
           /\ pool' = [pool EXCEPT ![r] = pool[n - i]]
           /\ i' = i + 1

Draw == /\ ~Done
        /\ \E r \in 1..n : CASE alg = "tracking" -> Track(r) /\ UNCHANGED pool
                             [] alg = "reservoir" -> Reservoir(r) /\ UNCHANGED pool
                             [] alg = "permutation" -> Permute(r)
                             [] alg = "pool" -> Pool(r)
        /\ UNCHANGED <<alg, n, k>>
Next == Draw
Spec == Init /\ [][Next]_vars

Valid == Range(drawn) \subseteq 1..n
Distinct == Cardinality(Range(drawn)) = Len(drawn)
Requested == Done => Len(drawn) = k
\* The pool never loses an index that has not been drawn yet
Remaining == alg = "pool" => Range(SubSeq(pool, 1, n - i)) = (1..n) \ Range(drawn)
\* Every index can still be drawn (as long as another one is to be drawn)
Fair == ~Done => \A e \in (1..n) \ Range(drawn) :
            CASE alg = "tracking" -> TRUE
              [] alg = "reservoir" -> TRUE
              [] alg = "permutation" -> \E r \in (i + 1)..n : pool[r] = e
              [] alg = "pool" -> \E r \in 1..(n - i) : pool[r] = e
=============================================================================
