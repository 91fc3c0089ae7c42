-------------------------- MODULE StratifiedDesign ---------------------------
(* Splitting classes of examples into a first and a second set of given sizes:*)
(* classes are processed in increasing order of their sizes, each one is      *)
(* divided in the ratio of what remains to be drawn, rounded up if the first  *)
(* set lacks more examples than the second one, down if it lacks fewer, and   *)
(* either way otherwise, but never beyond the number of examples that a set   *)
(* lacks. For every multiset of class sizes and every split.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxN,      \* maximum number of examples
          Generate   \* print scenarios
VARIABLES sizes, first, j, f, s, counts
vars == <<sizes, first, j, f, s, counts>>

RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
\* Non-decreasing sequences of positive integers with a sum of m, elements at least l
RECURSIVE Partitions(_, _)
Partitions(m, l) == IF m = 0 THEN {<<>>}
                    ELSE UNION {{<<a>> \o p : p \in Partitions(m - a, a)} : a \in l..m}

Init == /\ \E m \in 2..MaxN : sizes \in Partitions(m, 1)
        /\ first \in 1..(Total(sizes) - 1)
        /\ j = 0 /\ f = first /\ s = Total(sizes) - first /\ counts = <<>>
        /\ Generate => PrintT(<<"GEN", sizes, first>>)

Floor(size) == (size * f) \div (f + s)
Ceil(size) == -((-(size * f)) \div (f + s))
Rounded(size) == IF f > s THEN {Ceil(size)} ELSE IF f < s THEN {Floor(size)} ELSE {Ceil(size), Floor(size)}
Clamp(size, c) == IF c > f THEN f ELSE IF size - c > s THEN size - s ELSE c

Divide == /\ ~Generate
          /\ j < Len(sizes)
          /\ \E c \in Rounded(sizes[j + 1]) :
                LET d == Clamp(sizes[j + 1], c) IN
                /\ f' = f - d /\ s' = s - (sizes[j + 1] - d)
                /\ counts' = Append(counts, d)
          /\ j' = j + 1
          /\ UNCHANGED <<sizes, first>>
Next == Divide
Spec == Init /\ [][Next]_vars

Sane == f >= 0 /\ s >= 0 /\ \A x \in DOMAIN counts : counts[x] \in 0..sizes[x]
Exact == j = Len(sizes) => f = 0 /\ s = 0
\* Nothing is lost: what has been drawn and what remains to be drawn adds up
Balance == f + Total(counts) = first
\* In each step, the class is divided in the remaining ratio, as far as rounding permits
Proportional == [][\A d \in {counts'[j']} : d * (f + s) > sizes[j'] * f - (f + s) /\ d * (f + s) < sizes[j'] * f + (f + s)]_vars
=============================================================================
