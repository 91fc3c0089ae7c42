------------------------------ MODULE Sampling -------------------------------
(* A training process draws a partition into training and holdout examples,   *)
(* then, for each rule, weights of examples and outputs, and, for each        *)
(* refinement of a rule, features. One step per draw. Draws are random, the   *)
(* specification decides whether a draw is one of those that are permitted.   *)
(* Case: n examples, labels[e]: relevant labels, nf features, no outputs;     *)
(* hold/inst/out/feat: parameters; ev: recorded draws.                        *)
EXTENDS Rules, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, h,
          train,   \* training examples
          rr,      \* next output of the round-robin method
          fs       \* features that have been drawn for the current rule (without repetitions)
vars == <<c, h, train, rr, fs>>
Case == Cases[c]
Ev == Case.ev[h + 1]

Distinct(s) == Cardinality(Range(s)) = Len(s)
SetSum(S, F(_)) == LET RECURSIVE Acc(_)
                       Acc(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F(x) + Acc(T \ {x})
                   IN Acc(S)

\* ---- numbers of samples ----
Slack == FRat(1, 4194304)
\* ceil(size * n), up to the accuracy of single-precision numbers
Ceils(size, n) == LET p == FMul(size, FInt(n)) IN
                  FCeil(FMul(p, FSub(One, Slack)))..FCeil(FMul(p, FAdd(One, Slack)))
Floors(size, n) == LET p == FMul(size, FInt(n)) IN
                   FFloor(FMul(p, FSub(One, Slack)))..FFloor(FMul(p, FAdd(One, Slack)))
Bound(x, n, min, max) == IF x < Min2(min, n) THEN Min2(min, n)
                         ELSE IF max >= min /\ x > max THEN max ELSE x
NumSamples(par, n) == {Bound(x, n, par.min, par.max) : x \in Ceils(par.size, n)}

\* ---- stratification ----
\* The classes of examples are drawn from one after the other. A frontier is a set of possible sets of examples that
\* remain to be processed; the classes that may be processed next follow from the remaining examples alone.
VectorClasses(E) == {{e2 \in E : Range(Case.labels[e2]) = Range(Case.labels[e])} : e \in E}
Smallest(C) == {k \in C : \A k2 \in C : Cardinality(k) <= Cardinality(k2)}
\* Iterative stratification: the examples with the label with the fewest remaining examples, then those without labels
LabelClasses(E) ==
    LET K == {{e \in E : l \in Range(Case.labels[e])} : l \in 1..Case.no} \ {{}} IN
    IF K = {} THEN {E} ELSE Smallest(K)
\* It does not matter which one of several classes that do not affect others is processed first, if the same number of
\* examples has been drawn from them
Merge(C, drawn) == {CHOOSE S \in C : Cardinality(S \cap drawn) = k : k \in {Cardinality(S \cap drawn) : S \in C}}
Independent(C) == {S \in C : \A e \in S : Cardinality(Range(Case.labels[e])) = 1}
Next2(kind, E, drawn) ==
    IF kind = "vectors" THEN Merge(Smallest(VectorClasses(E)), drawn)
    ELSE LET C == LabelClasses(E)
             I == Independent(C) IN (C \ I) \cup Merge(I, drawn)

\* `drawn`: examples that are in the first set. Each class contributes the given share, rounded up or down.
ShareOk(size, S, drawn) ==
    LET k == Cardinality(S)
        v == FSingle(FMul(size, FInt(k))) IN
    Cardinality(S \cap drawn) \in {FFloor(v), FCeil(v)}
\* Each class is divided in the ratio of what remains to be drawn, within the limits of what remains to be drawn
RatioOk(E, S, first) ==
    LET k == Cardinality(S)
        f == Cardinality(E \cap first)
        s == Cardinality(E \ first)
        v == FSingle(FMul(FSingle(FDiv(FInt(f), FInt(f + s))), FInt(k)))
        x == Cardinality(S \cap first) IN
    \E r \in {(k * f) \div (f + s), -((-(k * f)) \div (f + s)), FFloor(v), FCeil(v)} :
        x = (IF r > f THEN f ELSE IF k - r > s THEN k - s ELSE r)

Stratified(kind, start, drawn, Ok(_, _)) ==
    LET RECURSIVE Possible(_)
        Possible(frontier) ==
            IF {} \in frontier THEN TRUE
            ELSE IF frontier = {} THEN FALSE
            ELSE Possible(UNION {{E \ S : S \in {S \in Next2(kind, E, drawn) : Ok(E, S)}} : E \in frontier})
    IN Possible(start)

\* ---- verdicts ----
PartitionVerdict ==
    LET T == Range(Ev.train)
        H == Range(Ev.hold)
        first(E, S) == RatioOk(E, S, T) IN
    IF T \cap H # {} \/ T \cup H # 1..Case.n \/ ~Distinct(Ev.train) \/ ~Distinct(Ev.hold) THEN "partition"
    ELSE IF Case.hold.kind = "none" THEN "unexpected partition"
    ELSE IF Len(Ev.hold) \notin Floors(Case.hold.size, Case.n) THEN "holdout size"
    ELSE IF Case.hold.kind = "stratified-example-wise" /\ ~Stratified("vectors", {1..Case.n}, T, first)
         THEN "holdout stratification"
    ELSE IF Case.hold.kind = "stratified-output-wise" /\ ~Stratified("labels", {1..Case.n}, T, first)
         THEN "holdout stratification"
    ELSE "ok"

WeightsVerdict ==
    LET w == Ev.w
        D == {e \in DOMAIN w : w[e] # 0}
        sum == SetSum(DOMAIN w, LAMBDA e : w[e])
        inst == Case.inst
        share(E, S) == ShareOk(inst.size, S, D)
        n == Cardinality(train) IN
    IF Len(w) # Case.n THEN "weights"
    ELSE IF Ev.nz # Cardinality(D) THEN "number of non-zero weights"
    ELSE IF ~(D \subseteq train) THEN "examples of the holdout set are sampled"
    ELSE IF inst.kind # "with-replacement" /\ \E e \in D : w[e] # 1 THEN "weights"
    ELSE IF inst.kind = "none" THEN IF D = train THEN "ok" ELSE "weights"
    ELSE IF inst.kind = "stratified-example-wise"
         THEN IF ~Stratified("vectors", {train}, D, share) THEN "stratification"
              ELSE IF sum < Min2(inst.min, n) \/ (inst.max > 0 /\ sum > inst.max) THEN "stratified-bounds"
              ELSE "ok"
    ELSE IF inst.kind = "stratified-output-wise"
         THEN IF ~Stratified("labels", {train}, D, share) THEN "stratification"
              ELSE IF sum < Min2(inst.min, n) \/ (inst.max > 0 /\ sum > inst.max) THEN "stratified-bounds"
              ELSE "ok"
    ELSE IF sum \notin NumSamples(inst, n) THEN "sample size" ELSE "ok"

OutputsVerdict ==
    LET o == Ev.idx
        out == Case.out IN
    IF ~(Range(o) \subseteq 1..Case.no) \/ ~Distinct(o) THEN "outputs"
    ELSE IF out.kind = "none" THEN IF Len(o) = Case.no THEN "ok" ELSE "outputs"
    ELSE IF out.kind = "round-robin" THEN IF o = <<rr>> THEN "ok" ELSE "round-robin"
    ELSE IF Len(o) \in NumSamples(out, Case.no) THEN "ok" ELSE "number of outputs"

\* A beam search that does not resample features uses the same ones for refining all rules with the same number of
\* conditions (at most three)
FeaturesVerdict ==
    LET f == Ev.idx
        feat == Case.feat
        ret == Min2(feat.ret, Case.nf)
        kept == (Case.nf - ret + 1)..Case.nf
        rem == Case.nf - ret
        num == IF FLt(Zero, feat.size) THEN NumSamples(feat, rem)
               ELSE IF rem > 1 THEN {CHOOSE k \in 1..32 : 2^(k - 1) <= rem - 1 /\ rem - 1 < 2^k} ELSE {rem} IN
    IF ~(Range(f) \subseteq 1..Case.nf) \/ ~Distinct(f) THEN "features"
    ELSE IF feat.kind = "none" THEN IF Len(f) = Case.nf THEN "ok" ELSE "features"
    ELSE IF ~(kept \subseteq Range(f)) THEN "retained features"
    ELSE IF Len(f) - ret \notin num THEN "number of features"
    ELSE IF Case.once = 1 /\ Len(fs) >= 3 /\ Range(f) # fs[Len(fs)] THEN "features of a beam"
    ELSE "ok"

Init == /\ c \in 1..Len(Cases) /\ h = 0 /\ train = 1..Cases[c].n /\ rr = 1 /\ fs = <<>>

Report(v) == v # "ok" => Reject(Case.id, h, v)
DrawPartition == /\ Ev.e = "part" /\ Report(PartitionVerdict)
                 /\ train' = Range(Ev.train) /\ UNCHANGED <<rr, fs>>
DrawWeights == /\ Ev.e = "w" /\ Report(WeightsVerdict)
               /\ fs' = <<>> /\ UNCHANGED <<train, rr>>
DrawOutputs == /\ Ev.e = "o" /\ Report(OutputsVerdict)
               /\ rr' = (rr % Case.no) + 1 /\ UNCHANGED <<train, fs>>
DrawFeatures == /\ Ev.e = "f" /\ Report(FeaturesVerdict)
                /\ fs' = (IF fs # <<>> /\ fs[Len(fs)] = Range(Ev.idx) THEN fs ELSE Append(fs, Range(Ev.idx))) /\ UNCHANGED <<train, rr>>
Next == /\ h < Len(Case.ev)
        /\ h' = h + 1 /\ UNCHANGED c
        /\ DrawPartition \/ DrawWeights \/ DrawOutputs \/ DrawFeatures
Spec == Init /\ [][Next]_vars
\* A holdout set, once drawn, remains the same while a model is trained
OnePartition == [][train' # train => h = 0]_vars
=============================================================================
