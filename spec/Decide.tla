-------------------------------- MODULE Decide --------------------------------
(* How scores are turned into probabilities and labels. Each recorded case    *)
(* consists of the scores of several query examples, a configuration and the  *)
(* predictions returned by the real code; one step per query example.         *)
EXTENDS Calibration, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Tol
VARIABLES c, e
vars == <<c, e>>
Case == Cases[c]
S == Case.scores[e]
N == Case.nout
Labels == 1..N
NumVecs == Len(Case.vecs)
Vec(v) == Range(Case.vecs[v])

Eps == FRat(1, 1000000000)
NotLess(a, b) == FLe(FSub(b, a), FMul(Eps, FMax(One, FAbs(b))))

Expectation(vec) == [o \in Labels |-> IF o \in vec THEN One ELSE FInt(-1)]
Distance(v) == IF Case.prob = 1 THEN FSub(One, Joint(Case.marg, Case.joint, v, Vec(v), S))
               ELSE ExampleLoss(Case.loss, Case.dec = 1, Expectation(Vec(v)), S)

\* The normalized distribution over the known label vectors
RawJoint == [v \in 1..NumVecs |-> Joint(Case.marg, Case.joint, v, Vec(v), S)]
Distribution == LET raw == RawJoint
                    sum == FSum(raw) IN
                [v \in 1..NumVecs |-> IF FEq(sum, Zero) THEN Zero ELSE FDiv(raw[v], sum)]

F1(a, b) == IF a = {} /\ b = {} THEN One
            ELSE FRat(2 * Cardinality(a \cap b), Cardinality(a) + Cardinality(b))
ExpectedF1(dist, b) == SumOver(NumVecs, LAMBDA v : FMul(dist[v], F1(Vec(v), b)))

Predicted(ob) == {o \in Labels : ob[e][o] = 1}

\* In single-label problems, the probabilities of both classes are returned
Width == IF Case.kind = "proba" /\ N = 1 THEN 2 ELSE N
Positive(row, o) == IF N = 1 THEN row[2] ELSE row[o]

\* ------------------------------------------------------------------- verdicts
OutputWiseOk(pred) ==
    \A o \in Labels :
        IF Case.prob = 1
        THEN LET p == Marginal(Case.marg, o, S[o]) IN
             FClose(p, Half, Tol) \/ ((o \in pred) <=> FLt(Half, p))
        ELSE (o \in pred) <=> FLt(Case.threshold, S[o])
ExampleWiseOk(pred) ==
    IF NumVecs = 0 THEN pred = {}
    ELSE \E v \in 1..NumVecs : /\ pred = Vec(v)
                                /\ LET d == Distance(v) IN \A w \in 1..NumVecs : NotLess(Distance(w), d)
GfmOk(pred) ==
    IF NumVecs = 0 THEN pred = {}
    ELSE LET dist == Distribution
             f == ExpectedF1(dist, pred) IN
         \A b \in SUBSET Labels : NotLess(f, ExpectedF1(dist, b))
LabelsOk(pred) == CASE Case.pred = "output-wise" -> OutputWiseOk(pred)
                    [] Case.pred = "example-wise" -> ExampleWiseOk(pred)
                    [] Case.pred = "gfm" -> GfmOk(pred)

ProbabilitiesOk(ob) ==
    /\ N = 1 => FClose(ob[e][1], FSub(One, ob[e][2]), Tol)
    /\ IF Case.pred = "output-wise"
       THEN \A o \in Labels : FClose(Positive(ob[e], o), Marginal(Case.marg, o, S[o]), Tol)
       ELSE LET dist == Distribution IN
            \A o \in Labels :
            FClose(Positive(ob[e], o), SumOver(NumVecs, LAMBDA v : IF o \in Vec(v) THEN dist[v] ELSE Zero), Tol)

Binary(ob) == \A o \in Labels : ob[e][o] \in {0, 1}
\* Known finding: a probability of zero cannot be calibrated if the smallest threshold is zero as well
Undefined(o, q) == /\ Case.marg # <<>> /\ FIsNaN(q) /\ FEq(Sigmoid(S[o]), Zero)
                   /\ Len(Case.marg[o]) > 0 /\ FEq(Case.marg[o][1][1], Zero)

Verdict ==
    IF \E k \in DOMAIN Case.obs : Len(Case.obs[k]) # Len(Case.scores) \/ Len(Case.obs[k][e]) # Width THEN "shape"
    ELSE IF Case.kind = "proba"
    THEN (IF \E k \in DOMAIN Case.obs : ~ProbabilitiesOk(Case.obs[k])
          THEN (IF Case.pred = "output-wise" /\ \A k \in DOMAIN Case.obs : \A o \in Labels :
                      \/ FClose(Positive(Case.obs[k][e], o), Marginal(Case.marg, o, S[o]), Tol)
                      \/ Undefined(o, Positive(Case.obs[k][e], o))
                THEN "zero-by-zero" ELSE "probabilities-" \o Case.pred)
          ELSE "ok")
    ELSE IF \E k \in DOMAIN Case.obs : ~Binary(Case.obs[k]) THEN "labels-not-binary"
    ELSE IF \E k \in DOMAIN Case.obs : Case.obs[k][e] # Case.obs[1][e] THEN "labels-disagree-" \o Case.pred
    ELSE IF ~LabelsOk(Predicted(Case.obs[1])) THEN "labels-" \o Case.pred
    ELSE "ok"

Init == c \in 1..Len(Cases) /\ e = 1
Next == /\ e <= Len(Case.scores)
        /\ LET v == Verdict IN v # "ok" => Reject(Case.id, e, v)
        /\ e' = e + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* Sanity of the model itself: the distribution is a distribution
Normalized == e <= Len(Case.scores) /\ NumVecs > 0 /\ Case.pred # "output-wise" /\ Case.prob = 1 =>
    LET d == Distribution
        s == FSum(d) IN
    /\ \A v \in 1..NumVecs : FLe(Zero, d[v])
    /\ FClose(s, One, Tol) \/ FEq(s, Zero)
=============================================================================
