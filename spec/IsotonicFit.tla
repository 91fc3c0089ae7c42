----------------------------- MODULE IsotonicFit -----------------------------
(* Fitting calibration models: the rules of the model are applied one after   *)
(* another, then each calibration map must be the isotonic regression of the  *)
(* true outcomes on the uncalibrated probabilities of the calibration set.    *)
EXTENDS Calibration, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Tol
VARIABLES c, applied, scores, l
vars == <<c, applied, scores, l>>
Case == Cases[c]
NumM == IF Case.hasm = 1 THEN Case.nout ELSE 0
NumJ == IF Case.hasj = 1 THEN Len(Case.vecs) ELSE 0

Init == /\ c \in 1..Len(Cases) /\ applied = 0 /\ l = 0
        /\ scores = [e \in 1..Len(Cases[c].x) |-> [o \in 1..Cases[c].nout |-> Zero]]

ApplyRule ==
    /\ applied < Len(Case.rules)
    /\ LET rule == Case.rules[applied + 1] IN
       scores' = [e \in DOMAIN scores |->
                    IF Covers(rule, Case.x[e])
                    THEN [o \in 1..Case.nout |-> FAdd(scores[e][o], ScoreFor(rule, o))]
                    ELSE scores[e]]
    /\ applied' = applied + 1
    /\ UNCHANGED <<c, l>>

Sorted(pairs) == SortSeq(pairs, LAMBDA a, b : FLt(a[1], b[1]))
Bit(b) == IF b THEN 1 ELSE 0
MarginalPairs(o) == Sorted([k \in DOMAIN Case.mset |->
    LET e == Case.mset[k] IN <<Sigmoid(scores[e][o]), Bit(o \in Range(Case.y[e])), scores[e][o]>>])
\* `superset`: as implemented (known finding), label vectors match examples whose first labels are the same
IsPrefix(v, y) == Len(v) <= Len(y) /\ \A i \in DOMAIN v : v[i] = y[i]
JointPairs(v, superset) == Sorted([k \in DOMAIN Case.jset |->
    LET e == Case.jset[k] IN
    <<Joint(Case.marg, <<>>, v, Range(Case.vecs[v]), scores[e]),
      Bit(IF superset THEN IsPrefix(Case.vecs[v], Case.y[e]) ELSE Range(Case.vecs[v]) = Range(Case.y[e])), scores[e]>>])

SameBins(obs, want) ==
    /\ Len(obs) = Len(want)
    /\ \A i \in DOMAIN obs : FClose(obs[i][1], want[i][1], Tol) /\ FClose(obs[i][2], want[i][2], Tol)
Same(obs, want) == SameBins(Merged(obs), Merged(want))
SameUnweighted(obs, pairs) == Same(obs, Unweighted(pairs, Gap)) \/ Same(obs, Unweighted(pairs, Zero))
WellFormed(obs) ==
    /\ \A i \in DOMAIN obs : /\ FLe(Zero, obs[i][1]) /\ FLe(obs[i][1], One)
                              /\ FLe(Zero, obs[i][2]) /\ FLe(obs[i][2], One)
    /\ \A i \in 2..Len(obs) : FLt(obs[i - 1][1], obs[i][1]) /\ FLt(obs[i - 1][2], obs[i][2])
    /\ obs # <<>>
Verdict(obs, pairs) ==
    IF ~WellFormed(obs) THEN "malformed"
    ELSE IF Ambiguous(pairs) THEN "ok"
    ELSE IF Same(obs, Isotonic(pairs)) THEN "ok"
    ELSE IF SameUnweighted(obs, pairs) THEN "unweighted"
    ELSE "bins"
JointVerdict(v) ==
    LET obs == Case.joint[v]
        strict == Verdict(obs, JointPairs(v, FALSE)) IN
    IF strict # "bins" THEN strict
    ELSE LET p == JointPairs(v, TRUE) IN
         IF Same(obs, Isotonic(p)) \/ SameUnweighted(obs, p) THEN "joint-superset" ELSE "joint-bins"

Check ==
    /\ applied = Len(Case.rules) /\ l < 1 + NumM + NumJ
    /\ LET v == IF l = 0
                THEN (IF Len(Case.marg) # NumM \/ Len(Case.joint) # NumJ THEN "number-of-maps" ELSE "ok")
                ELSE IF l <= NumM THEN Verdict(Case.marg[l], MarginalPairs(l)) ELSE JointVerdict(l - NumM) IN
       v # "ok" => Reject(Case.id, l, v)
    /\ l' = l + 1
    /\ UNCHANGED <<c, applied, scores>>
Next == ApplyRule \/ Check
Spec == Init /\ [][Next]_vars
=============================================================================
