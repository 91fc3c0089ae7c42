------------------------------- MODULE Predict -------------------------------
(* Prediction as a state machine: rules are applied one after another, each   *)
(* adding its head to the scores of the examples it covers. An observation    *)
(* made by a client after requesting `step` further rules (an ordinary        *)
(* prediction requests all of them at once) must equal the current scores.    *)
EXTENDS Rules, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Tol

VARIABLES c,        \* the recorded case
          applied,  \* number of rules applied so far
          goal,     \* number of rules the client has requested so far
          h,        \* position in the history of observations
          scores,   \* current scores, per example and output
          bad       \* the verdict on the last observation

vars == <<c, applied, goal, h, scores, bad>>

Case == Cases[c]
\* Rules that may be used: the first `used` ones (all, if no number is set), restricted to the maximum number
Used(k) == IF k.used = 0 THEN Len(k.rules) ELSE Min2(k.used, Len(k.rules))
Total(k) == IF k.max = 0 THEN Used(k) ELSE Min2(k.max, Used(k))
Goal(k, from, step) == IF step = 0 THEN Total(k) ELSE Min2(Total(k), from + step)

Init == /\ c \in 1..Len(Cases)
        /\ applied = 0
        /\ h = 1
        /\ goal = Goal(Cases[c], 0, Cases[c].hist[1].step)
        /\ scores = [e \in 1..Len(Cases[c].x) |-> [o \in 1..Cases[c].nout |-> Zero]]
        /\ bad = "ok"

ApplyRule ==
    /\ h <= Len(Case.hist) /\ applied < goal
    /\ LET rule == Case.rules[applied + 1] IN
       scores' = [e \in DOMAIN scores |->
                    IF Covers(rule, Case.x[e])
                    THEN [o \in 1..Case.nout |-> FAdd(scores[e][o], ScoreFor(rule, o))]
                    ELSE scores[e]]
    /\ applied' = applied + 1
    /\ UNCHANGED <<c, goal, h, bad>>

Verdict(ob) ==
    IF ob.rem # Total(Case) - goal THEN "remaining"
    ELSE IF (ob.next = 1) # (goal < Total(Case)) THEN "has_next"
    ELSE IF Len(ob.res) # Len(Case.x) THEN "shape"
    ELSE IF \E e \in DOMAIN scores : Len(ob.res[e]) # Case.nout THEN "shape"
    ELSE IF \E e \in DOMAIN scores : \E o \in 1..Case.nout : ~FClose(ob.res[e][o], scores[e][o], Tol) THEN "scores"
    ELSE "ok"

Observe ==
    /\ h <= Len(Case.hist) /\ applied = goal
    /\ bad' = Verdict(Case.hist[h])
    /\ bad' # "ok" => Reject(Case.id, h, bad')
    /\ h' = h + 1
    /\ goal' = IF h < Len(Case.hist) THEN Goal(Case, goal, Case.hist[h + 1].step) ELSE goal
    /\ UNCHANGED <<c, applied, scores>>

Next == ApplyRule \/ Observe
Spec == Init /\ [][Next]_vars

\* Sanity of the model itself
AppliedIsPrefix == applied <= goal /\ goal <= Total(Case)
NoRuleUnapplied == [][applied' >= applied /\ applied' <= applied + 1]_vars
=============================================================================
