---------------------------- MODULE DecisionList ----------------------------
(* Prediction of separate-and-conquer models: rules are visited in order; a   *)
(* covering rule decides on those labels in its head that have not been       *)
(* decided before. If a default rule is part of the model, it is always the   *)
(* last of the considered rules.                                              *)
EXTENDS Rules, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, r, label, decided, h,
          claimed    \* labels any visited covering rule considers relevant (known finding, see Verdict)
vars == <<c, r, label, decided, h, claimed>>

Case == Cases[c]
Regular(k) == SelectSeq(k.rules, LAMBDA x : x.d = 0)
Default(k) == SelectSeq(k.rules, LAMBDA x : x.d = 1)
NumConsidered(k) == LET u == IF k.used = 0 THEN Len(k.rules) ELSE Min2(k.used, Len(k.rules))
                    IN IF k.max = 0 THEN u ELSE Min2(k.max, u)
Considered(k) == SubSeq(Regular(k), 1, Min2(Len(Regular(k)), NumConsidered(k) - Len(Default(k)))) \o Default(k)

Init == /\ c \in 1..Len(Cases)
        /\ r = 0
        /\ label = [e \in 1..Len(Cases[c].x) |-> [o \in 1..Cases[c].nout |-> 0]]
        /\ decided = [e \in 1..Len(Cases[c].x) |-> {}]
        /\ claimed = [e \in 1..Len(Cases[c].x) |-> {}]
        /\ h = 0

Visit ==
    /\ r < Len(Considered(Case))
    /\ LET rule == Considered(Case)[r + 1]
           cov(e) == Covers(rule, Case.x[e])
           new(e) == IF cov(e) THEN Range(rule.o) \ decided[e] ELSE {} IN
       /\ label' = [e \in DOMAIN label |-> [o \in 1..Case.nout |->
                        IF o \in new(e) THEN (IF FLt(Zero, ScoreFor(rule, o)) THEN 1 ELSE 0) ELSE label[e][o]]]
       /\ decided' = [e \in DOMAIN decided |-> decided[e] \cup new(e)]
       /\ claimed' = [e \in DOMAIN claimed |-> claimed[e] \cup
                        (IF cov(e) THEN {o \in Range(rule.o) : ~FEq(Zero, ScoreFor(rule, o))} ELSE {})]
    /\ r' = r + 1
    /\ UNCHANGED <<c, h>>

Verdict(ob) ==
    IF Len(ob.res) # Len(Case.x) \/ (\E e \in DOMAIN label : Len(ob.res[e]) # Case.nout) THEN "shape"
    ELSE IF \E e \in DOMAIN label : \E o \in 1..Case.nout : ob.res[e][o] # label[e][o]
         THEN \* known finding: sparse predictions ignore the order of the rules and return the union of all labels
              \* that are considered relevant by any covering rule; any other deviation is a violation
              IF ob.sparse = 1 /\ \A e \in DOMAIN label : \A o \in 1..Case.nout : (ob.res[e][o] = 1) = (o \in claimed[e])
              THEN "sparse-union"
              ELSE "labels-" \o ob.how
    ELSE "ok"

Observe ==
    /\ r = Len(Considered(Case)) /\ h < Len(Case.obs)
    /\ LET v == Verdict(Case.obs[h + 1]) IN v # "ok" => Reject(Case.id, h + 1, v)
    /\ h' = h + 1
    /\ UNCHANGED <<c, r, label, decided, claimed>>

Next == Visit \/ Observe
Spec == Init /\ [][Next]_vars

\* A decision is never revised, and undecided labels are irrelevant
Final == [][\A e \in DOMAIN label : /\ decided[e] \subseteq decided'[e]
                                     /\ \A o \in decided[e] : label'[e][o] = label[e][o]]_vars
Undecided == \A e \in DOMAIN label : \A o \in 1..Case.nout : o \notin decided[e] => label[e][o] = 0
=============================================================================
