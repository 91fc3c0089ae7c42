---------------------------- MODULE Representation ----------------------------
(* The same training data is given to a learner in different representations. *)
(* A reference (c's first training) and another training are executed in      *)
(* lockstep, one refinement or rule per step. If both are represented the     *)
(* same way internally, they must be equal (`exact`). Otherwise, they must be *)
(* equal up to rounding errors, until refinements of the same quality are     *)
(* found ("tied"), any of which may be chosen.                                *)
EXTENDS Rules, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, r, s, phase
vars == <<c, r, s, phase>>
Case == Cases[c]
Ref == Case.runs[1]
Run == Case.runs[r]
Tol == 16384
Close(a, b) == FClose(a, b, Tol)
CloseSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i])
CloseRows(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CloseSeq(a[i], b[i])
SameCond(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ Close(a[3], b[3])
SameConds(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameCond(a[i], b[i])

\* Whether two items of trainings are equal up to rounding errors
Alike(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "sample" -> a.w = b.w /\ a.o = b.o
         [] a.k = "grow" -> SameCond(a.c, b.c) /\ a.n = b.n /\ a.o = b.o /\ Close(a.q, b.q)
         [] a.k = "rule" -> SameConds(a.c, b.c) /\ a.o = b.o /\ CloseSeq(a.s, b.s) /\ a.found = b.found
\* The quality of the rule to which an item is added
Before(items, i) == IF i > 1 /\ items[i - 1].k = "grow" THEN items[i - 1].q ELSE FInt(0)
\* Whether both items are equally good choices. One of them may be that the rule is not refined any further.
Tie(a, b) ==
    \/ a.k = "grow" /\ b.k = "grow" /\ Close(a.q, b.q)
    \/ a.k = "grow" /\ b.k = "rule" /\ Close(a.q, Before(Run.items, s + 1))
    \/ a.k = "rule" /\ b.k = "grow" /\ Close(b.q, Before(Ref.items, s + 1))
       
Init == c \in 1..Len(Cases) /\ r = 2 /\ s = 0 /\ phase = "same"
Length == Max2(Len(Ref.items), Len(Run.items))
Item(items, i) == IF i <= Len(items) THEN items[i] ELSE [k |-> "end"]
Verdict ==
    LET a == Item(Ref.items, s + 1)
        b == Item(Run.items, s + 1) IN
    IF a.k = "end" \/ b.k = "end" THEN "number of rules"
    ELSE IF Run.exact = 1 THEN (IF a = b THEN "ok" ELSE "not equal: " \o a.k)
    ELSE IF Alike(a, b) THEN "ok"
    ELSE IF Tie(a, b) THEN "tie"
    ELSE "different " \o a.k
Outcome ==
    IF Ref.fail # Run.fail THEN "error"
    ELSE IF Run.exact = 1 THEN (IF Ref.preds = Run.preds THEN "ok" ELSE "predictions")
    ELSE IF Run.used # Ref.used THEN "number of used rules"
    ELSE IF CloseRows(Ref.scores, Run.scores) THEN "ok" ELSE "scores"
Train == /\ r <= Len(Case.runs) /\ phase = "same" /\ s < Length
         /\ s' = s + 1
         /\ phase' = IF Verdict = "ok" THEN "same" ELSE "tied"
         /\ Verdict \notin {"ok", "tie"} => Reject(Case.id, s, Verdict \o ", " \o Run.what)
         /\ UNCHANGED <<c, r>>
\* Predictions of both models
Predict == /\ r <= Len(Case.runs) /\ (phase = "tied" \/ s = Length)
           /\ phase = "same" /\ Outcome # "ok" => Reject(Case.id, s, Outcome \o ", " \o Run.what)
           /\ r' = r + 1 /\ s' = 0 /\ phase' = "same" /\ UNCHANGED c
\* A model's predictions do not depend on how queries are represented
Queries == /\ r = Len(Case.runs) + 1 /\ s < Len(Case.queries)
           /\ LET q == Case.queries[s + 1] IN
              q.res # Case.queries[q.ref].res => Reject(Case.id, s, "queries, " \o q.what)
           /\ s' = s + 1 /\ UNCHANGED <<c, r, phase>>
Next == Train \/ Predict \/ Queries
Spec == Init /\ [][Next]_vars
===============================================================================
