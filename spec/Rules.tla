-------------------------------- MODULE Rules --------------------------------
(* Rules, conditions and coverage, as used by all other modules.              *)
(* A rule is a record [d: is default rule, c: conditions, o: outputs,         *)
(* s: scores]; a condition is <<feature, operator, threshold>>; an example is *)
(* a sequence of feature values (IEEE numbers, NaN = missing).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IEEE754

Range(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* A missing value satisfies no condition.
Satisfies(v, op, t) ==
    /\ ~FIsNaN(v)
    /\ CASE op \in {"<=", "o<="} -> FLe(v, t)
         [] op \in {">", "o>"} -> FLt(t, v)
         [] op = "==" -> FEq(v, t)
         [] op = "!=" -> ~FEq(v, t)

CoversAll(conds, x) == \A k \in DOMAIN conds : Satisfies(x[conds[k][1]], conds[k][2], conds[k][3])
Covers(rule, x) == rule.d = 1 \/ CoversAll(rule.c, x)

Zero == FInt(0)
One == FInt(1)

\* The score a rule assigns to an output (0 if it does not predict for it)
ScoreFor(rule, o) ==
    LET k == {j \in DOMAIN rule.o : rule.o[j] = o} IN
    IF k = {} THEN Zero ELSE rule.s[CHOOSE j \in k : TRUE]

Reject(id, step, what) == PrintT(<<"REJECT", id, step, what>>)
=============================================================================
