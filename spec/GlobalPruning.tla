----------------------------- MODULE GlobalPruning ----------------------------
(* How many rules of a boosted model are used. A state holds the scores that  *)
(* are predicted by the rules that have been learned so far and the history   *)
(* of evaluations. Whenever a model size must be examined, the loss on the    *)
(* holdout or training set is calculated. Post-pruning uses the size with the *)
(* least loss, pre-pruning stops as soon as the losses of the most recent     *)
(* sizes do not improve upon those of the sizes examined before.              *)
EXTENDS Losses, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, t,       \* case, number of rules that have been learned
          S,          \* predicted scores, per example
          id,         \* identifies the scores predicted for the evaluated examples, if they are the same, losses are, too
          now,        \* loss of the current rules
          past, recent,  \* examined losses that are taken into account (least recent first)
          best,       \* [q |-> least loss so far (if any), n |-> number of rules, id |-> predicted scores]
          used,       \* number of rules that should be used, 0 = all
          ph          \* "learn", "final", "ambiguous" (the decision is subject to rounding errors) or "done"
vars == <<c, t, S, id, now, past, recent, best, used, ph>>
Case == Cases[c]
Par == Case.p
Outs == 1..Case.k
Examples == 1..Case.n
\* Rules in the order in which they have been learned, including the default rule
Rule(i) == Case.learned[i]
Total == Len(Case.learned)

Evaluated == Range(IF Par.holdout = 1 /\ Case.holdout # <<>> THEN Case.holdout ELSE Case.train)
Loss(scores) ==
    LET o == SetToSeq(Evaluated) IN
    FDiv(FSum([i \in DOMAIN o |-> ExampleLoss(Par.loss, Par.dec = 1, Case.y[o[i]], scores[o[i]])]), FInt(Len(o)))
After(scores, rule) ==
    [e \in Examples |-> IF Covers(rule, Case.x[e]) THEN [o \in Outs |-> FAdd(scores[e][o], ScoreFor(rule, o))] ELSE scores[e]]

\* ------------------------------------------------------------------- decisions
Near(a, b) == FClose(a, b, 1048576) \/ FLt(FAbs(FSub(a, b)), FRat(1, 1000000000))
Least(vs) == CHOOSE v \in vs : \A v2 \in vs : FLe(v, v2)
Greatest(vs) == CHOOSE v \in vs : \A v2 \in vs : FLe(v2, v)
Losses(buffer) == [i \in DOMAIN buffer |-> buffer[i].q]
Ids == {b.id : b \in Range(past) \cup Range(recent)}
Aggregate(buffer) ==
    CASE Par.agg = "min" -> Least(Range(Losses(buffer)))
      [] Par.agg = "max" -> Greatest(Range(Losses(buffer)))
      [] OTHER -> IF Cardinality({b.id : b \in Range(buffer)}) = 1 THEN buffer[1].q ELSE FDiv(FSum(Losses(buffer)), FInt(Len(buffer)))
Improvement == FDiv(FSub(Aggregate(past), Aggregate(recent)), Aggregate(recent))
Push(buffer, v, n) == IF Len(buffer) < n THEN Append(buffer, v) ELSE Append(Tail(buffer), v)

\* The first sizes are only examined if they are needed to fill the buffers until the minimum number of rules is reached
Offset == Max2(0, Par.min - (Par.past + Par.recent) * Par.update)
MustExamine ==
    CASE Par.t = "post" -> t >= Par.min /\ t % Par.update = 0
      [] Par.t = "pre" -> used = 0 /\ t > Offset /\ t % Par.update = 0
      [] OTHER -> FALSE
NoBest == [q |-> Zero, n |-> 0, id |-> 0]
Better(q, b) == b.n = 0 \/ (id # b.id /\ FLt(q, b.q))

\* Whether no more rules must be learned
Stopped == Par.t = "pre" /\ Par.remove = 1 /\ used > 0

\* ------------------------------------------------------------------- behaviour
Init == /\ c \in 1..Len(Cases)
        /\ t = Par.def
        /\ S = LET zero == [e \in Examples |-> [o \in Outs |-> Zero]] IN IF Par.def = 1 THEN TLCEval(After(zero, Rule(1))) ELSE zero
        /\ id = 1
        /\ now = Zero
        /\ past = <<>>
        /\ recent = <<>>
        /\ best = NoBest
        /\ used = 0
        /\ ph = "examine"

Halt(what) == Reject(Case.id, t, what) /\ ph' = "done" /\ UNCHANGED <<c, t, S, id, now, past, recent, best, used>>

Examine ==
    /\ ph = "examine"
    /\ IF MustExamine THEN now' = Loss(S) /\ ph' = "decide" ELSE now' = now /\ ph' = "learn"
    /\ UNCHANGED <<c, t, S, id, past, recent, best, used>>
Decide ==
    /\ ph = "decide"
    /\ LET full == Par.t = "post" \/ Len(past) = Par.past
           b == IF full /\ Better(now, best) THEN [q |-> now, n |-> t, id |-> id] ELSE best
           test == Par.t = "pre" /\ full /\ t % Par.stop = 0
           imp == IF test THEN Improvement ELSE Zero IN
       /\ best' = b
       /\ used' = IF Par.t = "post" THEN b.n ELSE IF test /\ FLt(imp, Par.improvement) THEN b.n ELSE 0
       /\ ph' = IF (full /\ best.n > 0 /\ id # best.id /\ Near(now, best.q))
                      \/ (test /\ Near(imp, Par.improvement) /\ Cardinality(Ids) > 1) THEN "ambiguous" ELSE "learn"
       /\ recent' = Push(recent, [q |-> now, id |-> id], Par.recent)
       /\ past' = IF Len(recent) = Par.recent THEN Push(past, recent[1], Par.past) ELSE past
       /\ UNCHANGED <<c, t, S, id, now>>

Full == Par.maxrules > 0 /\ t >= Par.maxrules
Learn ==
    /\ ph = "learn"
    /\ IF t < Total
       THEN IF Full THEN Halt("too many rules")
            ELSE IF Stopped THEN Halt("not stopped")
            ELSE /\ S' = TLCEval(After(S, Rule(t + 1)))
                 /\ id' = IF \A e \in Evaluated : S'[e] = S[e] THEN id ELSE id + 1
                 /\ t' = t + 1
                 /\ ph' = "examine"
                 /\ UNCHANGED <<c, now, past, recent, best, used>>
       ELSE IF ~Full /\ ~Stopped /\ Case.failed = 0 THEN Halt("stopped too early")
       ELSE ph' = "final" /\ UNCHANGED <<c, t, S, id, now, past, recent, best, used>>

\* Rules that are not used are removed if requested
Kept == IF Par.remove = 1 /\ used > 0 THEN used ELSE Total
Used == IF used > 0 THEN used ELSE Total
SameScores(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : FClose(a[i], b[i], 16384) \/ FLt(FAbs(FSub(a[i], b[i])), FRat(1, 1000000000))
SameRule(m, r) == m.d = r.d /\ m.o = r.o /\ SameScores(m.s, r.s) /\ Range(m.c) = Range(r.c)
RECURSIVE Sum(_, _)
Sum(scores, i) == IF i > Used THEN scores ELSE Sum(After(scores, Rule(i)), i + 1)
Final ==
    /\ ph = "final"
    /\ IF Len(Case.rules) # Kept THEN Halt("number of rules in the model")
       ELSE IF Case.used # Used THEN Halt("number of used rules")
       ELSE IF \E i \in DOMAIN Case.rules : ~SameRule(Case.rules[i], Rule(i)) THEN Halt("rules in the model")
       ELSE IF LET s == TLCEval(Sum([e \in Examples |-> [o \in Outs |-> Zero]], 1)) IN
               \E e \in Examples : ~SameScores(Case.pred[e], s[e]) THEN Halt("predictions")
       ELSE ph' = "done" /\ UNCHANGED <<c, t, S, id, now, past, recent, best, used>>

Next == Examine \/ Decide \/ Learn \/ Final
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------- sanity properties of the model
Buffers == Len(past) <= Par.past /\ Len(recent) <= Par.recent /\ (past # <<>> => Len(recent) = Par.recent)
\* Pre-pruning never stops before the buffers have been filled and never uses a size that has not been examined
Sound == used > 0 => /\ used <= t
                     /\ used % Par.update = 0
                     /\ Par.t = "post" => used >= Par.min
                     /\ Par.t = "pre" => used > Offset + Par.update * (Par.past + Par.recent) - Par.update
===============================================================================
