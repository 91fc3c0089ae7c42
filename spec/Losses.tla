-------------------------------- MODULE Losses -------------------------------
(* Loss functions: values, gradients and Hessians. `t` is the expected score  *)
(* of an output (1 / -1 for relevant / irrelevant labels, the target value in *)
(* case of regression), `s` the predicted score. Vectors are sequences.       *)
EXTENDS Rules

Two == FInt(2)
Half == FRat(1, 2)
Sq(a) == FMul(a, a)
\* 1 / (1 + exp(-x)), without overflow
Sigmoid(x) == IF FLt(x, Zero) THEN LET e == FExp(x) IN FDiv(e, FAdd(One, e))
              ELSE FDiv(One, FAdd(One, FExp(FNeg(x))))
\* log(1 + exp(x))
Softplus(x) == IF FLt(Zero, x) THEN FAdd(x, FLog(FAdd(One, FExp(FNeg(x))))) ELSE FLog(FAdd(One, FExp(x)))
Relevant(t) == FLt(Zero, t)
Map(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]
SumOver(n, Op(_)) == FSum([i \in 1..n |-> Op(i)])

\* ------------------------------------------------------------------- loss of a single output
HingeGap(t, s) == IF Relevant(t) THEN FMin(Zero, FSub(s, One)) ELSE FMax(Zero, s)
OutputLoss(loss, t, s) ==
    CASE loss = "logistic" -> Softplus(FNeg(FMul(t, s)))
      [] loss = "squared-error" -> Sq(FSub(s, t))
      [] loss = "squared-hinge" -> Sq(HingeGap(t, s))

\* ------------------------------------------------------------------- loss of an example
MaxOf(q) == LET RECURSIVE M(_) M(i) == IF i = 0 THEN Zero ELSE FMax(q[i], M(i - 1)) IN M(Len(q))
ExampleLoss(loss, dec, t, s) ==
    LET n == Len(t) IN
    IF dec THEN FDiv(SumOver(n, LAMBDA i : OutputLoss(loss, t[i], s[i])), FInt(n))
    ELSE IF loss = "logistic"
         THEN LET x == [i \in 1..n |-> FNeg(FMul(t[i], s[i]))]
                  m == MaxOf(x) IN
              FAdd(m, FLog(FAdd(FExp(FNeg(m)), SumOver(n, LAMBDA i : FExp(FSub(x[i], m))))))
         ELSE FSqrt(SumOver(n, LAMBDA i : OutputLoss(loss, t[i], s[i])))

\* ------------------------------------------------------------------- decomposable gradients and Hessians
DecGradient(loss, t, s) ==
    CASE loss = "logistic" -> FSub(Sigmoid(s), IF Relevant(t) THEN One ELSE Zero)
      [] loss = "squared-error" -> FSub(s, t)
      [] loss = "squared-hinge" -> HingeGap(t, s)
DecHessian(loss, t, s) ==
    CASE loss = "logistic" -> LET p == Sigmoid(s) IN FMul(p, FSub(One, p))
      [] OTHER -> One

\* ------------------------------------------------------------------- non-decomposable gradients and Hessians
\* Softmax-like terms of the logistic loss: exp(x_i) / (1 + sum of exp(x_j)) with x_i = -t_i * s_i
SoftTerms(t, s) ==
    LET n == Len(t)
        x == [i \in 1..n |-> FNeg(FMul(t[i], s[i]))]
        m == MaxOf(x)
        e == [i \in 1..n |-> FExp(FSub(x[i], m))]
        d == FAdd(FExp(FNeg(m)), FSum(e)) IN
    [i \in 1..n |-> FDiv(e[i], d)]

\* The residual whose norm is the loss, for both kinds of squared losses
Residual(loss, t, s) == [i \in DOMAIN t |-> IF loss = "squared-error" THEN FSub(s[i], t[i]) ELSE HingeGap(t[i], s[i])]

\* Statistics [g |-> gradients, h |-> matrix of Hessians]; `Squares` are the squares of the residual
NonDecStats(loss, t, s, Squares(_)) ==
    LET n == Len(t) IN
    IF loss = "logistic"
    THEN LET p == SoftTerms(t, s) IN
         [g |-> [i \in 1..n |-> FNeg(FMul(t[i], p[i]))],
          h |-> [i \in 1..n |-> [j \in 1..n |->
                   IF i = j THEN FMul(p[i], FSub(One, p[i]))
                   ELSE FNeg(FMul(FMul(t[i], t[j]), FMul(p[i], p[j])))]]]
    ELSE LET r == Residual(loss, t, s)
             x == Squares(r)
             norm2 == FSum(x)
             norm == FSqrt(norm2)
             d3 == FMul(norm2, norm)
             div(a, b) == IF FEq(b, Zero) THEN Zero ELSE FDiv(a, b) IN
         [g |-> [i \in 1..n |-> div(r[i], norm)],
          h |-> [i \in 1..n |-> [j \in 1..n |->
                   IF i = j
                   THEN (IF loss = "squared-hinge" /\ FEq(r[i], Zero) THEN One ELSE div(FSub(norm2, x[i]), d3))
                   ELSE FNeg(div(FMul(r[i], r[j]), d3))]]]
NonDecStatistics(loss, t, s) == NonDecStats(loss, t, s, LAMBDA r : [i \in DOMAIN r |-> Sq(r[i])])
=============================================================================
