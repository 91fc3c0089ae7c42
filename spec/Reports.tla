------------------------------- MODULE Reports ------------------------------
(* Files about models, data and predictions that are written by experiments.  *)
(* For each fold, the models that have been learned, the training examples    *)
(* and the predictions are known; the specification says what the files must  *)
(* contain. One step per file that is expected.                               *)
(* Case: attrs, outs, x, y, opts, percent, folds: ids (training examples),    *)
(* rules, marg, joint (calibration models), preds (type, res), files          *)
EXTENDS Rules, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, h,
          seen  \* names of files that have been examined
vars == <<c, h, seen>>

Case == Cases[c]
Nout == Len(Case.outs)
Suffix(f) == IF f = 0 THEN "overall" ELSE "fold-" \o ToString(f)
None == [kind |-> "none", rows |-> <<>>]
File(name) == LET k == {i \in DOMAIN Case.files : Case.files[i].f = name} IN
              IF k = {} THEN None ELSE Case.files[CHOOSE i \in k : TRUE]

\* ---- expected files ----
PerFold == <<"rules", "model", "data", "vectors", "marginal", "joint">>
NameOf(kind) == CASE kind = "rules" -> "rules" [] kind = "model" -> "model_characteristics" [] kind = "data" -> "data_characteristics"
                  [] kind = "vectors" -> "label_vectors" [] kind = "marginal" -> "marginal_probability_calibration_model"
                  [] kind = "joint" -> "joint_probability_calibration_model"
Extension(kind) == IF kind = "rules" THEN ".txt" ELSE ".csv"
PerFoldFiles(F) == [i \in DOMAIN PerFold |-> [kind |-> PerFold[i], fold |-> F, pred |-> 0,
                        name |-> NameOf(PerFold[i]) \o "_" \o Suffix(F.fold) \o Extension(PerFold[i])]]
PredFiles(F) == [i \in DOMAIN F.preds |-> [kind |-> "prediction", fold |-> F, pred |-> i,
                     name |-> "prediction_characteristics_" \o F.preds[i].type \o "_" \o Suffix(F.fold) \o ".csv"]]
RECURSIVE AllFiles(_)
AllFiles(i) == IF i > Len(Case.folds) THEN <<>>
               ELSE PerFoldFiles(Case.folds[i]) \o PredFiles(Case.folds[i]) \o AllFiles(i + 1)
Expected == AllFiles(1)

\* ---- rules ----
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
SameElements(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, LAMBDA e : e = s[i]) = Count(t, LAMBDA e : e = s[i])
Operator(op) == CASE op \in {"<=", "o<="} -> "<=" [] op \in {">", "o>"} -> ">" [] OTHER -> op
IsNominal(f) == Case.onehot = 0 /\ Case.attrs[f].type = "nominal"
FeatureName(f) == IF Case.opts.fnames = 1 /\ Case.onehot = 0 THEN Case.attrs[f].name ELSE ToString(f - 1)
OutputName(o) == IF Case.opts.onames = 1 THEN Case.outs[o] ELSE ToString(o - 1)
Condition(cond) == IF IsNominal(cond[1]) /\ Case.opts.values = 1
                   THEN [f |-> FeatureName(cond[1]), op |-> Operator(cond[2]), s |-> Case.attrs[cond[1]].values[FFloor(cond[3]) + 1], v |-> Zero]
                   ELSE [f |-> FeatureName(cond[1]), op |-> Operator(cond[2]), s |-> "", v |-> cond[3]]
Body(r) == IF Case.opts.bodies = 0 THEN <<>> ELSE [i \in DOMAIN r.c |-> Condition(r.c[i])]
HeadOf(r) == IF Case.opts.heads = 0 THEN <<>> ELSE [i \in DOMAIN r.o |-> [o |-> OutputName(r.o[i]), v |-> r.s[i]]]
RoundedBody(conds) == [i \in DOMAIN conds |-> [conds[i] EXCEPT !.v = FSingle(@)]]
RulesVerdict(rows, F) ==
    IF Len(rows) # Len(F.rules) THEN "number of rules"
    ELSE IF \E i \in DOMAIN rows : ~SameElements(RoundedBody(rows[i].c), Body(F.rules[i])) THEN "conditions"
    ELSE IF \E i \in DOMAIN rows : ~SameElements(rows[i].h, HeadOf(F.rules[i])) THEN "head"
    ELSE "ok"

NumConds(r, ops) == Count(r.c, LAMBDA cond : cond[2] \in ops)
RowOk(row, r, i) ==
    /\ row.index = i /\ row.default = r.d
    /\ row.c = Len(r.c) /\ row.num = NumConds(r, {"<=", ">"}) /\ row.ord = NumConds(r, {"o<=", "o>"})
    /\ row.nom = NumConds(r, {"==", "!="})
    /\ \A op \in {"<=", ">", "o<=", "o>", "==", "!="} : row[op] = NumConds(r, {op})
    /\ row.p = Len(r.s) /\ row.pos = Count(r.s, LAMBDA s : FLt(Zero, s)) /\ row.neg = row.p - row.pos
ModelVerdict(rows, F) ==
    IF Len(rows) # Len(F.rules) THEN "number of rules"
    ELSE IF \E i \in DOMAIN rows : ~RowOk(rows[i], F.rules[i], i) THEN "characteristics of a rule" ELSE "ok"

\* ---- outputs ----
Tol == 1000000
Mean(s) == FDiv(FSum(s), FInt(Len(s)))
Scale(v) == IF Case.percent = 1 THEN FMul(v, FInt(100)) ELSE v
Ones(v) == Count(v, LAMBDA b : b = 1)
Column(y, j) == [i \in DOMAIN y |-> y[i][j]]
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Density(y) == FRat(Total([i \in DOMAIN y |-> Ones(y[i])]), Len(y) * Nout)
PerLabel(y) == SelectSeq([j \in 1..Nout |-> Ones(Column(y, j))], LAMBDA n : n > 0)
MaxOf(s) == CHOOSE n \in Range(s) : \A k \in Range(s) : k <= n
Imbalance(y) == IF PerLabel(y) = <<>> THEN Zero
                ELSE LET m == MaxOf(PerLabel(y)) IN Mean([k \in DOMAIN PerLabel(y) |-> FRat(m, PerLabel(y)[k])])
OutputsVerdict(row, y) ==
    IF ~FEq(row.outputs, FInt(Nout)) THEN "outputs"
    ELSE IF ~FClose(row.density, Scale(Density(y)), Tol) THEN "density"
    ELSE IF ~FClose(row.sparsity, Scale(FSub(One, Density(y))), Tol) THEN "sparsity"
    ELSE IF ~FClose(row.imbalance, Imbalance(y), Tol) THEN "label imbalance ratio"
    ELSE IF ~FClose(row.cardinality, FRat(Total([i \in DOMAIN y |-> Ones(y[i])]), Len(y)), Tol) THEN "label cardinality"
    ELSE IF ~FEq(row.distinct, FInt(Cardinality(Range(y)))) THEN "distinct label vectors"
    ELSE "ok"
TrainX(F) == [i \in DOMAIN F.ids |-> Case.x[F.ids[i]]]
TrainY(F) == [i \in DOMAIN F.ids |-> Case.y[F.ids[i]]]
NumType(t) == FInt(Count(Case.attrs, LAMBDA a : a.type = t))
NonZero(x) == Total([i \in DOMAIN x |-> Count(x[i], LAMBDA v : ~FEq(v, Zero))])
FeaturesVerdict(row, F) ==
    IF ~FEq(row.examples, FInt(Len(F.ids))) THEN "examples"
    ELSE IF Case.onehot = 1 THEN "ok"
    ELSE IF \/ ~FEq(row.features, FInt(Len(Case.attrs))) \/ ~FEq(row.numerical, NumType("numeric"))
            \/ ~FEq(row.ordinal, NumType("integer")) \/ ~FEq(row.nominal, NumType("nominal")) THEN "features"
    ELSE LET d == FRat(NonZero(TrainX(F)), Len(F.ids) * Len(Case.attrs)) IN
         IF ~FClose(row.fdensity, Scale(d), Tol) \/ ~FClose(row.fsparsity, Scale(FSub(One, d)), Tol) THEN "feature density" ELSE "ok"
Both(v, w) == IF v # "ok" THEN v ELSE w

VectorsVerdict(rows, y) ==
    IF [i \in DOMAIN rows |-> rows[i].index] # [i \in DOMAIN rows |-> i] THEN "index"
    ELSE IF {rows[i].v : i \in DOMAIN rows} # Range(y) \/ Len(rows) # Cardinality(Range(y)) THEN "label vectors"
    ELSE IF \E i \in DOMAIN rows : rows[i].n # Count(y, LAMBDA v : v = rows[i].v) THEN "frequency"
    ELSE "ok"

Verdict(e) ==
    LET rows == File(e.name).rows
        exists == File(e.name).kind = e.kind IN
    CASE e.kind = "rules" -> IF ~exists THEN "missing" ELSE RulesVerdict(rows, e.fold)
      [] e.kind = "model" -> IF ~exists /\ e.fold.rules # <<>> THEN "missing" ELSE ModelVerdict(rows, e.fold)
      [] e.kind = "data" -> IF ~exists THEN "missing" ELSE Both(FeaturesVerdict(rows[1], e.fold), OutputsVerdict(rows[1], TrainY(e.fold)))
      [] e.kind = "prediction" -> IF ~exists THEN "missing" ELSE OutputsVerdict(rows[1], e.fold.preds[e.pred].res)
      [] e.kind = "vectors" -> IF ~exists THEN "missing" ELSE VectorsVerdict(rows, TrainY(e.fold))
      [] e.kind = "marginal" -> IF Case.calibrated = 1 /\ rows # e.fold.marg THEN "calibration model" ELSE "ok"
      [] e.kind = "joint" -> IF Case.calibrated = 1 /\ rows # e.fold.joint THEN "calibration model" ELSE "ok"

Init == c \in 1..Len(Cases) /\ h = 0 /\ seen = {}
Examine == LET e == Expected[h + 1] IN
           /\ h < Len(Expected)
           /\ Verdict(e) # "ok" => Reject(Case.id, h, e.kind \o ": " \o Verdict(e))
           /\ seen' = seen \cup {e.name}
Finish == /\ h = Len(Expected)
          /\ \A i \in DOMAIN Case.files : Case.files[i].f \notin seen => Reject(Case.id, h, "unexpected file")
          /\ UNCHANGED seen
Next == h' = h + 1 /\ UNCHANGED c /\ (Examine \/ Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
