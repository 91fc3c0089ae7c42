----------------------------- MODULE Experiment ------------------------------
(* Experiments that are started one after the other and share directories for *)
(* models and parameters, files that get lost or damaged in between, and runs *)
(* that are killed. For each fold, an experiment reads parameters, obtains a  *)
(* model (a stored one or a new one that has been fitted to the training      *)
(* examples), predicts for the training and test examples, and writes files.  *)
(* One step per call of the learner, start and end of a run, or damage.       *)
(* Case: n examples with ground truth y, nout outputs, nom: there is a nominal*)
(* feature (with index 4), files: predefined splits.                          *)
EXTENDS Encoding, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, h,
          run,     \* configuration of the current run
          fi,      \* position of the current fold in the sequence of folds that are performed
          phase,   \* what comes next in the current fold: a "model", predictions for "train"ing or "test" examples
          model,   \* digest of the rules of the current model
          train,   \* training examples of the current fold ({}: not observed yet)
          inc,     \* current incremental evaluation
          fits,    \* number of models that have been fitted in the current run
          store,   \* model file |-> type and digest of its content
          tuned,   \* parameter file |-> parameters
          splits,  \* split |-> fold |-> test examples
          fitted,  \* training data and parameters |-> digest
          known,   \* model, examples and kind of predictions |-> predictions
          made     \* predictions made in the current run
vars == <<c, h, run, fi, phase, model, train, inc, fits, store, tuned, splits, fitted, known, made>>

Case == Cases[c]
Op == Case.ops[h + 1]
All == 1..Case.n
None == [op |-> "none"]

\* ---- configuration ----
FoldSeq == IF run.split # "cv" THEN <<0>>
           ELSE IF run.cur = 0 THEN [i \in 1..run.k |-> i] ELSE <<run.cur>>
Fold == FoldSeq[fi]
Suffix(f) == IF f = 0 THEN "overall" ELSE "fold-" \o ToString(f)
ModelFile(f) == run.learner \o "_" \o Suffix(f) \o ".model"
ParamFile(f) == "parameters_" \o Suffix(f) \o ".csv"
LearnerType == IF run.learner = "seco" THEN "SeCoClassifier"
               ELSE IF run.regression = 1 THEN "BoomerRegressor" ELSE "BoomerClassifier"
Stored == run.models = 1 /\ ModelFile(Fold) \in DOMAIN store /\ store[ModelFile(Fold)].t = LearnerType
Predefined == run.split = Case.files.kind
Separated == run.split # "none"
SplitKey == ToString(<<run.split, IF run.split = "cv" THEN ToString(run.k) ELSE ToString(run.size), run.seed>>)
Tests == IF SplitKey \in DOMAIN splits THEN splits[SplitKey] ELSE <<>>
Others == DOMAIN Tests \ {Fold}

Distinct(s) == Cardinality(Range(s)) = Len(s)
UnionOf(S) == UNION S

\* Whether the examples in T may be the test examples of the current fold
TestOk(T) ==
    IF run.split = "none" THEN T = All
    ELSE IF Predefined THEN T = Range(Case.files.sets[IF run.split = "tt" THEN 2 ELSE Fold])
    ELSE IF run.split = "tt"
    THEN LET s == FMul(run.size, FInt(Case.n)) IN Cardinality(T) \in {Max2(1, FFloor(s)), FCeil(s)}
    ELSE /\ Cardinality(T) \in {Case.n \div run.k, (Case.n + run.k - 1) \div run.k}
         /\ \A g \in Others : T \cap Tests[g] = {}
         /\ Cardinality(DOMAIN Tests \cup {Fold}) = run.k => T \cup UnionOf({Tests[g] : g \in Others}) = All
SameAsBefore(T) == Fold \in DOMAIN Tests => T = Tests[Fold]
TrainOf(T) == IF run.split = "none" THEN All ELSE All \ T

\* ---- features ----
BaseSet == IF ~Predefined \/ run.split = "none" THEN All ELSE Range(Case.files.sets[1])
Enc == Encoder([i \in BaseSet |-> Case.x[i]], IF Case.nom = 1 /\ run.onehot = 1 THEN {5} ELSE {})
SameRow(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Same(a[k], b[k])
FeaturesOk == LET e == Enc IN \A i \in DOMAIN Op.ids : SameRow(Op.x[i], EncodeRow(Case.x[Op.ids[i]], e))

\* ---- parameters ----
FromFile == IF run.pdir = 1 /\ ParamFile(Fold) \in DOMAIN tuned THEN tuned[ParamFile(Fold)] ELSE <<>>
ParamsOk(p) ==
    /\ \A k \in DOMAIN FromFile : k \in DOMAIN p /\ p[k] = FromFile[k]
    /\ \A k \in DOMAIN run.params \ DOMAIN FromFile : k \in DOMAIN p /\ p[k] = run.params[k]

\* ---- evaluation ----
Row(k) == ((k - 1) \div Case.nout) + 1
Col(k) == ((k - 1) % Case.nout) + 1
Entries(m) == [k \in 1..(Len(m.ids) * Case.nout) |-> <<m.res[Row(k)][Col(k)], FInt(Case.y[m.ids[Row(k)]][Col(k)])>>]
Mean(s) == FDiv(FSum(s), FInt(Len(s)))
Bool(b) == IF b THEN One ELSE Zero
Measure(m, what) ==
    CASE what = "hamming" -> Mean([k \in 1..Len(Entries(m)) |-> Bool(Entries(m)[k][1] # Entries(m)[k][2])])
      [] what = "subset" -> Mean([i \in 1..Len(m.ids) |->
                                     Bool(\A j \in 1..Case.nout : FEq(m.res[i][j], FInt(Case.y[m.ids[i]][j])))])
      [] what = "mse" -> Mean([k \in 1..Len(Entries(m)) |->
                                  LET d == FSub(Entries(m)[k][1], Entries(m)[k][2]) IN FMul(d, d)])
      [] what = "mae" -> Mean([k \in 1..Len(Entries(m)) |-> FAbs(FSub(Entries(m)[k][1], Entries(m)[k][2]))])
Deviation(s) == LET a == Mean(s) IN FSqrt(Mean([k \in 1..Len(s) |-> LET d == FSub(s[k], a) IN FMul(d, d)]))
Tol == 1000000
MeasuresOf == IF run.kind = "binary" /\ run.regression = 0
              THEN (IF Case.nout > 1 THEN {"hamming", "subset"} ELSE {"subset"}) ELSE {"mse", "mae"}

Of(type, f) == SelectSeq(made, LAMBDA m : m.type = type /\ m.fold = f)
Types == (IF run.train = 1 /\ Separated THEN {"training"} ELSE {}) \cup {IF Separated THEN "test" ELSE "training"}
RowsOk(rows, ms) ==
    /\ Len(rows) = Len(ms)
    /\ \A k \in 1..Len(ms) : /\ rows[k].size = ms[k].size
                             /\ \A w \in MeasuresOf : w \in DOMAIN rows[k].m /\ FClose(rows[k].m[w], Measure(ms[k], w), Tol)
Average(type, size, w) == LET ms == SelectSeq(made, LAMBDA m : m.type = type /\ m.size = size) IN
                          [k \in 1..Len(ms) |-> Measure(ms[k], w)]
OverallOk(rows, type) ==
    LET last == Of(type, run.k) IN
    /\ Len(rows) = Len(last)
    /\ \A k \in 1..Len(last) :
           /\ rows[k].size = last[k].size
           /\ \A w \in MeasuresOf : LET s == Average(type, last[k].size, w) IN
                  /\ FClose(rows[k].m[w], Mean(s), Tol)
                  /\ FClose(rows[k].sd[w], Deviation(s), Tol)
ReportName(type, f) == "evaluation_" \o type \o "_" \o Suffix(f) \o ".csv"
PredName(m) == "predictions_" \o m.type \o (IF m.size > 0 THEN "_model-size-" \o ToString(m.size) ELSE "") \o "_"
               \o Suffix(m.fold) \o ".arff"
Full == run.split # "cv" \/ run.cur = 0
FoldsDone == {FoldSeq[i] : i \in 1..Len(FoldSeq)}
NumRules(type, f) == Len(Of(type, f)) > 0
ReportNames == {ReportName(t, f) : t \in Types, f \in FoldsDone}
               \cup (IF run.split = "cv" /\ run.cur = 0 THEN {ReportName(t, 0) : t \in Types} ELSE {})
File(files, name) == LET k == {i \in DOMAIN files : files[i].f = name} IN
                     IF k = {} THEN None ELSE files[CHOOSE i \in k : TRUE]
Names(files) == {files[i].f : i \in DOMAIN files}
\* Experiments that use incremental evaluations of empty models write no reports
Empty(t, f) == ~NumRules(t, f)
ReportsVerdict ==
    IF \E t \in Types, f \in FoldsDone :
           LET r == File(Op.reports, ReportName(t, f)) IN ~Empty(t, f) /\ r = None THEN "missing report"
    ELSE IF Full /\ ~(Names(Op.reports) \subseteq ReportNames) THEN "stale report"
    ELSE IF \E t \in Types, f \in FoldsDone :
                LET r == File(Op.reports, ReportName(t, f)) IN
                (run.inc = <<>> \/ Full) /\ ~Empty(t, f) /\ ~RowsOk(r.r, Of(t, f)) THEN "wrong report"
    ELSE IF /\ run.split = "cv" /\ run.cur = 0
            /\ \E t \in Types : LET r == File(Op.reports, ReportName(t, 0)) IN
                   ~Empty(t, run.k) /\ (r = None \/ ~OverallOk(r.r, t)) THEN "wrong average"
    ELSE IF run.preds = 1 /\ \E k \in DOMAIN made :
                LET p == File(Op.preds, PredName(made[k])) IN
                \/ p = None
                \/ p.p # made[k].res
                \/ p.y # [i \in DOMAIN made[k].ids |-> [j \in 1..Case.nout |-> FInt(Case.y[made[k].ids[i]][j])]]
         THEN "wrong predictions stored"
    ELSE IF Full /\ run.preds = 1 /\ Names(Op.preds) # {PredName(made[k]) : k \in DOMAIN made} THEN "stale predictions"
    ELSE "ok"

\* ---- transitions ----
Init == /\ c \in 1..Len(Cases) /\ h = 0
        /\ run = None /\ fi = 1 /\ phase = "none" /\ model = -1 /\ train = {} /\ inc = None /\ fits = 0
        /\ store = <<>> /\ tuned = <<>> /\ splits = <<>> /\ fitted = <<>> /\ known = <<>> /\ made = <<>>

Ok(v) == v # "ok" => Reject(Case.id, h, v)

Run == /\ Op.op = "run"
       /\ run' = Op /\ fi' = 1 /\ phase' = "model" /\ model' = -1 /\ train' = {} /\ inc' = None /\ fits' = 0 /\ made' = <<>>
       /\ UNCHANGED <<store, tuned, splits, fitted, known>>

FitKey == ToString(<<LearnerType, run.onehot, run.sparse, Op.ids, Op.params>>)
FitVerdict ==
    IF phase # "model" THEN "unexpected training"
    ELSE IF Stored THEN "trained although a model is stored"
    ELSE IF ~Distinct(Op.ids) \/ ~(Range(Op.ids) \subseteq All) THEN "training examples"
    ELSE IF \E i \in DOMAIN Op.ids : Op.y[i] # Case.y[Op.ids[i]] THEN "ground truth"
    ELSE IF ~FeaturesOk THEN "features"
    ELSE IF Op.sparse # run.sparse THEN "sparse value"
    ELSE IF run.split = "none" /\ Range(Op.ids) # All THEN "training examples"
    ELSE IF Separated /\ ~TestOk(All \ Range(Op.ids)) THEN "split"
    ELSE IF Separated /\ ~SameAsBefore(All \ Range(Op.ids)) THEN "split differs"
    ELSE IF Op.nom # (IF Case.nom = 1 /\ run.onehot = 0 THEN <<4>> ELSE <<>>) \/ Op.ord # <<>> THEN "feature types"
    ELSE IF ~ParamsOk(Op.params) THEN "parameters"
    ELSE IF FitKey \in DOMAIN fitted /\ fitted[FitKey] # Op.model THEN "model differs"
    ELSE "ok"
AfterModel == IF run.train = 1 /\ Separated THEN "train" ELSE "test"
Remember(T) == splits' = IF ~Separated THEN splits
                         ELSE (SplitKey :> ((Fold :> T) @@ Tests)) @@ splits
Tune(p) == tuned' = IF run.pdir = 1 /\ run.pstore = 1 THEN (ParamFile(Fold) :> p) @@ tuned ELSE tuned
Fit == /\ Op.op = "fit"
       /\ Ok(FitVerdict)
       /\ phase' = AfterModel
       /\ model' = Op.model /\ train' = Range(Op.ids) /\ fits' = fits + 1
       /\ store' = IF run.models = 1 THEN (ModelFile(Fold) :> [t |-> LearnerType, d |-> Op.model]) @@ store ELSE store
       /\ fitted' = (FitKey :> Op.model) @@ fitted
       /\ Remember(All \ Range(Op.ids))
       /\ Tune(Op.params)
       /\ UNCHANGED <<run, fi, inc, known, made>>

\* Predictions are made for the training or test examples of the current fold, by its model
Loading == phase = "model"
Expected == IF Loading THEN (IF Stored THEN store[ModelFile(Fold)].d ELSE -1) ELSE model
Now == IF Loading THEN AfterModel ELSE phase
TargetVerdict ==
    IF fi > Len(FoldSeq) THEN "unexpected predictions"
    ELSE IF Loading /\ ~Stored THEN "no model"
    ELSE IF Op.model # Expected THEN "wrong model"
    ELSE IF Op.kind # run.kind THEN "kind of predictions"
    ELSE IF Op.sparse # run.sparse THEN "sparse value"
    ELSE IF ~ParamsOk(Op.params) THEN "parameters"
    ELSE IF ~Distinct(Op.ids) \/ ~(Range(Op.ids) \subseteq All) THEN "examples"
    ELSE IF ~FeaturesOk THEN "features"
    ELSE IF Now = "train"
    THEN (IF train # {} /\ Range(Op.ids) # train THEN "training examples"
          ELSE IF train = {} /\ ~(TestOk(All \ Range(Op.ids)) /\ SameAsBefore(All \ Range(Op.ids))) THEN "split"
          ELSE "ok")
    ELSE IF ~TestOk(Range(Op.ids)) THEN "split"
    ELSE IF ~SameAsBefore(Range(Op.ids)) THEN "split differs"
    ELSE IF Separated /\ train # {} /\ Range(Op.ids) # All \ train THEN "test examples"
    ELSE "ok"
PredKey(size, kind, ids, par) == ToString(<<Expected, size, kind, ids, par, run.onehot, run.sparse>>)
Entry(res, size, ids) == [type |-> IF Now = "train" \/ ~Separated THEN "training" ELSE "test",
                          fold |-> Fold, size |-> size, ids |-> ids, res |-> res]
Advance == /\ model' = Expected
           /\ phase' = IF Now = "train" THEN "test" ELSE "model"
           /\ fi' = IF Now = "train" THEN fi ELSE fi + 1
           /\ train' = IF Now = "train" THEN Range(Op.ids) ELSE {}
           /\ Remember(IF Now = "train" THEN All \ Range(Op.ids) ELSE Range(Op.ids))
           /\ IF Loading THEN Tune(Op.params) ELSE UNCHANGED tuned
Predict ==
    /\ Op.op = "predict"
    /\ LET k == PredKey(0, Op.kind, Op.ids, Op.params)
           v == IF TargetVerdict # "ok" THEN TargetVerdict
                ELSE IF run.inc # <<>> THEN "not incremental"
                ELSE IF k \in DOMAIN known /\ known[k] # Op.res THEN "predictions differ" ELSE "ok" IN
       /\ Ok(v)
       /\ IF v \in {"unexpected predictions", "no model"} THEN UNCHANGED <<known, made, model, phase, fi, train, splits, tuned>>
          ELSE /\ known' = (k :> Op.res) @@ known
               /\ made' = Append(made, Entry(Op.res, 0, Op.ids))
               /\ Advance
    /\ UNCHANGED <<run, inc, fits, store, fitted>>

\* ---- incremental evaluation: sizes min, min + step, ... that do not exceed max ----
Begin ==
    /\ Op.op = "inc"
    /\ LET v == IF TargetVerdict # "ok" THEN TargetVerdict ELSE IF run.inc = <<>> THEN "incremental" ELSE "ok" IN
       /\ Ok(v)
       /\ IF v = "ok"
          THEN /\ inc' = [n |-> Op.n, total |-> IF run.inc[2] > 0 THEN Min2(run.inc[2], Op.n) ELSE Op.n, size |-> 0,
                          ids |-> Op.ids, kind |-> Op.kind, entry |-> Entry(<<>>, 0, Op.ids), model |-> Op.model,
                          par |-> Op.params]
               /\ Advance
          ELSE UNCHANGED <<inc, model, phase, fi, train, splits, tuned>>
    /\ UNCHANGED <<run, fits, store, fitted, known, made>>
Advancing == Op.op = "next" /\ inc # None
NextSize == Min2(inc.size + (IF inc.size = 0 /\ run.inc[1] > 0 THEN run.inc[1] ELSE run.inc[3]), inc.total)
Step ==
    /\ Op.op = "next"
    /\ IF inc = None THEN Reject(Case.id, h, "unexpected predictions") /\ UNCHANGED <<inc, known, made>>
       ELSE LET k == ToString(<<inc.model, NextSize, inc.kind, inc.ids, inc.par, run.onehot, run.sparse>>)
                v == IF inc.size >= inc.total THEN "more rules than requested"
                     ELSE IF Min2(inc.size + Op.step, inc.n) # NextSize THEN "number of rules"
                     ELSE IF k \in DOMAIN known /\ known[k] # Op.res THEN "predictions differ" ELSE "ok" IN
            /\ Ok(v)
            /\ inc' = [inc EXCEPT !.size = NextSize]
            /\ known' = (k :> Op.res) @@ known
            /\ made' = Append(made, [inc.entry EXCEPT !.size = NextSize, !.res = Op.res])
    /\ UNCHANGED <<run, fi, phase, model, train, fits, store, tuned, splits, fitted>>
Unfinished == inc # None /\ inc.size < inc.total
Finish == /\ inc # None /\ Op.op # "next"
          /\ Ok(IF Unfinished THEN "fewer rules than requested" ELSE "ok")
          /\ inc' = None
          /\ UNCHANGED <<run, fi, phase, model, train, fits, store, tuned, splits, fitted, known, made>>

ModelFiles(files) == {<<files[i].f, files[i].t, files[i].d>> : i \in DOMAIN files}
Expectation == {<<f, store[f].t, store[f].d>> : f \in DOMAIN store}
Pending == run.pdir = 1 /\ run.pstore = 1 /\ Op.status = "killed"  \* parameters are written before a model is fitted
Tuned2 == IF Pending /\ ParamFile(Fold) \in Names(Op.params)
          THEN (ParamFile(Fold) :> File(Op.params, ParamFile(Fold)).p) @@ tuned ELSE tuned
EndVerdict ==
    IF Op.status = "killed" /\ ~(run.abort = fits + 1 /\ phase = "model" /\ ~Stored) THEN "trained although a model is stored"
    ELSE IF Op.status \notin {"ok", "killed"} THEN "failed: " \o Op.status
    ELSE IF Op.status = "ok" /\ fi <= Len(FoldSeq) THEN "incomplete"
    ELSE IF Op.status = "ok" /\ run.abort > 0 /\ fits >= run.abort THEN "not killed"
    ELSE IF ModelFiles(Op.models) # Expectation THEN "stored models"
    ELSE IF Names(Op.params) # DOMAIN Tuned2 \/ \E f \in Names(Op.params) : File(Op.params, f).p # Tuned2[f] THEN "stored parameters"
    ELSE IF Pending /\ ~ParamsOk(Tuned2[ParamFile(Fold)]) THEN "parameters"
    ELSE IF Op.status = "ok" THEN ReportsVerdict
    ELSE "ok"
End == /\ Op.op = "end" /\ inc = None
       /\ Ok(EndVerdict)
       /\ tuned' = IF Op.status = "killed" THEN Tuned2 ELSE tuned
       /\ run' = None /\ phase' = "none"
       /\ UNCHANGED <<fi, model, train, inc, fits, store, splits, fitted, known, made>>

\* Something that is not under control of the program happens to a file
Content(f) == LET e == File(Op.models, f) IN IF e = None THEN <<>> ELSE (f :> [t |-> e.t, d |-> e.d])
Damage == /\ Op.op = "damage"
          /\ store' = Content(Op.f) @@ [f \in DOMAIN store \ {Op.f} |-> store[f]]
          /\ UNCHANGED <<run, fi, phase, model, train, inc, fits, tuned, splits, fitted, known, made>>

Next == /\ h < Len(Case.ops)
        /\ \/ Finish /\ h' = h
           \/ ~(inc # None /\ Op.op # "next") /\ (Run \/ Fit \/ Predict \/ Begin \/ Step \/ End \/ Damage) /\ h' = h + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* The test sets of a cross validation never overlap
Disjoint == \A k \in DOMAIN splits : \A f, g \in DOMAIN splits[k] : f # g => splits[k][f] \cap splits[k][g] = {}
\* Models are only replaced by being fitted, and files only change when something happens to them
Persistent == [][\A f \in DOMAIN store : (f \notin DOMAIN store' \/ store'[f] # store[f]) => Op.op \in {"fit", "damage"}]_vars
=============================================================================
