-------------------------- MODULE ExperimentDesign --------------------------
(* Experiments (2-fold cross validation) that share a directory for models    *)
(* and a directory for parameters: whatever happens to the files in between,  *)
(* and wherever a run is killed, the model that is used for a fold has been   *)
(* fitted to the training examples of this fold. Prints all histories, which  *)
(* are replayed into the real program (Experiment.tla judges them).           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxSteps, Generate

Folds == 1..2
VARIABLES models,  \* content of model files: absent, broken (not a model of the learner), or fitted for a fold with parameters
          params,  \* content of parameter files: absent, or parameters
          hist,    \* events so far
          todo,    \* folds that the current run must still perform
          cfg,     \* current run: parameters given, whether parameters are read/written, folds until it is killed (0: never)
          used     \* model that has been used last, and the fold it has been used for
vars == <<models, params, hist, todo, cfg, used>>

Absent == [kind |-> "absent", fold |-> 0, par |-> 0]
Broken == [kind |-> "broken", fold |-> 0, par |-> 0]
Fitted(f, p) == [kind |-> "fitted", fold |-> f, par |-> p]
NoRun == [par |-> 0, read |-> FALSE, write |-> FALSE, kill |-> 0]

Init == /\ models = [f \in Folds |-> Absent] /\ params = [f \in Folds |-> 0]
        /\ hist = <<>> /\ todo = <<>> /\ cfg = NoRun /\ used = [model |-> Absent, fold |-> 0, par |-> 0]

Idle == todo = <<>>
Event(a, f, how) == /\ Len(hist) < MaxSteps
                    /\ hist' = Append(hist, <<a, f, how>>)
                    /\ Generate => PrintT(<<"GEN", Append(hist, <<a, f, how>>)>>)
FoldsOf(f) == IF f = 0 THEN <<1, 2>> ELSE <<f>>
Start(a, f, new) == /\ Idle /\ Event(a, f, "") /\ todo' = FoldsOf(f) /\ cfg' = new /\ UNCHANGED <<models, params, used>>
Run(f) == Start("run", f, [NoRun EXCEPT !.par = 1])
Store(f) == Start("store", f, [NoRun EXCEPT !.par = 1, !.read = TRUE, !.write = TRUE])
Tuned(f) == Start("tuned", f, [NoRun EXCEPT !.par = 2, !.read = TRUE])
\* A run of all folds that is killed when the k-th model is to be fitted
Kill(k) == /\ Idle /\ Event("kill", k, "") /\ todo' = <<1, 2>> /\ cfg' = [NoRun EXCEPT !.par = 1, !.kill = k]
           /\ UNCHANGED <<models, params, used>>
Damage(f, how) == /\ Idle /\ Event("damage", f, how)
                  /\ models' = [models EXCEPT ![f] = IF how = "delete" \/ (how = "truncate" /\ @ = Absent) THEN Absent ELSE Broken]
                  /\ UNCHANGED <<params, todo, cfg, used>>

Parameters(f) == IF cfg.read /\ params[f] # 0 THEN params[f] ELSE cfg.par
Fold == Head(todo)
Perform ==
    /\ ~Idle
    /\ LET p == Parameters(Fold) IN
       /\ params' = IF cfg.write THEN [params EXCEPT ![Fold] = p] ELSE params
       /\ IF models[Fold].kind = "fitted"
          THEN /\ used' = [model |-> models[Fold], fold |-> Fold, par |-> p]
               /\ todo' = Tail(todo)
               /\ UNCHANGED <<models, cfg>>
          ELSE IF cfg.kill = 1
          THEN /\ todo' = <<>> /\ cfg' = NoRun
               /\ UNCHANGED <<models, used>>
          ELSE /\ models' = [models EXCEPT ![Fold] = Fitted(Fold, p)]
               /\ used' = [model |-> Fitted(Fold, p), fold |-> Fold, par |-> p]
               /\ todo' = Tail(todo)
               /\ cfg' = IF cfg.kill > 0 THEN [cfg EXCEPT !.kill = @ - 1] ELSE cfg
    /\ UNCHANGED hist
Next == \/ \E f \in 0..2 : Run(f) \/ Store(f) \/ Tuned(f)
        \/ \E k \in 1..2 : Kill(k)
        \/ \E f \in Folds, how \in {"delete", "truncate", "garbage", "foreign"} : Damage(f, how)
        \/ Perform
Spec == Init /\ [][Next]_vars

Matching == used.fold > 0 => used.model.kind = "fitted" /\ used.model.fold = used.fold
\* Stored parameters take precedence over those that are given
Precedence == \A f \in Folds : params[f] \in 0..1
\* A model file is only replaced if it cannot be used
Kept == [][\A f \in Folds : models[f].kind = "fitted" /\ models'[f] # models[f] => hist' # hist /\ hist'[Len(hist')][1] = "damage"]_vars
=============================================================================
