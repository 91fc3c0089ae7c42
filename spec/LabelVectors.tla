----------------------------- MODULE LabelVectors ----------------------------
(* The set of label vectors a model remembers: one step per training example. *)
EXTENDS Rules, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, e, seen   \* seen: label vector -> frequency
vars == <<c, e, seen>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ e = 0 /\ seen = <<>>
Read == /\ e < Len(Case.y)
        /\ e' = e + 1
        /\ LET v == Range(Case.y[e + 1]) IN
           seen' = IF v \in DOMAIN seen THEN [seen EXCEPT ![v] = @ + 1] ELSE (v :> 1) @@ seen
        /\ UNCHANGED c
Recorded == [i \in DOMAIN Case.vecs |-> Range(Case.vecs[i])]
Verdict == IF Range(Recorded) # DOMAIN seen THEN "vectors"
           ELSE IF Len(Case.vecs) # Cardinality(DOMAIN seen) THEN "duplicates"
           ELSE IF \E i \in DOMAIN Recorded : Case.freqs[i] # seen[Recorded[i]] THEN "frequencies"
           ELSE "ok"
Finish == /\ e = Len(Case.y)
          /\ e' = e + 1
          /\ Verdict # "ok" => Reject(Case.id, e, Verdict)
          /\ UNCHANGED <<c, seen>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
