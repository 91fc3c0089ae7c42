----------------------------- MODULE Determinism -----------------------------
(* A process that fits models and makes predictions, one operation per step.  *)
(* The outcome of an operation is a function of its key (data, parameters and *)
(* random state) alone: not of the number of threads, of the schedule, or of  *)
(* what has been done before. At most the preferred number of threads is used.*)
EXTENDS Rules, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, h, known
vars == <<c, h, known>>
Case == Cases[c]
Op == Case.ops[h + 1]

Init == c \in 1..Len(Cases) /\ h = 0 /\ known = <<>>

Verdict == IF Op.team > Op.threads THEN "threads"
           ELSE IF Op.key \in DOMAIN known /\ known[Op.key] # Op.res THEN "differs: " \o Op.what
           ELSE "ok"
Do == /\ h < Len(Case.ops)
      /\ h' = h + 1
      /\ Verdict # "ok" => Reject(Case.id, h, Verdict)
      /\ known' = IF Op.key \in DOMAIN known THEN known ELSE (Op.key :> Op.res) @@ known
      /\ UNCHANGED c
Next == Do
Spec == Init /\ [][Next]_vars
\* Outcomes that have been observed are never revised
Stable == [][\A k \in DOMAIN known : known'[k] = known[k]]_vars
=============================================================================
