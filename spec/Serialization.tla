---------------------------- MODULE Serialization ----------------------------
(* Estimators as objects on a heap that are created, copied (by serializing   *)
(* and deserializing them, or parts of them), modified, dropped and observed. *)
(* A copy is independent of its source and behaves the same: it visits the    *)
(* same rules in the same order, reports the same numbers, has the same label *)
(* vectors and calibration maps, and makes the same predictions as any other  *)
(* copy with the same number of used rules.                                   *)
EXTENDS Rules, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, h, heap, memory
vars == <<c, h, heap, memory>>

Case == Cases[c]
Op == Case.ops[h + 1]

Init == c \in 1..Len(Cases) /\ h = 0 /\ heap = <<>> /\ memory = <<>>

\* The rules in the order they are visited, given regular rules `r` and default rules `d` (at most one)
Order(m) == IF m.first = 1 THEN m.d \o m.r ELSE m.r \o m.d
NumUsed(m) == IF m.used = 0 THEN Len(Order(m)) ELSE m.used
\* If the default rule does not take precedence, it comes after the last used regular rule
UsedOrder(m) == IF m.first = 1 THEN SubSeq(Order(m), 1, NumUsed(m))
                ELSE SubSeq(m.r, 1, NumUsed(m) - Len(m.d)) \o m.d

Create == /\ Op.op = "create"
          /\ heap' = (Op.dst :> [r |-> Op.r, d |-> Op.d, first |-> Op.first, used |-> Op.used]) @@ heap
          /\ UNCHANGED memory
Copy == /\ Op.op = "copy"
        /\ heap' = (Op.dst :> heap[Op.src]) @@ heap
        /\ UNCHANGED memory
Use == /\ Op.op = "use"
       /\ heap' = [heap EXCEPT ![Op.obj].used = Op.k]
       /\ UNCHANGED memory
Drop == /\ Op.op = "drop"
        /\ heap' = [o \in DOMAIN heap \ {Op.obj} |-> heap[o]]
        /\ UNCHANGED memory

ModelVerdict(m) ==
    IF Op.n # Len(Order(m)) THEN "number of rules"
    ELSE IF Op.nu # NumUsed(m) THEN "number of used rules"
    ELSE IF Op.rules # Order(m) THEN "rules"
    ELSE IF Op.usedrules # UsedOrder(m) THEN "used rules"
    ELSE "ok"
Look == /\ Op.op = "look"
        /\ LET v == ModelVerdict(heap[Op.obj]) IN v # "ok" => Reject(Case.id, h, v)
        /\ UNCHANGED <<heap, memory>>

\* `what`: a kind of prediction with a restriction of the number of rules, or a part of the estimator
Observe == /\ Op.op = "observe"
           /\ LET key == <<Op.what, IF Op.model = 1 THEN NumUsed(heap[Op.obj]) ELSE 0>> IN
              IF key \in DOMAIN memory
              THEN /\ memory[key] # Op.res => Reject(Case.id, h, Op.what)
                   /\ UNCHANGED memory
              ELSE memory' = (key :> Op.res) @@ memory
           /\ UNCHANGED heap

Next == /\ h < Len(Case.ops)
        /\ Create \/ Copy \/ Use \/ Drop \/ Look \/ Observe
        /\ h' = h + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* Operations on one object never affect others
Independent == [][\A o \in DOMAIN heap \cap DOMAIN heap' :
                     heap[o] # heap'[o] => Op.op \in {"use", "create", "copy"} /\ (IF Op.op = "use" THEN Op.obj ELSE Op.dst) = o]_vars
=============================================================================
