----------------------------- MODULE Incremental -----------------------------
(* An incremental predictor: the client requests a number of further rules,   *)
(* the predictor considers as many of them as remain and returns the same as  *)
(* an ordinary prediction that is restricted to the rules considered so far.  *)
(* The ordinary predictions (Case.plain[k]: prediction with the first k       *)
(* rules) have been recorded from the real code as well; C01 and C02 tie them *)
(* to the rules.                                                              *)
EXTENDS Rules, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, considered, h
vars == <<c, considered, h>>
Case == Cases[c]
Used(k) == IF k.used = 0 THEN k.nrules ELSE Min2(k.used, k.nrules)
Total(k) == IF k.max = 0 THEN Used(k) ELSE Min2(k.max, Used(k))

Same(a, b) == /\ Len(a) = Len(b)
              /\ \A e \in DOMAIN a : Len(a[e]) = Len(b[e]) /\ \A o \in DOMAIN a[e] : FClose(a[e][o], b[e][o], 1024)

Init == /\ c \in 1..Len(Cases)
        /\ considered = 0
        /\ h = 0
        /\ LET k == Cases[c] IN
           (k.start.rem # Total(k) \/ (k.start.next = 1) # (Total(k) > 0)) => Reject(k.id, 0, "start")

Verdict(ob, k) ==
    IF ob.rem # Total(Case) - k THEN "remaining"
    ELSE IF (ob.next = 1) # (k < Total(Case)) THEN "has_next"
    ELSE IF ~Same(ob.res, Case.plain[k]) THEN "result"
    ELSE "ok"

ApplyNext ==
    /\ h < Len(Case.hist)
    /\ considered < Total(Case)
    /\ LET ob == Case.hist[h + 1]
           k == Min2(Total(Case), considered + ob.step) IN
       /\ LET v == Verdict(ob, k) IN v # "ok" => Reject(Case.id, h + 1, v)
       /\ considered' = k
    /\ h' = h + 1
    /\ UNCHANGED c

Next == ApplyNext
Spec == Init /\ [][Next]_vars
Bounded == considered \in 0..Total(Case)
Progress == [][considered' > considered]_vars
=============================================================================
