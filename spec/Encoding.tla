------------------------------ MODULE Encoding ------------------------------
(* One-hot encoding of nominal features: the indicators of the values that    *)
(* occur in the data the encoding has been derived from, followed by all      *)
(* remaining features. Values are binary64 numbers.                           *)
EXTENDS Rules

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE m \in S : \A v \in S : FLe(m, v) IN <<m>> \o Ascending(S \ {m})
\* The distinct values of a feature in ascending order, missing ones are last
Categories(x, f) == LET S == {x[i][f] : i \in DOMAIN x} IN
                    Ascending({v \in S : ~FIsNaN(v)})
                    \o (IF \E v \in S : FIsNaN(v) THEN <<CHOOSE v \in S : FIsNaN(v)>> ELSE <<>>)
Encoder(x, nominal) == [f \in nominal |-> Categories(x, f)]
Same(a, b) == (FIsNaN(a) /\ FIsNaN(b)) \/ FEq(a, b)
Indicators(v, cats) == [k \in DOMAIN cats |-> IF Same(v, cats[k]) THEN One ELSE Zero]
RECURSIVE EncodeFrom(_, _, _)
EncodeFrom(row, enc, f) == IF f > Len(row) THEN <<>>
                           ELSE (IF f \in DOMAIN enc THEN Indicators(row[f], enc[f]) ELSE <<>>) \o EncodeFrom(row, enc, f + 1)
RECURSIVE RestFrom(_, _, _)
RestFrom(row, enc, f) == IF f > Len(row) THEN <<>>
                         ELSE (IF f \in DOMAIN enc THEN <<>> ELSE <<row[f]>>) \o RestFrom(row, enc, f + 1)
EncodeRow(row, enc) == EncodeFrom(row, enc, 1) \o RestFrom(row, enc, 1)
Encode(x, enc) == [i \in DOMAIN x |-> EncodeRow(x[i], enc)]
=============================================================================
