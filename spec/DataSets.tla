------------------------------ MODULE DataSets ------------------------------
(* Data sets that are read from ARFF files, one-hot encoded, and written to   *)
(* files again. A file has attributes (their names and types) and rows with   *)
(* one value per attribute, where missing values are NaN, and values of       *)
(* nominal attributes are the positions (starting at 0) of declared values.   *)
(* One step per call of a function, the state holds the data set that has     *)
(* been obtained last, the meta data and the encoder in use.                  *)
(* Case: files |-> attributes, rows, outs (names of outputs as given by XML)  *)
EXTENDS Encoding, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, h,
          data,   \* x and y that have been obtained last
          meta,   \* attributes of the file that meta data has been obtained from
          enc     \* encoder
vars == <<c, h, data, meta, enc>>

Case == Cases[c]
Op == Case.ops[h + 1]

\* ---- content of files ----
File == Case.files[Op.file]
Attrs == File.attrs
Outs == {i \in DOMAIN Attrs : Attrs[i].name \in Range(File.outs)}
Ints(S) == LET RECURSIVE sorted(_)
               sorted(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE m \in T : \A v \in T : m <= v IN <<m>> \o sorted(T \ {m})
           IN sorted(S)
Columns(row, cols) == [k \in DOMAIN cols |-> row[cols[k]]]
OutCols == Ints(Outs)
FeatureCols == Ints(DOMAIN Attrs \ Outs)
X == [i \in DOMAIN File.rows |-> [k \in DOMAIN FeatureCols |-> FSingle(File.rows[i][FeatureCols[k]])]]
Y == [i \in DOMAIN File.rows |-> Columns(File.rows[i], OutCols)]
FeaturesOf(attrs, outs) == LET fs == Ints({i \in DOMAIN attrs : attrs[i].name \notin outs}) IN
                           [k \in DOMAIN fs |-> attrs[fs[k]]]
Meta == [features |-> FeaturesOf(Attrs, Range(File.outs)), outputs |-> [k \in DOMAIN OutCols |-> Attrs[OutCols[k]].name]]
Nominal == {k \in DOMAIN meta.features : meta.features[k].type = "nominal"}

SameRow(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Same(a[k], b[k])
SameMatrix(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameRow(a[i], b[i])
DataVerdict(obs, x, y) ==
    IF Len(obs.x) # Len(x) \/ Len(obs.y) # Len(y) THEN "number of examples"
    ELSE IF \E i \in DOMAIN x : Len(obs.x[i]) # Len(x[i]) THEN "number of features"
    ELSE IF \E i \in DOMAIN y : Len(obs.y[i]) # Len(y[i]) THEN "number of outputs"
    ELSE IF ~SameMatrix(obs.x, x) THEN "feature values"
    ELSE IF ~SameMatrix(obs.y, y) THEN "ground truth"
    ELSE "ok"
MetaVerdict(obs, m) ==
    IF obs.outputs # m.outputs THEN "names of outputs"
    ELSE IF [k \in DOMAIN obs.features |-> obs.features[k].name] # [k \in DOMAIN m.features |-> m.features[k].name]
    THEN "names of features"
    ELSE IF [k \in DOMAIN obs.features |-> obs.features[k].type] # [k \in DOMAIN m.features |-> m.features[k].type]
    THEN "types of features"
    ELSE IF \E k \in DOMAIN m.features : m.features[k].type = "nominal" /\ obs.features[k].values # m.features[k].values
    THEN "nominal values"
    ELSE "ok"
Both(v, w) == IF v # "ok" THEN v ELSE w

\* ---- transitions ----
Init == c \in 1..Len(Cases) /\ h = 0 /\ data = [x |-> <<>>, y |-> <<>>] /\ meta = [features |-> <<>>, outputs |-> <<>>] /\ enc = <<>>
Ok(v) == v # "ok" => Reject(Case.id, h, v)

Load == /\ Op.op = "load"
        /\ Ok(Both(DataVerdict(Op, X, Y), MetaVerdict(Op, Meta)))
        /\ data' = [x |-> X, y |-> Y] /\ meta' = Meta
        /\ UNCHANGED enc
\* A file with the same attributes, e.g., test data
LoadOther == /\ Op.op = "other"
             /\ Ok(DataVerdict(Op, X, Y))
             /\ data' = [x |-> X, y |-> Y]
             /\ UNCHANGED <<meta, enc>>
\* Derive an encoding from the current data and apply it
Fit == /\ Op.op = "fit"
       /\ LET e == Encoder(data.x, Nominal)
              x == IF Nominal = {} THEN data.x ELSE Encode(data.x, e) IN
          /\ Ok(Both(DataVerdict(Op, x, data.y), IF (Op.encoded = 1) # (Nominal # {}) THEN "encoder" ELSE "ok"))
          /\ enc' = e
          /\ data' = [data EXCEPT !.x = x]
       /\ UNCHANGED meta
Apply == /\ Op.op = "apply"
         /\ LET x == IF Nominal = {} THEN data.x ELSE Encode(data.x, enc) IN
            /\ Ok(DataVerdict(Op, x, data.y))
            /\ data' = [data EXCEPT !.x = x]
         /\ UNCHANGED <<meta, enc>>
\* Save the current data and load it again
Names(prefix, n) == [k \in 1..n |-> prefix \o ToString(k - 1)]
Width(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Save == /\ Op.op = "save"
        /\ LET m == [features |-> [k \in 1..Width(data.x) |-> [name |-> Names("X", k)[k], type |-> "numeric"]],
                     outputs |-> Names("y", Width(data.y))] IN
           Ok(Both(DataVerdict(Op, [i \in DOMAIN data.x |-> [k \in DOMAIN data.x[i] |-> FSingle(data.x[i][k])]], data.y),
                   MetaVerdict(Op, IF Op.keep = 1 THEN meta ELSE m)))
        /\ UNCHANGED <<data, meta, enc>>

Next == /\ h < Len(Case.ops) /\ h' = h + 1 /\ UNCHANGED c
        /\ Load \/ LoadOther \/ Fit \/ Apply \/ Save
Spec == Init /\ [][Next]_vars
=============================================================================
