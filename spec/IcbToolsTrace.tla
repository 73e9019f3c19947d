--------------------------- MODULE IcbToolsTrace ---------------------------
(* Runs of the real tools on real database files against IcbTools. *)
EXTENDS IcbTools, Json, IOUtils

Traces == JsonDeserialize("traces.json")
VARIABLES k, i, db, ok
Db(j) == [x \in DOMAIN j |-> j[x]]
Same(a, b) == DOMAIN a = DOMAIN b /\ \A x \in DOMAIN a : a[x] = b[x]
Count(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
SaidOK(r, o) ==
    IF ~r.talks \/ o.fault THEN TRUE
    ELSE IF r.order THEN o.said = r.said
    ELSE Len(o.said) = Len(r.said) /\ \A j \in 1..Len(r.said) : Count(o.said, r.said[j]) = Count(r.said, r.said[j])
\* an unreadable file: the tool says so and leaves it as it is
Fits(o) == IF o.damaged THEN o.rc # 0 /\ o.same
           ELSE /\ o.whole /\ (\E d \in Leaves(db, o) : Same(Db(o.db), d)) /\ o.strays = 0
                /\ (~o.fault => o.rc = 0) /\ (o.t = "export" \/ SaidOK(Tool(db, o), o))
Init == k \in 1..Len(Traces) /\ i = 1 /\ db = Db(Traces[k].db) /\ ok = TRUE
Next == /\ ok /\ i <= Len(Traces[k].steps)
        /\ LET o == Traces[k].steps[i] IN
           /\ ok' = Fits(o)
           /\ db' = IF o.damaged THEN db ELSE Db(o.db)
           /\ IF ok' THEN TRUE
              ELSE PrintT("MISMATCH " \o ToJson([trace |-> k, step |-> i, what |-> "result or file",
                          expected |-> LET r == Tool(db, o) IN [db |-> r.db, said |-> r.said]]))
        /\ i' = i + 1 /\ k' = k
        /\ IF ok' /\ i' > Len(Traces[k].steps) THEN PrintT("DONE " \o ToString(k)) ELSE TRUE
=============================================================================
