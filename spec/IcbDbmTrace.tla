---------------------------- MODULE IcbDbmTrace ----------------------------
(* Recorded executions of the database code against IcbDbm, and the file
   operations of its saves against IcbFs. *)
EXTENDS IcbDbm, IcbFs, Json, IOUtils

Traces == JsonDeserialize("traces.json")
VARIABLES k, i, s, fs, ok

Set(q) == {q[j] : j \in 1..Len(q)}
Cut == Traces[k].cut
Store(j) == [m |-> j.m, l |-> [x \in DOMAIN j.l |-> Set(j.l[x])]]
Answer(o) == IF o.t = "lload" THEN [list |-> Set(o.ret.list)] ELSE o.ret
\* a list holds a value once
Once(o) == (o.t = "lload" => Cardinality(Set(o.ret.list)) = Len(o.ret.list))
           /\ ("disk" \in DOMAIN o /\ o.disk.ok => \A x \in DOMAIN o.disk.st.l : Cardinality(Set(o.disk.st.l[x])) = Len(o.disk.st.l[x]))
OnDisk(d, y) == d.private /\ d.ok = y.ok /\ (d.ok => Same(Store(d.st), y.st))
Init == k \in 1..Len(Traces) /\ i = 1 /\ s = {Init0} /\ fs = FsInit(Traces[k].main) /\ ok = TRUE
\* where the file was not looked at there may be several states the database can be in
Fit(o) == UNION {{p[1] : p \in {q \in Succ(x, o, Cut) : q[2] = Answer(o) /\ Once(o) /\ ("disk" \in DOMAIN o => OnDisk(o.disk, q[1].disk))}} : x \in {y \in s : Can(y, o)}}
Next == /\ ok /\ i <= Len(Traces[k].steps)
        /\ LET o == Traces[k].steps[i]
               f == FsRun(fs, o.ev) IN
           IF Fit(o) = {} \/ ~FsSafe(f)
           THEN /\ ok' = FALSE /\ UNCHANGED <<s, fs>>
                /\ PrintT("MISMATCH " \o ToJson([trace |-> k, step |-> i,
                      what |-> IF Fit(o) = {} THEN "result or file" ELSE f.bad,
                      expected |-> UNION {{[ret |-> p[2], disk |-> p[1].disk] : p \in Succ(x, o, Cut)} : x \in s}]))
           ELSE /\ s' = Fit(o) /\ ok' = TRUE
                /\ fs' = [f EXCEPT !.fd = IF o.t = "die" THEN << >> ELSE @]
        /\ i' = i + 1 /\ k' = k
        /\ IF ok' /\ i' > Len(Traces[k].steps) THEN PrintT("DONE " \o ToString(k)) ELSE TRUE
=============================================================================
