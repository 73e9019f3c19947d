----------------------------- MODULE IcbTrace -----------------------------
(* Are recorded executions of the real server behaviours of the specification?
   traces.json is an array of executions: the files and database it started
   with, and the steps: each an action with what every client was sent and
   which connections were closed.  Each execution is one behaviour of TLC. *)
EXTENDS IcbProps

Traces == JsonDeserialize("traces.json")
VARIABLES k, i, s, ok,
    held            \* the clients that do not read: what they have been sent since, and whether they have been disconnected

\* the properties to evaluate on every step
PropIds == ToSet(JsonDeserialize("props.json"))

\* the packets and closed connections recorded are those of the specification
Agrees(x, o) ==
    /\ SentTo(x) \ DOMAIN held = {o.out[j][1] : j \in 1..Len(o.out)}
    /\ \A j \in 1..Len(o.out) : Got(x, o.out[j][1]) = o.out[j][2]
    /\ x.closed \ DOMAIN held = {o.closed[j] : j \in 1..Len(o.closed)}
    /\ x.dead = o.dead
    /\ IF "jr" \in DOMAIN o THEN x.jr = o.jr ELSE TRUE           \* what the log says
    /\ FileOK(s, x, o)
    /\ IF o.t = "resume" THEN Delivered(held[o.n].owed, o.got, held[o.n].gone) /\ o.eof = held[o.n].gone ELSE TRUE

\* a client that does not read does not notice either that it has been disconnected
Unnoticed(o) == o.t \in {"bytes", "fin", "rst"} /\ o.n \in DOMAIN held /\ held[o.n].gone
Reading(o) == IF o.t \in {"restart", "tool", "crash"} \/ o.dead THEN {} ELSE DOMAIN held \ (IF o.t \in {"resume", "rst"} THEN {o.n} ELSE {})
Hold(x, o) == [n \in Reading(o) \cup (IF o.t = "pause" THEN {o.n} ELSE {}) |->
                 IF n \in DOMAIN held THEN [owed |-> held[n].owed \o Got(x, n), gone |-> held[n].gone \/ n \in x.closed]
                 ELSE [owed |-> << >>, gone |-> FALSE]]

\* a caller is turned away only when there is no place left (the lowest few never are places for callers)
Full(x) == \A n \in 10..MaxSlot : n \in DOMAIN x.u
\* can this action happen here at all?
Possible(x, o) == IF o.t = "conn" THEN o.n \notin DOMAIN x.u /\ o.n \in 0..MaxSlot
                  ELSE IF o.t = "refused" THEN Full(x)
                  ELSE IF o.t = "crash" THEN CrashOK(x, o)
                  ELSE IF o.t = "tool" THEN o.tool.rc = 0 /\ o.tool.whole /\ Tools!Tool(x.db, o.tool).db = [y \in DOMAIN o.tool.db |-> o.tool.db[y]] ELSE TRUE

Report(x, o) ==
    PrintT("MISMATCH " \o ToJson([trace |-> k, step |-> i,
        expected |-> [j \in 1..Len(x.out) |-> <<x.out[j][1], x.out[j][2]>>],
        closed |-> x.closed, dead |-> x.dead, jr |-> x.jr]))

Start0(t) == Start(t.now, t.db, t.cfg)
Init == /\ k \in 1..Len(Traces)
        /\ i = 1
        /\ s = Start0(Traces[k])
        /\ ok = TRUE
        /\ held = << >>
Next == /\ ok /\ i <= Len(Traces[k].steps)
        /\ LET o == Traces[k].steps[i] IN
           IF ~Possible(s, o)
           THEN /\ ok' = FALSE /\ s' = s /\ held' = held
                /\ PrintT("MISMATCH " \o ToJson([trace |-> k, step |-> i, impossible |-> TRUE]))
           ELSE /\ s' = IF Unnoticed(o) THEN Fresh(s) ELSE Step(s, o)
                /\ held' = Hold(s', o)
                /\ ok' = Agrees(s', o)
                /\ IF ok' THEN TRUE ELSE Report(s', o)
                /\ LET b == Broken(PropIds, s, o, s') IN
                   IF b = {} THEN TRUE
                   ELSE PrintT("PROPFAIL " \o ToJson([trace |-> k, step |-> i, props |-> b]))
        /\ i' = i + 1
        /\ k' = k
        /\ IF ok' /\ i' > Len(Traces[k].steps) THEN PrintT("DONE " \o ToString(k)) ELSE TRUE
=============================================================================
