------------------------------ MODULE IcbDbm ------------------------------
(* The registration database, as the two layers that keep it offer it: a map
   from keys to values (icb_dbm) that is changed in memory and saved to a file
   as a whole, and on top of it the server's named values and lists of values
   (icbdb), whose every change is saved before the call returns.

   A store is [m, l]: the values and the lists (a list is a set of values).
   A state is [open, multi, mem, disk]: is the database open, is it shared with
   other programs (then it is closed after every call), the store in memory,
   and [ok, st]: is the file a whole database, and which.

   Succ(s, a) is the set of <<next state, result>> an action may have: saving
   under faults is the only thing that leaves a choice. *)
EXTENDS IcbText, FiniteSets

None == [found |-> FALSE]
Some(v) == [found |-> TRUE, v |-> v]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
SamePuts(a, b) == DOMAIN a = DOMAIN b /\ \A x \in DOMAIN a : a[x] = b[x]
Same(a, b) == SamePuts(a.m, b.m) /\ SamePuts(a.l, b.l)

NoStore == [m |-> << >>, l |-> << >>]
Init0 == [open |-> FALSE, multi |-> FALSE, mem |-> NoStore, disk |-> [ok |-> TRUE, st |-> NoStore]]
Closed(s) == [s EXCEPT !.open = FALSE, !.mem = NoStore]
Disk(s, st) == [s EXCEPT !.disk = [ok |-> TRUE, st |-> st]]

\* saving the memory of an open database, with or without something going wrong on the way
Save(s, fault) == IF ~s.open THEN {s} ELSE IF fault THEN {s, Disk(s, s.mem)} ELSE {Disk(s, s.mem)}

\* ---- the map
DbmSucc(s, a) ==
    CASE a.t = "open" -> IF ~s.disk.ok THEN {<<s, -1>>}
                         ELSE {<<[s EXCEPT !.open = TRUE, !.mem = s.disk.st], 0>>}
      \* results: 0 done, 1 refused because there already, -1 failed
      [] a.t = "store" -> IF a.big THEN {<<s, -1>>}      \* what could not be read back is not taken
                          ELSE IF ~a.replace /\ a.k \in DOMAIN s.mem.m THEN {<<s, 1>>}
                          ELSE {<<[s EXCEPT !.mem.m = Put(@, a.k, a.v)], 0>>}
      [] a.t = "fetch" -> {<<s, IF a.k \in DOMAIN s.mem.m THEN Some(s.mem.m[a.k]) ELSE None>>}
      [] a.t = "delete" -> IF a.k \in DOMAIN s.mem.m THEN {<<[s EXCEPT !.mem.m = Del(@, a.k)], 0>>}
                           ELSE {<<s, -1>>}
      \* a save that reports success has saved; one that fails loses nothing of what is in memory
      [] a.t = "sync" -> {<<Disk(s, s.mem), 0>>} \cup (IF a.fault THEN {<<x, -1>> : x \in Save(s, TRUE)} ELSE {})
      [] a.t = "close" -> {<<Closed(x), 0>> : x \in Save(s, a.fault)}

\* ---- named values and lists
IOpen(s) == IF s.open \/ ~s.disk.ok THEN s ELSE [s EXCEPT !.open = TRUE, !.mem = s.disk.st]
IClose(s, fault) == IF s.multi THEN {Closed(x) : x \in Save(s, fault)} ELSE Save(s, fault)
Named(a) == Lower(a.c) \o "." \o Lower(a.n)
ListOf(st, k) == IF k \in DOMAIN st.l THEN st.l[k] ELSE {}
SetList(st, k, vs) == [st EXCEPT !.l = IF vs = {} THEN Del(@, k) ELSE Put(@, k, vs)]
\* what the call does to the store
IStore(st, a) ==
    LET k == Named(a) IN
    CASE a.t = "iset" -> [st EXCEPT !.m = Put(@, k, a.v)]
      [] a.t = "idel" -> [st EXCEPT !.m = Del(@, k)]
      [] a.t = "ladd" -> SetList(st, k, ListOf(st, k) \cup {a.v})
      [] a.t = "ldel" -> SetList(st, k, ListOf(st, k) \ {a.v})
      [] a.t = "lclear" -> SetList(st, k, {})
      [] OTHER -> st
IAnswer(st, a, cut) ==
    CASE a.t = "iget" -> LET k == Named(a) IN
                         IF k \notin DOMAIN st.m THEN None
                         ELSE Some(IF st.m[k] \in DOMAIN cut THEN cut[st.m[k]] ELSE st.m[k])
      [] a.t = "lload" -> [list |-> ListOf(st, Named(a))]
      [] OTHER -> [done |-> TRUE]
IcbActs == {"iget", "iset", "idel", "ladd", "ldel", "lclear", "lload"}
ISucc(s, a, cut) ==
    LET o == IOpen(s) IN
    IF ~o.open THEN {<<s, IAnswer(NoStore, a, cut)>>}
    ELSE {<<x, IAnswer(o.mem, a, cut)>> : x \in IClose([o EXCEPT !.mem = IStore(@, a)], a.fault)}

\* the store that the call would have saved, had it gone through
After(s, op) ==
    LET o == IOpen(s) IN
    IF op.t \in IcbActs THEN (IF o.open THEN IStore(o.mem, op) ELSE o.mem) ELSE s.mem

Succ(s, a, cut) ==
    CASE a.t \in {"open", "store", "fetch", "delete", "sync", "close"} -> DbmSucc(s, a)
      [] a.t \in IcbActs -> ISucc(s, a, cut)
      [] a.t = "multi" -> {<<x, 0>> : x \in IClose([s EXCEPT !.multi = a.on], a.fault)}
      \* the process dies somewhere in a call: the file is what it was, or what the call would have made it
      [] a.t = "die" -> {<<[Closed(x) EXCEPT !.multi = FALSE], 0>> :
                            x \in {s} \cup (IF s.disk.ok /\ (s.open \/ a.op.t \in IcbActs) THEN {Disk(s, After(s, a.op))} ELSE {})}
      \* something cuts the file short, or puts something else in its place
      [] a.t = "damage" -> {<<[s EXCEPT !.disk = [ok |-> FALSE, st |-> NoStore]], 0>>}
      [] a.t = "repair" -> {<<[s EXCEPT !.disk = [ok |-> TRUE, st |-> NoStore]], 0>>}
      [] OTHER -> {}

Can(s, a) ==
    CASE a.t = "open" -> ~s.open
      [] a.t \in {"store", "fetch", "delete", "sync", "close"} -> s.open
      [] a.t = "damage" -> ~s.open /\ s.disk.ok
      [] a.t = "repair" -> ~s.open /\ ~s.disk.ok
      [] a.t = "die" -> a.op.t \in {"sync", "close"} => s.open
      [] OTHER -> TRUE

\* what the database is for, said without the transitions above: the file is always one store as a
\* whole, the one last saved or the one being saved, a damaged one is left for its owner to look at,
\* what was saved is what is found, and the server's changes are saved when the call returns
Whole(s, a, y) ==
    /\ a.t \notin {"damage", "repair"} => y.disk.ok = s.disk.ok
    /\ a.t \in {"fetch", "store", "delete", "open"} => y.disk = s.disk
    /\ a.t \in {"fetch", "sync"} => y.mem = s.mem
    /\ a.t = "open" /\ s.disk.ok => y.mem = s.disk.st
    /\ ~s.disk.ok /\ a.t # "repair" => y.disk = s.disk
    /\ a.t \in IcbActs /\ ~a.fault /\ s.disk.ok => y.disk.st = IStore(IOpen(s).mem, a)
    /\ a.t \in IcbActs /\ a.fault /\ s.disk.ok => y.disk.st \in {s.disk.st, IStore(IOpen(s).mem, a)}
=============================================================================
