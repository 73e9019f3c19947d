------------------------------ MODULE IcbMC ------------------------------
(* Bounded model checking of the specification.  scope.json names a small set
   of clients and of things they do:
     cfg, now, first   the files, the time and the first free slot
     prefix            actions done before exploration begins
     acts              the actions: [t |-> "on", c, d] connect client c and send d,
                       [t |-> "pkt", c, d], "fin", "rst", [t |-> "tick", d],
                       [t |-> "choke", c, cap], [t |-> "room", c, k], [t |-> "unchoke", c],
                       [t |-> "restart"], [t |-> "cfg", cfg], [t |-> "tool", tool]
     depth             how many actions deep
   Every transition is checked against PropOK for the properties of props.json,
   and printed as an edge for the tours that are replayed on the real server. *)
EXTENDS IcbProps, TLCExt

Scope == JsonDeserialize("scope.json")
PropIds == ToSet(JsonDeserialize("props.json"))
VARIABLES s, cl, bad
vars == <<s, cl, bad>>

Clients == 1..Scope.clients
FreeSlot(x) == CHOOSE n \in Scope.first..MaxSlot : n \notin DOMAIN x.u /\ \A m \in Scope.first..(n - 1) : m \in DOMAIN x.u
Framed(p) == Chr(Len(p) + 1) \o p \o NUL

Can(x, c, a) ==
    /\ ~x.dead
    /\ CASE a.t = "on" -> c[a.c] = 0
         [] a.t \in {"pkt", "fin", "rst", "bytes"} -> c[a.c] # 0
         [] a.t = "choke" -> c[a.c] # 0 /\ c[a.c] \notin DOMAIN x.chan
         [] a.t \in {"room", "unchoke"} -> c[a.c] # 0 /\ c[a.c] \in DOMAIN x.chan
         [] OTHER -> TRUE

\* the elementary actions of a
Elem(x, c, a) ==
    CASE a.t = "on" -> LET n == FreeSlot(x) IN
            <<[t |-> "conn", n |-> n, tls |-> FALSE] @@ (IF "ip" \in DOMAIN a THEN [ip |-> a.ip, node |-> a.node, at |-> a.at] ELSE << >>), [t |-> "bytes", n |-> n, d |-> Framed("z")]>>
            \o (IF a.d = "" THEN << >> ELSE <<[t |-> "bytes", n |-> n, d |-> Framed(a.d)]>>)
      [] a.t = "pkt" -> <<[t |-> "bytes", n |-> c[a.c], d |-> Framed(a.d)]>>
      [] a.t = "bytes" -> <<[t |-> "bytes", n |-> c[a.c], d |-> a.d]>>
      [] a.t \in {"fin", "rst", "unchoke"} -> <<[t |-> a.t, n |-> c[a.c]]>>
      [] a.t = "choke" -> <<[t |-> a.t, n |-> c[a.c], cap |-> a.cap]>>
      [] a.t = "room" -> <<[t |-> a.t, n |-> c[a.c], k |-> a.k]>>
      [] a.t = "tick" -> <<[t |-> "tick", d |-> a.d]>>
      [] a.t = "cfg" -> <<[t |-> "cfg", cfg |-> a.cfg]>>
      [] a.t = "tool" -> <<[t |-> "tool", tool |-> a.tool]>>
      [] OTHER -> <<[t |-> a.t]>>

\* <<state, broken properties>> after the elementary actions
RECURSIVE Apply(_, _, _, _)
Apply(x, q, i, b) ==
    IF i > Len(q) \/ x.dead THEN <<x, b>>
    ELSE IF q[i].t \in {"bytes", "fin", "rst"} /\ q[i].n \notin DOMAIN x.u THEN Apply(x, q, i + 1, b)
    ELSE LET y == Step(x, q[i]) IN Apply(y, q, i + 1, b \cup Broken(PropIds, x, q[i], y))

Slots(y, c, a, x) ==
    LET c1 == IF a.t = "on" THEN [c EXCEPT ![a.c] = FreeSlot(x)] ELSE c
    IN [j \in Clients |-> IF a.t \notin {"restart", "tool"} /\ c1[j] # 0 /\ c1[j] \in DOMAIN y.u THEN c1[j] ELSE 0]

Files == \E i \in 1..Len(Scope.acts) : Scope.acts[i].t = "cfg"
\* what of a state can make a difference later: times count relative to now
Ago(y, x) == MinI(y.now - x, 20000)
Suffix(k, e) == Len(k) >= Len(e) /\ SubSeq(k, Len(k) - Len(e) + 1, Len(k)) = e
TimeKey(k) == Suffix(k, ".signon") \/ Suffix(k, ".signoff")
Cut(y) == [y EXCEPT !.out = << >>, !.jr = << >>, !.closed = {}, !.st = << >>, !.cfg = IF Files THEN <<@.deny, @.perms, @.motd, @.news>> ELSE << >>, !.now = 0,
                    !.die = IF @ = NoDie THEN @ ELSE @ - y.now,
                    !.db = Restrict_(@, {k \in DOMAIN @ : ~TimeKey(k)}),
                    !.g = [i \in DOMAIN y.g |-> [y.g[i] EXCEPT !.mt = IF @ <= 0 THEN @ ELSE @ - y.now]],
                    !.u = [n \in DOMAIN y.u |-> [y.u[n] EXCEPT !.rc = MinI(@, 4), !.ton = 0, !.tgroup = 0,
                               !.trecv = Ago(y, @), !.lat = Ago(y, @), !.ping = Ago(y, @)]]]
View == <<Cut(s), cl, bad>>
StateKey(y, c) == TLCFP(<<Cut(y), c>>)

RECURSIVE Prefix(_, _, _)
Prefix(x, c, i) ==
    IF i > Len(Scope.prefix) THEN <<x, c>>
    ELSE LET a == Scope.prefix[i]
             y == Apply(x, Elem(x, c, a), 1, {})[1]
         IN Prefix(y, Slots(y, c, a, x), i + 1)

Init == LET p == Prefix(Start(Scope.now, Scope.db, Scope.cfg), [j \in Clients |-> 0], 1) IN
        /\ s = p[1] /\ cl = p[2] /\ bad = {}
        /\ PrintT("INIT " \o ToString(StateKey(s, cl)))
Next == \E i \in 1..Len(Scope.acts) :
          LET a == Scope.acts[i] IN
          /\ Can(s, cl, a)
          /\ TLCGet("level") <= Scope.depth
          /\ LET r == Apply(s, Elem(s, cl, a), 1, {}) IN
             /\ s' = r[1] /\ bad' = r[2] /\ cl' = Slots(r[1], cl, a, s)
             /\ IF bad' = {} THEN TRUE ELSE PrintT("BROKEN " \o ToJson(bad'))
          /\ PrintT("EDGE " \o ToString(StateKey(s, cl)) \o " " \o ToString(i) \o " " \o ToString(StateKey(s', cl')))
Holds == bad = {}
=============================================================================
