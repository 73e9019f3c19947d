-------------------------------- MODULE Icb --------------------------------
(* The server as a state machine over what clients do and time:
     conn   a client connects
     bytes  a client sends bytes
     fin    a client closes its connection; rst: it goes away at once
     tick   time passes
     restart  the server is stopped and started again on the same files
     cfg      the administrator changes the server's files
     tool     the server is stopped, a support tool is used on its database, and it is started again
     crash    the server ends somewhere inside a command, and is started again
   Step gives the state after the server has dealt with an action, with all
   packets it sent in out and the connections it closed in closed. *)
EXTENDS IcbUser, IcbNet

(* ---- open messages ---- *)
OpenMsg(s0, n, f) ==
    LET sa == IF s0.u[n].away # "" THEN Stat(s0, n, "Away", "Your away is still set...") ELSE s0
        in1 == s0.u[n].grp = "1"
        same == s0.u[n].trecv = s0.now
        rc == IF ~in1 THEN s0.u[n].rc ELSE IF same THEN s0.u[n].rc + 1 ELSE 0
        sb == [sa EXCEPT !.u[n].rc = rc]
        sc == IF in1 /\ same /\ rc > 2
              THEN Change(StatGroup(Stat(sb, n, "Boot", "No spamming in group 1."), "1", Nobody, "Boot",
                                    s0.u[n].nick \o " was auto-booted for spamming."), n, "ICB", FALSE, TRUE)[1]
              ELSE sb
        s == [sc EXCEPT !.u[n].trecv = s0.now]
        sj == Jot(s, "[OPEN] " \o Str(n))
        i == GroupOf(s, n)
        g == s.g[i]
    IN IF in1 /\ same /\ rc > 2 THEN s         \* said in group 1, not where the user is now
    ELSE IF Len(f) # 1 THEN s
    ELSE IF g.vol = Quiet THEN Err(sj, n, NoQuiet)
    ELSE IF ~MayTalk(s, n, g) THEN
        LET s1 == Err(sj, n, NoTalk) IN
        IF g.mod >= 0 THEN Stat(s1, n, "INFO", "Use \"/m " \o s.u[g.mod].nick \o " may i talk?\" to request permission.")
        ELSE s1
    ELSE IF CountIn(s, g.name) < 2 THEN Err(sj, n, "No one else in group!")
    ELSE OpenTo(sj, n, Hearers(s, n), 1, f[1])

(* ---- login ---- *)
AlnumAll(x) == \A i \in 1..Len(x) : Ord(At(x, i)) \in (48..57) \cup (65..90) \cup (97..122)
RECURSIVE And8(_, _)
And8(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE (IF x % 2 = 1 /\ y % 2 = 1 THEN 1 ELSE 0) + 2 * And8(x \div 2, y \div 2)
\* first line of the permissions file that applies: "none", or its permissions
Perms(s, n, id) ==
    LET hits(p) == IF p.type = "user" THEN EqCI(p.a, id) /\ EqCI(p.b, s.u[n].node)
                   ELSE p.type = "mask" /\ s.u[n].ip # << >> /\ \A i \in 1..4 : And8(s.u[n].ip[i], p.b[i]) = p.a[i]
        S == {i \in 1..Len(s.cfg.perms) : hits(s.cfg.perms[i])}
    IN IF S = {} THEN [deny |-> FALSE, slow |-> FALSE] ELSE s.cfg.perms[LeastOf(S)].perm
DenyLine(s, addr) == LeastOf({i \in 1..Len(s.cfg.deny) : WildMatch(addr, Upper(s.cfg.deny[i][1]))})

RECURSIVE InvitedTo(_, _, _, _)
InvitedTo(s, n, q, k) ==
    IF k > Len(q) THEN s
    ELSE InvitedTo(IF IsInvited(s, n, q[k]) THEN Out(s, n, "Invited to: " \o s.g[q[k]].name) ELSE s, n, q, k + 1)

\* everything after the checks that need nothing of the user's: <<s, ok>>
LoginIn(s, n, which) ==
    LET s1 == Motd(Put(s, n, "a"), n)
        at == StartsWith(which, "@")
        t == FindUser(s1, Drop(which, 1))
        gi == IF t < 0 THEN 0 - 1 ELSE GroupOf(s1, t)
        bad == at /\ (gi < 0 \/ (s1.g[gi].vis # Visible /\ s.u[n].nick # "ADMIN"))
        grp == IF at THEN s1.u[t].grp ELSE which
        s2 == Out([s1 EXCEPT !.u[n].login = 1, !.u[n].ton = s.now, !.u[n].trecv = s.now],
                  n, "Welcome to ICB " \o s.u[n].nick)
        ret0 == Recognise(s2, n)
        try == ret0 = 0 - 2 /\ s2.u[n].pass # ""
        nw == NickWrite(s2, n, s2.u[n].pass, TRUE)
        ret == IF try /\ nw[2] THEN 0 ELSE ret0
        s3 == IF try THEN nw[1] ELSE s2
        s4 == IF ret = 0 - 2 THEN SendPassword(s3, n)
              ELSE IF ret = 0 /\ ~s3.u[n].real
                   THEN MsgNotice(RegainMods(WriteTime([Stat(s3, n, "Register", "Nick registered")
                                                        EXCEPT !.u[n].real = TRUE], n, FALSE), n), n)
              ELSE IF ret = 0 - 1
                   THEN Stat(Stat(s3, n, "No-Pass", "Your nickname does not have a password."),
                             n, "No-Pass", "For help type /m server ?")
              ELSE s3
        s5 == InvitedTo(s4, n, s4.gids, 1)
        s6 == IF s5.u[n].real THEN s5 ELSE TalkReports(s5, n, s5.gids, 1)
        c == Change(s6, n, grp, TRUE, FALSE)
        s7 == [c[1] EXCEPT !.u[n].login = 2, !.st.signons = @ + 1]
    IN IF bad THEN <<Err(s1, n, "User not found or is in a secret or invisible group."), FALSE>>
    ELSE IF ~c[2] THEN c
    ELSE <<StatTo(s7, Watchers(s7, n, 2), 1, "Notify-On",
                  s7.u[n].nick \o " (" \o Addr(s7, n) \o ") has just signed on"), TRUE>>

Login(s, n, f) ==
    LET id == Field(f, 1)
        nick == FilterNick(Field(f, 2))
        which == IF Field(f, 3) = "" THEN "1" ELSE Take(Field(f, 3), 15)
        type == Lower(Field(f, 4))
        pass == Pw(Field(f, 5))
        perm == Perms(s, n, id)
        s1 == IF perm.slow THEN Stat(s, n, "Permissions", "slowmsgs") ELSE s
        addr == Upper(id \o "@" \o s.u[n].node)
        dl == DenyLine(s, addr)
        who == " " \o Str(n) \o ": " \o id \o "@" \o s.u[n].node
        sw == Jot(s, OneLine("[WHO]" \o who, 1, ""))
        s2 == Jot(SetNick([s1 EXCEPT !.u[n].id = id, !.u[n].pass = pass, !.u[n].slow = perm.slow], n, nick), "[LOGIN]" \o who)
    IN IF Len(f) < 4 THEN <<s, FALSE>>
    ELSE IF type = "w" THEN <<Who(sw, n, ""), FALSE>>
    ELSE IF type = "wg" THEN <<Who(sw, n, Field(f, 3)), FALSE>>
    ELSE IF type # "login" THEN <<Err(s, n, "Unknown login type \"" \o Field(f, 4) \o "\""), FALSE>>
    ELSE IF FindUser(s, nick) >= 0 THEN <<Err(s, n, "Nickname already in use."), FALSE>>
    ELSE IF nick = "" \/ Len(nick) > 12 THEN <<Err(s, n, "Nickname must be between 1 and 12 characters."), FALSE>>
    ELSE IF id = "" \/ Len(id) > 12 THEN <<Err(s, n, "Login id must be between 1 and 12 characters."), FALSE>>
    ELSE IF ~AlnumAll(id) THEN <<Err(s, n, "Login id must contain only alphanumeric characters."), FALSE>>
    ELSE IF perm.deny THEN <<Jot(Err(s, n, "Login denied."), "Login denied."), FALSE>>
    ELSE IF dl > 0 THEN <<Jot(Err(Err(s1, n, "Login refused for " \o addr), n, "Reason: " \o s.cfg.deny[dl][2]), "Login refused for " \o addr), FALSE>>
    ELSE IF Lower(nick) = "admin" /\ ~IsAdmin(s2, n) THEN <<Err(s2, n, "Nickname already in use."), FALSE>>
    ELSE LoginIn(s2, n, which)

LoginMsg(s, n, f) ==
    IF s.u[n].login > 0 THEN Err(s, n, "Already logged in.")
    ELSE LET r == Login(s, n, f) IN IF r[2] THEN r[1] ELSE Kill(Put(r[1], n, ExitPkt), n)

(* ---- commands ---- *)
RECURSIVE CmdMsg(_, _, _)
Personal(s, n, arg) ==
    LET w == GetWord(arg)
        d == FindUser(s, w)
        m == GetTail(arg)
        s1 == IF s.u[n].away # "" /\ d # ServerSlot THEN Stat(s, n, "Away", "Your away is still set...") ELSE s
        fm == Filt(m, 240)
        s2 == IF d # ServerSlot THEN SendPerson(s1, n, d, m)
              ELSE LET line == Take(GetWord(fm) \o SOH \o GetTail(fm), 251)
                   IN CmdMsg([s1 EXCEPT !.u[ServerSlot].lpriv = n], n, Split(line))
        s3 == IF s2.u[n].echo = 2 THEN Out(s2, n, Take("<*to: " \o s2.u[d].nick \o "*> " \o m, 253)) ELSE s2
    IN IF d < 0 THEN Err(s, n, w \o " not signed on.") ELSE AwayHandle(s3, n, d)

CmdMsg(s0, n, f) ==
    LET s == [s0 EXCEPT !.u[n].trecv = s0.now]
        cmd == Lower(f[1])
        argc == Len(f)
        a == Field(f, 2)
    IN CASE cmd = "drop" -> IF argc = 2 THEN DropCmd(s, n, a) ELSE s
         [] cmd = "restart" -> IF IsAdmin(s, n) THEN s ELSE Err(s, n, NoAuth)
         [] cmd = "shutdown" -> Shutdown(s, n, argc, a)
         [] cmd = "wall" -> Wall(s, n, argc, a)
         [] cmd = "beep" -> IF argc = 2 THEN Beep(s, n, a) ELSE s
         [] cmd = "cancel" -> IF argc = 2 THEN Cancel(s, n, a) ELSE s
         [] cmd = "g" -> IF argc \in {2, 3} THEN Change(s, n, a, argc = 3, FALSE)[1] ELSE s
         [] cmd = "invite" -> IF argc = 2 THEN Invite(s, n, a) ELSE s
         [] cmd = "pass" -> IF argc = 2 THEN Pass(s, n, a) ELSE s
         [] cmd = "boot" -> IF argc = 2 THEN BootCmd(s, n, a) ELSE s
         [] cmd = "status" -> IF argc = 2 THEN Status(s, n, a) ELSE s
         [] cmd = "topic" -> IF argc = 2 THEN Topic(s, n, a) ELSE s
         [] cmd = "motd" -> Motd(s, n)
         [] cmd = "m" -> IF argc = 2 THEN Personal(s, n, a) ELSE s
         [] cmd = "echoback" -> IF argc = 2 THEN Echo(s, n, a) ELSE s
         [] cmd = "name" -> IF argc = 2 THEN Name(s, n, a) ELSE s
         [] cmd = "v" -> IF argc = 2 THEN VersionCmd(s, n) ELSE s
         [] cmd = "w" -> IF argc = 2 THEN Who(s, n, a) ELSE s
         [] cmd = "whereis" -> IF argc = 2 THEN Whereis(s, n, a) ELSE s
         [] cmd = "news" -> News(s, n, a)
         [] cmd \in {"hush", "shush"} -> Hush(s, n, a)
         [] cmd = "s_help" -> Help(s, n)
         [] cmd = "exclude" -> IF argc = 2 THEN Exclude(s, n, a) ELSE s
         [] cmd = "shuttime" -> IF argc = 2 THEN ShutTime(s, n) ELSE s
         [] cmd = "notify" -> Notify(s, n, a)
         [] cmd = "talk" -> IF argc = 2 THEN Talk(s, n, a) ELSE s
         [] cmd = "ping" -> IF argc = 2 THEN Ping(s, n, a) ELSE s
         [] cmd = "nobeep" -> IF argc = 2 THEN NoBeep(s, n, a) ELSE s
         [] cmd = "away" -> IF argc <= 2 THEN Away(s, n, a) ELSE s
         [] cmd = "noaway" -> IF argc <= 2 THEN NoAway(s, n) ELSE s
         [] cmd = "log" -> LogCmd(s, n, argc, a)
         [] cmd = "stats" -> Stats(s, n, IF argc = 2 THEN a ELSE "")
         [] cmd = "brick" /\ s.cfg.brick -> Brick(s, n, argc, a)
         [] OTHER -> IF cmd \in AutoCmds THEN Auto(s, n, cmd, a)
                     ELSE Stat(s, n, "Server", "Unknown command")

(* ---- packets ---- *)
PacketNames == [c |-> "PERSONAL", d |-> "STATUS", e |-> "ERROR", f |-> "IMPORTANT", g |-> "EXIT", i |-> "CMDOUT",
                j |-> "PROTO", k |-> "BEEP", l |-> "PING"]
Packet(s, n, p) ==      \* p: the packet, cut at its first NUL
    LET t == Take(p, 1)  rest == Drop(p, 1)  in == s.u[n].login = 2 IN
    IF t = "a" THEN LoginMsg(s, n, Split(rest))
    ELSE IF t = "b" THEN (IF in THEN OpenMsg(s, n, Split(rest)) ELSE s)
    ELSE IF t = "h" THEN (IF in THEN CmdMsg(s, n, Split(rest)) ELSE s)
    ELSE IF t = "m" THEN (IF in THEN Pong(s, n) ELSE s)
    ELSE IF t = "n" THEN s
    ELSE IF t \in DOMAIN PacketNames THEN Err(s, n, "Server doesn't handle ICB_M_" \o PacketNames[t] \o " packets")
    ELSE IF t = "" THEN Err(s, n, Str(n) \o ": Invalid packet type \"")
    ELSE Err(s, n, Str(n) \o ": Invalid packet type \"" \o t \o "\" (" \o p \o ")")

(* ---- somebody is gone ---- *)
RECURSIVE ModsGone(_, _, _, _)
ModsGone(s, n, nick, reg) ==
    LET i == ModOf(s, n)  g == s.g[i]  new == LeastIdle(s, Members(s, g.lname))
        s1 == IF g.vol = Quiet THEN s
              ELSE StatGroup(s, g.lname, Nobody, "Sign-off", "Your group moderator signed off. (No timeout)")
        s2 == SetMod(s1, i, new)
        s3 == IF new >= 0 THEN StatGroup(s2, g.lname, Nobody, "Pass", s.u[new].nick \o " is now mod.") ELSE s2
        r1 == StatGroup(s, g.lname, Nobody, "Mod", "Your group moderator signed off. (300 second timeout)")
        r2 == [r1 EXCEPT !.g[i].mod = 0 - 1, !.g[i].missing = nick, !.g[i].mt = s.now + ModTimeout]
    IN IF i < 0 THEN s ELSE ModsGone(IF reg THEN r2 ELSE s3, n, nick, reg)

Forget(s, n) ==         \* the slot is free again
    LET s1 == ForgetSlot(s, n)
    IN [s1 EXCEPT !.u = Restrict_(@, DOMAIN @ \ {n}), !.ids = Without(@, n), !.conn = Without(@, n),
                  !.wd = @ \ {n}, !.closed = IF s.u[n].gone THEN @ ELSE @ \cup {n}]
LostUser(s, n) ==
    LET r == s.u[n]
        s1 == StatTo(s, Watchers(s, n, 1), 1, "Notify-Off", r.nick \o " (" \o Addr(s, n) \o ") has just signed off")
        s2 == Forget(WriteTime(s1, n, TRUE), n)
        i == IF r.lgrp = "" THEN 0 - 1 ELSE FindGroup(s2, r.grp)
        s3 == IF i < 0 THEN s2
              ELSE IF CountIn(s2, r.grp) = 0 THEN ClearGroup(s2, i)
              ELSE IF s2.g[i].vol = Quiet THEN s2
              ELSE StatGroup(s2, r.lgrp, Nobody, "Sign-off", Presence(s, n)
                             \o (IF r.kill THEN " has been disconnected." ELSE " has signed off."))
        j == Jot(s, "[LOST] " \o Str(n) \o ": " \o (IF r.login = 0 THEN "not logged in" ELSE r.id \o "@" \o r.node))
    IN IF r.login = 0 THEN Forget(j, n) ELSE ModsGone([s3 EXCEPT !.jr = j.jr], n, r.nick, r.real)

(* ---- what the server does on its own ---- *)
IdleModMsg(a, b) == "A piano suddenly falls on " \o a \o ", dislodging moderatorship of " \o b \o "."
IdleBootMsg == "A swarm of bats swoops down and carries %s away."
Notices(s) ==
    LET due(k) == s.die # NoDie /\ s.now >= s.die - k
        s1 == IF due(300) /\ s.ntf = 0
              THEN [ImpAll(s, "Shutdown", "Server shutting down in 5 minutes!") EXCEPT !.ntf = 1] ELSE s
    IN IF due(60) /\ s1.ntf = 1
       THEN [ImpAll(s1, "Shutdown", "Server shutting down in 1 minute!") EXCEPT !.ntf = 2] ELSE s1
Kills(s) == LET K == {n \in DOMAIN s.u : s.u[n].kill /\ n \notin s.wd} IN
            IF K = {} THEN s ELSE [s EXCEPT !.wd = @ \cup K, !.st.drops = @ + Cardinality(K)]

IdleModDue(s, i) ==
    LET g == s.g[i] IN
    /\ g.ctl # Public /\ g.mod >= 0 /\ s.now - s.u[g.mod].trecv > g.im
    /\ \E m \in DOMAIN s.u : /\ m # g.mod /\ m < ServerSlot /\ s.u[m].login = 2 /\ s.u[m].away = ""
                             /\ s.u[m].lgrp = g.lname /\ s.u[m].trecv > s.u[g.mod].trecv
IdleMod(s, i) ==
    IF ~IdleModDue(s, i) THEN s
    ELSE LET g == s.g[i]
             s1 == Stat(s, g.mod, "Idle-Mod", IdleModMsg("you", g.name))
             s2 == IF g.vol = Quiet THEN s1
                   ELSE StatGroup(s1, g.lname, IF GroupOf(s, g.mod) = i THEN g.mod ELSE Nobody,
                                  "Idle-Mod", IdleModMsg(s.u[g.mod].nick, g.name))
         IN [s2 EXCEPT !.g[i].mt = 1 - Base, !.st.idlemods = @ + 1]
\* mt is 0 when no timeout runs; the forced one of IdleMod lies in the distant past
TimeoutMod(s, i) ==
    LET g == s.g[i]
        new == LeastIdle(s, {m \in Members(s, g.lname) : s.u[m].away = ""})
    IN IF g.mt = 0 \/ g.mt >= s.now \/ new < 0 THEN s
       ELSE StatGroup([s EXCEPT !.g[i].mod = new, !.g[i].mt = 0, !.g[i].missing = ""],
                      g.lname, Nobody, "Timeout", s.u[new].nick \o " is now mod.")
RECURSIVE ModChecks(_, _, _)
ModChecks(s, q, k) == IF k > Len(q) THEN s ELSE ModChecks(TimeoutMod(IdleMod(s, q[k]), q[k]), q, k + 1)

RECURSIVE LetGo(_, _, _, _)
LetGo(s, n, q, k) ==
    IF k > Len(q) THEN s
    ELSE LET j == q[k]  g == s.g[j]  new == LeastIdle(s, Members(s, g.lname)) IN
         IF g.mod # n THEN LetGo(s, n, q, k + 1)
         ELSE LET s1 == SetMod(s, j, new)
                  s2 == IF new < 0 THEN s1
                        ELSE StatGroup(s1, g.lname, IF g.name = s.u[n].grp THEN n ELSE Nobody,
                                       "Pass", s.u[new].nick \o " is now mod.")
              IN LetGo(s2, n, q, k + 1)
IdleBoot(s, n) ==
    LET i == GroupOf(s, n)  g == s.g[i]
        msg == IF g.ibm # "" THEN g.ibm ELSE IdleBootMsg
        s1 == Stat(s, n, "Idle-Boot", Fmt(msg, "you"))
        s2 == IF g.vol = Quiet THEN s1 ELSE StatGroup(s1, g.lname, n, "Idle-Boot", Fmt(msg, s.u[n].nick))
        s3 == LetGo(s2, n, s2.gids, 1)
    IN IF \/ s.u[n].login < 2 \/ i < 0
       THEN s
       ELSE IF s.u[n].lgrp = Lower(IdleGroup) \/ g.ib = 0 \/ s.now - s.u[n].trecv <= g.ib THEN s
       ELSE Jot([Change(s3, n, IdleGroup, FALSE, TRUE)[1] EXCEPT !.st.idleboots = @ + 1],
                "[IDLE_BOOT] " \o Str(n) \o " (" \o Str(s.now - s.u[n].trecv) \o " > " \o Str(g.ib) \o ")")
RECURSIVE IdleBoots(_, _, _)
IdleBoots(s, q, k) == IF k > Len(q) THEN s ELSE IdleBoots(IF q[k] < ServerSlot THEN IdleBoot(s, q[k]) ELSE s, q, k + 1)

DidPoll(s) ==
    IF s.die # NoDie /\ s.now >= s.die THEN [s EXCEPT !.dead = TRUE]
    ELSE LET s1 == Kills(Notices(s))
             s2 == ModChecks(s1, s1.gids, 1)
         IN IdleBoots(s2, s2.ids, 1)

(* ---- the socket layer: one frame of a connection per pass ---- *)
MayRead(s, n) == ~s.u[n].slow \/ s.now - s.u[n].trecv >= 1
\* <<s, did anything>>
Serve(s, n) ==
    IF n \in s.wd THEN <<LostUser(s, n), TRUE>>
    ELSE IF ~MayRead(s, n) THEN <<s, FALSE>>
    ELSE LET r == s.u[n]
             len == IF r.inb = "" THEN 0 - 1 ELSE Ord(At(r.inb, 1))
         IN IF len = 0 \/ len = 255 THEN <<[s EXCEPT !.wd = @ \cup {n}], TRUE>>
            ELSE IF len > 0 /\ Len(r.inb) > len
            THEN <<Packet([s EXCEPT !.u[n].inb = Drop(@, len + 1)], n, CStr(SubSeq(r.inb, 2, len + 1))), TRUE>>
            ELSE IF r.fin THEN <<[s EXCEPT !.wd = @ \cup {n}], TRUE>>
            ELSE <<s, FALSE>>
RECURSIVE ServeAll(_, _, _, _)
ServeAll(s, q, k, did) ==
    IF k > Len(q) THEN <<s, did>>
    ELSE IF q[k] \notin DOMAIN s.u THEN ServeAll(s, q, k + 1, did)
    ELSE LET r == Serve(s, q[k]) IN ServeAll(r[1], q, k + 1, did \/ r[2])
RECURSIVE Settle(_)
Settle(s) ==
    LET d == DidPoll(s) IN
    IF d.dead THEN d
    ELSE LET r == ServeAll(d, d.conn, 1, FALSE) IN
         IF r[2] \/ d # s THEN Settle(r[1]) ELSE r[1]

Hello(s) == "j1" \o SOH \o s.cfg.host \o SOH \o Version
\* a connection comes from an address, which has a name
Caller(s, a) == [BlankUser EXCEPT !.node = IF "node" \in DOMAIN a THEN a.node ELSE s.cfg.node,
                                  !.ip = IF "ip" \in DOMAIN a THEN a.ip ELSE @, !.at = IF "at" \in DOMAIN a THEN a.at ELSE @, !.secure = a.tls]
NewConn(s, a) ==
    LET n == a.n  r == Caller(s, a)
        s1 == [s EXCEPT !.u = (n :> r) @@ @, !.ids = SortedInsert(@, n), !.conn = Append(@, n)]
    IN Jot(Put(s1, n, Hello(s)), "[CONNECT" \o (IF a.tls THEN " (SSL)" ELSE "") \o "] " \o Str(n) \o ": " \o r.node)

Tools == INSTANCE IcbTools
Start(t, db, cfg) == WriteTime(Boot(t, db, cfg), ServerSlot, FALSE)
Fresh(s) == [s EXCEPT !.out = << >>, !.closed = {}, !.jr = << >>]
\* the server ends in the middle of a command, leaving the database file a.db: what was registered
\* is as before the command or as after it (the times of coming and going are saved separately)
Volatile(k) == Len(k) > 7 /\ (SubSeq(k, Len(k) - 6, Len(k)) = ".signon" \/ (Len(k) > 8 /\ SubSeq(k, Len(k) - 7, Len(k)) = ".signoff"))
SameReg(d, e) == LET r(x) == {k \in DOMAIN x : ~Volatile(k)} IN r(d) = r(e) /\ \A k \in r(d) : d[k] = e[k]
Served(s, a) == Settle([Fresh(s) EXCEPT !.u[a.n].inb = @ \o a.d])
(* a file left behind by a change from one database to another is one of the two *)
EitherOf(d, x, y) ==
    /\ SameReg(d, x) \/ SameReg(d, y)
    /\ \A k \in {k \in DOMAIN d : Volatile(k)} : (k \in DOMAIN x /\ d[k] = x[k]) \/ (k \in DOMAIN y /\ d[k] = y[k])
CrashOK(s, a) == a.whole /\ EitherOf(a.db, s.db, Served(s, a).db)
(* the file after a step in which writing it failed (late), and after the next use of it, which makes that good *)
FileOK(s, y, a) ==
    IF "disk" \notin DOMAIN a THEN TRUE
    ELSE a.whole /\ EitherOf(a.disk, IF a.late THEN s.db ELSE y.db, y.db)
(* what is sent to those for whom the network takes only so much *)
RECURSIVE CarryAll(_, _, _, _)
CarryAll(q, i, ch, out) ==
    IF i > Len(q) THEN <<ch, out>>
    ELSE IF q[i][1] \notin DOMAIN ch THEN CarryAll(q, i + 1, ch, Append(out, q[i]))
    ELSE LET n == q[i][1]  c == NetSend(ch[n], q[i][2])
         IN CarryAll(q, i + 1, [ch EXCEPT ![n] = [c EXCEPT !.done = << >>]], out \o [j \in 1..Len(c.done) |-> <<n, c.done[j]>>])
Carry(s, y, a) ==
    LET ch0 == IF a.t \in {"restart", "tool", "crash"} THEN << >>
               ELSE IF a.t = "choke" THEN (a.n :> Channel(a.cap)) @@ s.chan
               ELSE IF a.t = "room" THEN [s.chan EXCEPT ![a.n] = NetRoom(@, a.k)]
               ELSE s.chan
        due == IF a.t = "room" THEN ch0[a.n].done ELSE IF a.t = "unchoke" THEN s.chan[a.n].q ELSE << >>
        ch1 == IF a.t = "room" THEN [ch0 EXCEPT ![a.n].done = << >>]
               ELSE IF a.t = "unchoke" THEN Restrict_(ch0, DOMAIN ch0 \ {a.n}) ELSE ch0
        r == CarryAll(y.out, 1, ch1, [j \in 1..Len(due) |-> <<a.n, due[j]>>])
    IN IF s.chan = << >> /\ a.t # "choke" THEN y
       ELSE [y EXCEPT !.out = r[2], !.chan = Restrict_(r[1], DOMAIN r[1] \cap DOMAIN y.u)]

Step0(s0, a) ==
    LET s == Fresh(s0) IN
    CASE a.t = "conn" -> Settle(NewConn(s, a))
      [] a.t = "bytes" -> Settle([s EXCEPT !.u[a.n].inb = @ \o a.d])
      [] a.t = "fin" -> Settle([s EXCEPT !.u[a.n].fin = TRUE])
      [] a.t = "rst" -> Settle([s EXCEPT !.u[a.n].gone = TRUE, !.u[a.n].inb = "", !.wd = @ \cup {a.n}])
      [] a.t = "tick" -> Settle([s EXCEPT !.now = @ + a.d])
      [] a.t \in {"refused", "pause", "resume", "noise", "hup", "choke", "room", "unchoke"} -> Settle(s)       \* nothing the server need care about
      [] a.t = "cfg" -> Settle([s EXCEPT !.cfg = a.cfg])
      [] a.t = "restart" -> Settle(Start(s.now, s.db, s.cfg))
      [] a.t = "tool" -> Settle(Start(s.now, Tools!Tool(s.db, a.tool).db, s.cfg))
      [] a.t = "crash" -> Settle(Start(s.now, [k \in DOMAIN a.db |-> a.db[k]], s.cfg))
Step(s, a) == Carry(s, Step0(s, a), a)
=============================================================================
