------------------------------ MODULE IcbUser ------------------------------
(* What users do for themselves: names, hushing, notification, away, beeps,
   pings, looking at users and groups, and what the administrator may do. *)
EXTENDS IcbGroup

Version == "ICB Server v1.3.0"

(* ---- files ---- *)
\* lines of a file; at most max bytes of each are kept
FileOut(s, n, lines, max) == OutAll(s, n, [i \in 1..Len(lines) |-> Take(lines[i], max)], 1)
RECURSIVE MotdLine(_, _, _, _)
MotdLine(s, l, i, acc) ==
    IF i > Len(l) THEN acc
    ELSE IF At(l, i) # "%" THEN MotdLine(s, l, i + 1, acc \o At(l, i))
    ELSE IF i = Len(l) THEN acc
    ELSE IF At(l, i + 1) = "U" THEN MotdLine(s, l, i + 2, acc \o GetOr(s, "server", "signon", ""))
    ELSE MotdLine(s, l, i + 2, acc \o At(l, i + 1))
Motd(s, n) ==
    IF ~s.cfg.hasmotd THEN Err(s, n, "No MOTD file found.")
    ELSE FileOut(s, n, [i \in 1..Len(s.cfg.motd) |-> MotdLine(s, s.cfg.motd[i], 1, "")], 255)
Help(s, n) ==
    IF ~s.cfg.hashelp THEN Err(s, n, "No help file found.") ELSE FileOut(s, n, s.cfg.help, 255)
Rule == "--------------------------------------"
\* cfg.news: entry name -> lines;  entries "1".."9" are shown when none is named
RECURSIVE NewsAll(_, _, _, _)
NewsAll(s, n, i, first) ==
    IF i > 9 THEN (IF first THEN Stat(s, n, "News", "No news.") ELSE s)
    ELSE IF Str(i) \notin DOMAIN s.cfg.news THEN NewsAll(s, n, i + 1, first)
    ELSE LET s1 == IF first THEN Out(s, n, Rule) ELSE s
         IN NewsAll(Out(FileOut(s1, n, s.cfg.news[Str(i)], 254), n, Rule), n, i + 1, FALSE)
News(s, n, arg) ==
    IF arg = "" \/ arg = "(null)" THEN NewsAll(s, n, 1, TRUE)
    ELSE IF arg \in DOMAIN s.cfg.news
         THEN Out(FileOut(Out(s, n, Rule), n, s.cfg.news[arg], 254), n, Rule)
    ELSE Err(s, n, "Entry not found.")

VersionCmd(s, n) == Out(Out(s, n, Version), n, "Proto Level: 1 Max Users: 254 Max Groups: 300")

(* ---- hush ---- *)
HushUsage == "Usage: hush {-q} {-p} {-o} {-n nickname | -s address}"
HushCls == [q |-> "q", n |-> "mode", s |-> "mode", p |-> "p", o |-> "o"]
\* toggle who in the list called fld of user n
Lst(s, n, fld) == CASE fld = "hpn" -> s.u[n].hpn [] fld = "hps" -> s.u[n].hps [] fld = "hun" -> s.u[n].hun
                    [] fld = "hus" -> s.u[n].hus [] fld = "nn" -> s.u[n].nn [] fld = "ns" -> s.u[n].ns
SetLst(s, n, fld, l) ==
    CASE fld = "hpn" -> [s EXCEPT !.u[n].hpn = l] [] fld = "hps" -> [s EXCEPT !.u[n].hps = l]
      [] fld = "hun" -> [s EXCEPT !.u[n].hun = l] [] fld = "hus" -> [s EXCEPT !.u[n].hus = l]
      [] fld = "nn" -> [s EXCEPT !.u[n].nn = l] [] fld = "ns" -> [s EXCEPT !.u[n].ns = l]
Toggle(s, n, fld, who, max, cat, what, plural, quiet) ==    \* <<s, "added" | "removed" | "full">>
    LET l == Lst(s, n, fld)
        fyi(z, m) == IF quiet THEN z ELSE Stat(z, n, cat, who \o m \o what \o " list.")
    IN IF InList(l, who) THEN <<fyi(SetLst(s, n, fld, ListDel(l, who)), " removed from "), "removed">>
       ELSE IF Len(l) = max THEN <<Err(s, n, "Max number of " \o plural \o " reached."), "full">>
       ELSE <<fyi(SetLst(s, n, fld, ListPut(l, who, max)), " added to "), "added">>
RECURSIVE ShowList(_, _, _, _, _)
ShowList(s, n, cat, l, k) == IF k > Len(l) THEN s ELSE ShowList(Stat(s, n, cat, l[k]), n, cat, l, k + 1)
Hush(s, n, arg) ==
    LET p == Flags(arg, HushCls)
        r == s.u[n]
        who == Upper(p.who)
        quiet == "q" \in p.f
        pri == "p" \in p.f \/ "o" \notin p.f
        pub == "o" \in p.f \/ "p" \notin p.f
        site == "s" \in p.f
        kind == IF site THEN "site" ELSE "nickname"
        one == Toggle(s, n, IF site THEN "hps" ELSE "hpn", who, MaxHushed, "Hush",
                      kind \o " personal hush", kind \o " personal hushes", quiet)
        s1 == IF pri THEN one[1] ELSE s
    IN IF ~p.ok THEN Err(s, n, HushUsage)
    ELSE IF p.who = "" THEN
        IF Len(r.hpn) + Len(r.hps) + Len(r.hun) + Len(r.hus) = 0 THEN Stat(s, n, "Hush-List", "Empty List")
        ELSE ShowList(ShowList(ShowList(ShowList(s, n, "Personal-Nick-Hushed", r.hpn, 1),
                      n, "Open-Nick-Hushed", r.hun, 1), n, "Personal-Site-Hushed", r.hps, 1),
                      n, "Open-Site-Hushed", r.hus, 1)
    ELSE IF ~pub \/ (pri /\ one[2] = "full") THEN s1
    ELSE Toggle(s1, n, IF site THEN "hus" ELSE "hun", who, MaxHushed, "Hush",
                kind \o " open hush", kind \o " open hushes", quiet)[1]

(* ---- notify ---- *)
NotifyUsage == "Usage: notify {-q} {-n nickname | -s address}"
Notify(s, n, arg) ==
    LET p == Flags(arg, ModeCls)
        r == s.u[n]
        who == Upper(p.who)
        quiet == "q" \in p.f
        site == "s" \in p.f
        kind == IF site THEN "site" ELSE "nickname"
        t == Toggle(s, n, IF site THEN "ns" ELSE "nn", who, MaxNotifies, "Notify",
                    kind \o " notify", kind \o " notifies", quiet)
        d == FindUser(s, who)
    IN IF ~p.ok THEN Err(s, n, NotifyUsage)
    ELSE IF p.who = "" THEN
        IF Len(r.nn) + Len(r.ns) = 0 THEN Stat(s, n, "Notify-List", "Empty List")
        ELSE ShowList(ShowList(s, n, "Notify-Nickname", r.nn, 1), n, "Notify-Site", r.ns, 1)
    ELSE IF ~site /\ t[2] = "added" /\ ~quiet /\ d > 0
         THEN Stat(t[1], n, "Notify", s.u[d].nick \o " is logged in now.")
    ELSE t[1]
\* who is told that n has signed on / off
Watchers(s, n, minlogin) ==
    LET i == GroupOf(s, n) IN
    IF i < 0 \/ s.g[i].vis = SuperSecret THEN << >>
    ELSE SelectSeq(s.ids, LAMBDA m : /\ m # n /\ s.u[m].login >= minlogin
                                     /\ (ListMatch(s.u[m].nn, UNick(s, n)) \/ ListMatch(s.u[m].ns, Addr(s, n))))
RECURSIVE StatTo(_, _, _, _, _)
StatTo(s, q, k, cat, m) == IF k > Len(q) THEN s ELSE StatTo(Stat(s, q[k], cat, m), q, k + 1, cat, m)

(* ---- nickname ---- *)
Name(s, n, arg) ==
    LET new == FilterNick(Take(arg, 12))
        old == s.u[n].nick
        m == old \o " changed nickname to " \o new
    IN IF arg = "" THEN Err(s, n, "The nickname may not be null.")
    ELSE IF FindUser(s, new) >= 0 /\ ~EqCI(new, old) THEN Err(s, n, "Nickname already in use.")
    ELSE IF Lower(new) = "admin" /\ s.u[n].pass # s.cfg.adminpw THEN Err(s, n, "Nickname already in use.")
    ELSE LET s1 == WriteTime(StatGroup(s, s.u[n].lgrp, n, "Name", m), n, TRUE)
             s2 == Stat(SetNick(s1, n, new), n, "Name", m)
             s3 == [s2 EXCEPT !.u[n].real = FALSE]
             ret == Recognise(s3, n)
             s4 == IF ret = 0 THEN
                       MsgNotice(RegainMods(WriteTime([Stat(s3, n, "Register", "Nick registered")
                                                       EXCEPT !.u[n].real = TRUE], n, FALSE), n), n)
                   ELSE IF ret = 0 - 2 THEN SendPassword(s3, n)
                   ELSE Stat(s3, n, "No-Pass", "To register your nickname type /m server p mypassword")
         IN TalkReports(s4, n, s4.gids, 1)

(* ---- echo, beep, ping, away ---- *)
Echo(s, n, arg) ==
    LET a == Lower(arg) IN
    IF a = "off" THEN Stat([s EXCEPT !.u[n].echo = 0], n, "Echo", "Echoback off")
    ELSE IF a = "on" THEN Stat([s EXCEPT !.u[n].echo = 1], n, "Echo", "Echoback on")
    ELSE IF a = "verbose" THEN Stat([s EXCEPT !.u[n].echo = 2], n, "Echo", "Echoback on verbose")
    ELSE Err(s, n, "Echoback: needs on/off/verbose")
NoBeep(s, n, arg) ==
    LET a == Lower(arg) IN
    IF a = "off" THEN Stat([s EXCEPT !.u[n].nobeep = 0], n, "No-Beep", "No-Beep off")
    ELSE IF a = "on" THEN Stat([s EXCEPT !.u[n].nobeep = 1], n, "No-Beep", "No-Beep on")
    ELSE IF a = "verbose" THEN Stat([s EXCEPT !.u[n].nobeep = 2], n, "No-Beep", "No-Beep on (verbose)")
    ELSE Err(s, n, "No-Beep: needs off/on/verbose")

\* the away message of dest, unless src got it within the last ten seconds
AwayHandle(s, src, dest) ==
    LET d == s.u[dest] IN
    IF d.away = "" \/ (d.la = src /\ s.now - d.lat <= 10) THEN s
    ELSE LET s1 == Stat([s EXCEPT !.u[dest].la = src, !.u[dest].lat = s.now], src, "Away", d.away)
         IN IF d.echo # 2 THEN s1
            ELSE Out(s1, dest, Take("<*to: " \o s.u[src].nick \o "*> [=@" \o Clock12(s.now) \o "=] " \o d.away, 253))
Beep(s, n, arg) ==
    LET w == GetWord(arg)  d == FindUser(s, w)
        s1 == SendBeep(s, n, d)
        s2 == IF s1.u[n].echo = 2 THEN Out(s1, n, "<*to: " \o s1.u[d].nick \o "*> [=Beep=]") ELSE s1
    IN IF w = "" THEN s
    ELSE IF d < 0 THEN Err(s, n, w \o " not signed on.")
    ELSE AwayHandle(s2, n, d)

Ping(s, n, arg) ==
    LET w == GetWord(arg)  d == IF w = "" THEN n ELSE FindUser(s, w) IN
    IF d <= 0 THEN Err(s, n, "Can't locate user (" \o w \o ")")
    ELSE Put([s EXCEPT !.u[d].ping = s.now, !.u[d].pong = n], d, "l" \o s.u[n].nick)
Pong(s, n) ==
    LET r == s.u[n] IN
    IF r.pong # 0 - 1
    THEN [Stat(s, r.pong, "PONG", r.nick \o " client responded in " \o Str(s.now - r.ping) \o ".00 seconds.")
          EXCEPT !.u[n].pong = 0 - 1]
    ELSE Stat(s, n, "PONG", "You were pinged, but they aren't there to receive your pong.")

NoAway(s, n) ==
    IF s.u[n].away = "" THEN Stat(s, n, "Away", "Away not set!")
    ELSE Stat([s EXCEPT !.u[n].away = "", !.u[n].la = 0], n, "Away", "Away message unset.")
Away(s, n, arg) ==
    LET a == Take("(%s@" \o Clock12(s.now) \o ") " \o arg, 202) IN
    IF arg = "" THEN
        IF s.u[n].away = "" THEN Stat(s, n, "Away", "Away message is not set.")
        ELSE Stat(s, n, "Away", "Away message is set to \"" \o s.u[n].away \o "\"")
    ELSE IF FmtCount(arg) < 0 THEN Err(s, n, FmtBad)
    ELSE IF FmtCount(arg) # 1 THEN Err(s, n, FmtOne)
    ELSE Stat([s EXCEPT !.u[n].away = a, !.u[n].la = 0], n, "Away", "Away message set to \"" \o a \o "\"")

(* ---- whereis ---- *)
IdleStr(t) == IF t < 60 THEN Str(t) \o "s" ELSE IF t < 3600 THEN Str(t \div 60) \o "m"
              ELSE IF t < 86400 THEN Str(t \div 3600) \o "h" ELSE Str(t \div 86400) \o "d"
Whereis(s, n, arg) ==
    LET w == Take(GetWord(arg), 19)
        d == IF w = "" THEN s.u[n].lpriv ELSE FindUser(s, w)
        r == s.u[d]
    IN IF d < 0 THEN Out(s, n, "Nickname not found.")
       ELSE Out(s, n, PadTo(r.nick, 14) \o " " \o UserAt(s, d) \o " ("
                      \o (IF d = ServerSlot THEN "(unknown)" ELSE r.at) \o ") "
                      \o IdleStr(s.now - r.trecv) \o (IF r.away # "" THEN " (aw)" ELSE ""))

(* ---- who ---- *)
\* insert x in front of the first element that does not come before it
RECURSIVE InsertBy(_, _, _, _)
InsertBy(q, x, before, k) ==       \* before: set of elements of q that come before x
    IF k <= Len(q) /\ q[k] \in before THEN InsertBy(q, x, before, k + 1)
    ELSE SubSeq(q, 1, k - 1) \o <<x>> \o SubSeq(q, k, Len(q))
RECURSIVE ByArrival(_, _, _, _)
ByArrival(s, q, k, acc) ==
    IF k > Len(q) THEN acc
    ELSE ByArrival(s, q, k + 1,
                   InsertBy(acc, q[k], {m \in DOMAIN s.u : s.u[m].tgroup < s.u[q[k]].tgroup}, 1))
RECURSIVE ByName(_, _, _, _)
ByName(s, q, k, acc) ==
    IF k > Len(q) THEN acc
    ELSE ByName(s, q, k + 1,
                InsertBy(acc, q[k], {i \in DOMAIN s.g : GreaterCI(s.g[q[k]].name, s.g[i].name)}, 1))

WhoStatus(r) ==
    LET a == (IF r.real THEN << >> ELSE <<"nr">>) \o (IF r.away # "" THEN <<"aw">> ELSE << >>)
             \o (IF r.secure THEN <<"ssl">> ELSE << >>)
    IN IF a = << >> THEN ""
       ELSE "(" \o a[1] \o (IF Len(a) > 1 THEN "," \o a[2] ELSE "") \o (IF Len(a) > 2 THEN "," \o a[3] ELSE "") \o ")"
WhoLine(s, i, m) ==
    LET r == s.u[m] IN
    "iwl" \o SOH \o (IF s.g[i].mod = m THEN "m" ELSE " ") \o SOH \o r.nick \o SOH \o Str(s.now - r.trecv)
    \o SOH \o "0" \o SOH \o Str(Base + r.ton) \o SOH \o r.id \o SOH \o r.node \o SOH \o WhoStatus(r)
RECURSIVE WhoLines(_, _, _, _, _)
WhoLines(s, n, i, q, k) == IF k > Len(q) THEN s ELSE WhoLines(Put(s, n, WhoLine(s, i, q[k])), n, i, q, k + 1)
MembersLong(s, n, i) ==
    LET q == MemberIds(s, i)
        s1 == IF Len(q) >= 2 THEN Put(s, n, "iwh") ELSE s
    IN WhoLines(s1, n, i, ByArrival(s, q, 1, << >>), 1)
RECURSIVE AddMembers(_, _, _, _, _)
AddMembers(a, s, n, q, k) ==
    IF k > Len(q) THEN a
    ELSE LET a1 == AddItem(a, n, s.u[q[k]].nick)
         IN AddMembers(IF k < Len(q) THEN AddItem(a1, n, ", ") ELSE a1, s, n, q, k + 1)
MembersShort(s, n, i) ==
    LET a == AddMembers(AddItem([s |-> s, line |-> ""], n, "    Members: "), s, n, MemberIds(s, i), 1)
    IN IF a.line # "" THEN Out(a.s, n, a.line) ELSE a.s

Letter(v) == CASE v = Visible -> "v" [] v = Secret -> "s" [] v = SuperSecret -> "i"
               [] v = Public -> "p" [] v = Moderated -> "m" [] v = Restricted -> "r" [] v = Controlled -> "c"
               [] v = Quiet -> "q" [] v = Normal -> "n" [] v = Loud -> "l"
\* may n see the name of group i?
Knows(s, n, i) == GroupOf(s, n) = i \/ IsInvited(s, n, i) \/ s.u[n].nick = "ADMIN"
GroupHeader(s, n, i) ==
    LET g == s.g[i]
        mod == IF g.mod >= 0 THEN s.u[g.mod].nick
               ELSE IF g.mt = 0 THEN "(None)" ELSE g.missing \o " (" \o Str(g.mt - s.now) \o ")"
        name == IF g.vis = Visible THEN g.name ELSE IF Knows(s, n, i) THEN "*" \o g.name \o "*" ELSE "-SECRET-"
    IN Out(Out(s, n, " "), n, "Group: " \o PadTo(name, 8) \o " (" \o Letter(g.ctl) \o Letter(g.vis) \o Letter(g.vol)
             \o ") Mod: " \o PadTo(mod, 13) \o " Topic: " \o (IF g.topic = "" THEN "(None)" ELSE g.topic))
WhoOne(s, n, flag, i) ==
    LET s1 == GroupHeader(s, n, i) IN
    IF flag = "-g" THEN s1 ELSE IF flag = "-s" THEN MembersShort(s1, n, i) ELSE MembersLong(s1, n, i)
RECURSIVE WhoEach(_, _, _, _, _)
WhoEach(s, n, flag, q, k) == IF k > Len(q) THEN s ELSE WhoEach(WhoOne(s, n, flag, q[k]), n, flag, q, k + 1)

LoggedIn(s) == {m \in DOMAIN s.u : m < ServerSlot /\ s.u[m].login > 0}
NumGroups(s) == Cardinality({i \in DOMAIN s.g : s.g[i].name # "ICB" \/ CountIn(s, "ICB") > 1})
WhoAll(s, n, flag) ==
    LET shown == SelectSeq(s.gids, LAMBDA i : s.g[i].vis # SuperSecret \/ Knows(s, n, i))
        s1 == WhoEach(s, n, flag, ByName(s, shown, 1, << >>), 1)
        nu == Cardinality(LoggedIn(s))
        ng == NumGroups(s)
    IN Out(s1, n, IF nu = 0 THEN "No users found."
                  ELSE "Total: " \o Str(nu) \o (IF nu > 1 THEN " users in " ELSE " user in ")
                       \o Str(ng) \o (IF ng > 1 THEN " groups" ELSE " group"))
Who(s, n, arg) ==
    LET w0 == Lower(GetWord(arg))
        flag == IF w0 \in {"-g", "-s"} THEN w0 ELSE ""
        w == IF flag = "" THEN GetWord(arg) ELSE GetWord(GetTail(arg))
        t == FindUser(s, Drop(arg, 1))
        at == StartsWith(arg, "@")
        g1 == IF at THEN s.u[t].grp ELSE Take(w, 8)
        gn == IF g1 = "." THEN s.u[n].grp ELSE g1
        i == FindGroup(s, gn)
    IN IF w0 = "?" THEN Out(s, n, "Usage: /w {-g | -s} {groupname}")
    ELSE IF w = "" THEN WhoAll(s, n, flag)
    ELSE IF at /\ (t < 0 \/ GroupOf(s, t) < 0) THEN Err(s, n, "User not found.")
    ELSE IF at /\ s.g[GroupOf(s, t)].vis = SuperSecret /\ s.u[n].nick # "ADMIN" THEN Err(s, n, "User not found.")
    ELSE IF i < 0 THEN Err(s, n, "The group " \o gn \o " doesn't exist.")
    ELSE WhoOne(s, n, flag, i)

(* ---- statistics, administration ---- *)
NoAuth == "You are not authorized to do this."
PluralS(n, one) == Str(n) \o " " \o one \o (IF n = 1 THEN "" ELSE "s")
Stats(s, n, arg) ==
    LET nu == LoggedIn(s)  na == {m \in nu : s.u[m].away # ""} IN
    IF arg = "reset" THEN
        IF ~IsAdmin(s, n) THEN Err(s, n, NoAuth)
        ELSE Stat([s EXCEPT !.st = [start |-> s.now, signons |-> 0, boots |-> 0, drops |-> 0,
                                    idleboots |-> 0, idlemods |-> 0]], n, "Stats", "Stats have been reset.")
    ELSE OutAll(s, n, <<"Server Settings:", "  " \o Version \o ", Protocol Level 1",
            "  Max Users: 254 Max Groups: 300", "Server Stats:",
            "  Started: " \o CTime(s.st.start),
            "  " \o PluralS(s.st.signons, "signon") \o ", " \o PluralS(s.st.boots, "boot") \o ", " \o PluralS(s.st.drops, "drop"),
            "  " \o PluralS(s.st.idleboots, "idleboot") \o ", " \o Str(s.st.idlemods) \o " idlemod pass"
                 \o (IF s.st.idlemods = 1 THEN "" ELSE "es"),
            "  " \o PluralS(Cardinality(nu), "user") \o " in " \o PluralS(NumGroups(s), "group")
                 \o " (" \o PluralS(Cardinality(na), "away user") \o ")">>, 1)

LogCmd(s, n, argc, arg) ==
    IF argc < 2 THEN Out(s, n, "wrong number of parz")
    ELSE IF ~IsAdmin(s, n) THEN Err(s, n, NoAuth)
    ELSE LET lv == IF arg = "" THEN s.log ELSE MaxI(0, Atoi(GetWord(arg)))
         IN Out([s EXCEPT !.log = lv], n, "The log level is " \o Str(lv))

Disconnect(s, n) == [s EXCEPT !.wd = @ \cup {n}]
Kill(s, n) == [s EXCEPT !.u[n].kill = TRUE]
DropCmd(s, n, arg) ==
    LET d == FindUser(s, GetWord(arg)) IN
    IF d < 0 THEN Err(s, n, "User not found.")
    ELSE IF IsAdmin(s, n) THEN Disconnect(s, d)
    ELSE IF ValUser(s, s.u[d].nick, GetWord(GetTail(arg)))
         THEN Jot(Kill(Stat(s, d, "Drop", "You have been disconnected by " \o s.u[n].nick), d),
                  "[DROP] " \o s.u[n].nick \o " (" \o Str(n) \o ") dropped " \o s.u[d].nick \o " (" \o Str(d) \o ")")
    ELSE Err(s, n, "Authentication failure.")

(* ---- bricks (where the server is built with them) ---- *)
Brick(s, n, argc, arg) ==
    LET name == IF argc = 2 THEN FilterNick(Take(arg, 12)) ELSE ""
        t == FindUser(s, name)
        b == s.u[n].bricks
        left == b - 1
        s1 == [s EXCEPT !.u[n].bricks = left]
        all(x, who, cat, m) == StatGroup(x, x.u[who].lgrp, Nobody, cat, m)
        m == name \o " has been bricked."
        s2 == IF t # n /\ s1.u[t].bricks < MaxBricks THEN [s1 EXCEPT !.u[t].bricks = @ + 1] ELSE s1
        s3 == all(s2, n, "FYI", m)
    IN IF name = ""
       THEN Stat(s, n, "Message", IF b > 0 THEN "You have " \o Str(b) \o (IF b = 1 THEN " brick" ELSE " bricks") \o " remaining."
                                  ELSE IF b < 0 THEN "You owe " \o Str(0 - b) \o " bricks." ELSE "You have no bricks remaining.")
       ELSE IF left < 0 - 5
       THEN Kill(all(Err(s1, n, "You are out of bricks.  Good bye."), n, "DROP",
                     "out of bricks; dropped " \o s.u[n].nick \o " (" \o Str(n) \o ")"), n)
       ELSE IF left < 0 - 4
       THEN Err(all(s1, n, "FYI", s.u[n].nick \o " has fallen, and can't get up."), n, "You are out of bricks.  Please desist.")
       ELSE IF left < 0 THEN Err(s1, n, "You are out of bricks.")
       ELSE IF t < 0 \/ Lower(name) = "server" THEN all(s1, n, "FYI", "A brick flies off into the ether.")
       ELSE IF s.u[n].lgrp # s.u[t].lgrp THEN all(s3, t, "FYI", m) ELSE s3

RECURSIVE ImpTo(_, _, _, _, _)
ImpTo(s, q, k, cat, m) == IF k > Len(q) THEN s ELSE ImpTo(Imp(s, q[k], cat, m), q, k + 1, cat, m)
ImpAll(s, cat, m) == ImpTo(s, SelectSeq(s.ids, LAMBDA x : x < ServerSlot /\ s.u[x].login > 0), 1, cat, m)
Shutdown(s, n, argc, arg) ==
    IF ~IsAdmin(s, n) THEN Err(s, n, NoAuth)
    ELSE IF argc # 2 THEN s
    ELSE LET m == Atoi(arg)
             s1 == ImpAll(s, "Shutdown", "Server going down in " \o Str(m) \o " minute(s)!")
         IN [s1 EXCEPT !.die = s.now + 60 * m, !.ntf = IF m <= 5 THEN 1 ELSE 0]
Wall(s, n, argc, arg) ==
    IF ~IsAdmin(s, n) THEN Err(s, n, NoAuth)
    ELSE IF argc # 2 THEN s ELSE ImpAll(s, "WALL", arg)
ShutTime(s, n) ==
    LET t == s.die - s.now IN
    Stat(s, n, "Shutdown",
         IF s.die = NoDie THEN "No shutdown time scheduled."
         ELSE IF t >= 3600 THEN Str(t \div 3600) \o " hour(s), " \o Str((t % 3600) \div 60)
                                \o " minute(s) left until scheduled shutdown."
         ELSE IF t > 60 THEN Str(t \div 60) \o " minute(s) left until scheduled shutdown."
         ELSE Str(t) \o " second(s) left until scheduled shutdown!")

(* ---- the nickname service ---- *)
AutoHelp == <<"Command <argument(s)>           What it does",
    "---------------------           ------------",
    "whois <nick>                    returns info if available",
    "p <passwd>                      registers current user info",
    "delete <password>               deletes your info from the server db",
    "cp <oldpassword> <newpasswd>    changes password",
    "rname                           sets your real name",
    "phone                           sets your phone number",
    "addr                            sets your street address",
    "email                           sets your e-mail address",
    "text                            sets your text message",
    "www                             sets your WWW home page",
    "read                            reads your server messages",
    "write <nick>                    send someone a server message",
    "secure                          always requires a password to register",
    "nosecure                        auto-validates based on username/hostname",
    "info                            gives more info on Server",
    "help                            lists this table",
    "?                               shows usage",
    "See also /s_help">>
AutoUsage == "usage: /m server {whois | p | cp | delete | rname | email | phone | addr | text | read | write | www | info | secure | nosecure | help | ?}"
AutoCmds == {"read", "whois", "p", "rname", "write", "text", "addr", "phone", "delete", "info", "help", "?",
             "cp", "email", "secure", "nosecure", "www"}
Auto(s, n, cmd, arg) ==
    LET w == GetWord(arg)
        ch(tag, max, what, usage) == IF arg = "" THEN Out(s, n, "Usage: " \o usage) ELSE ChInfo(s, n, tag, arg, max, what)
        s1 == CASE cmd = "read" -> ReadMsg(s, n)
                [] cmd = "whois" -> Whois(s, n, w)
                [] cmd = "p" -> NickWrite(s, n, w, FALSE)[1]
                [] cmd = "rname" -> ch("realname", 25, "Real Name", "rname Real Name")
                [] cmd = "write" -> WriteMsg(s, n, w, GetTail(arg))
                [] cmd = "text" -> ch("text", 200, "Message text", "text Message Text")
                [] cmd = "addr" -> ch("addr", 79, "Address", "addr Address Line 1 | Address Line 2 | Address Line 3")
                [] cmd = "phone" -> ch("phone", 14, "Phone Number", "phone 1-800-555-1212")
                [] cmd = "delete" -> IF w = "" THEN Out(s, n, "Usage: delete password") ELSE NickDelete(s, n, w)
                [] cmd = "info" -> Whois(s, n, "server")
                [] cmd = "help" -> OutAll(s, n, AutoHelp, 1)
                [] cmd = "cp" -> ChPass(s, n, w, GetWord(GetTail(arg)))
                [] cmd = "secure" -> SetSecure(s, n, TRUE)
                [] cmd = "nosecure" -> SetSecure(s, n, FALSE)
                [] cmd = "www" -> ch("www", 80, "WWW", "www URL")
                [] cmd = "email" -> ch("email", 60, "E-Mail", "email e-mail address")
                [] OTHER -> SendPerson(s, ServerSlot, n, AutoUsage)
    IN [s1 EXCEPT !.u[ServerSlot].trecv = s.now]
=============================================================================
