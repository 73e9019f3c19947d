------------------------------ MODULE IcbGroup ------------------------------
(* Groups: entering and leaving, invitations, the moderator's powers. *)
EXTENDS IcbAccess

(* ---- flags:  "-x" words in front of an argument; cls maps each known flag to
   what it chooses, and a choice may be made only once ---- *)
RECURSIVE FlagChars(_, _, _, _)
FlagChars(w, i, cls, acc) ==
    IF i > Len(w) THEN [ok |-> TRUE, f |-> acc]
    ELSE LET c == At(w, i) IN
         IF c \notin DOMAIN cls \/ (\E d \in acc : cls[d] = cls[c]) THEN [ok |-> FALSE, f |-> acc]
         ELSE FlagChars(w, i + 1, cls, acc \cup {c})
RECURSIVE FlagsFrom(_, _, _)
FlagsFrom(who, cls, acc) ==
    IF ~StartsWith(who, "-") THEN [ok |-> TRUE, f |-> acc, who |-> who]
    ELSE LET r == FlagChars(GetWord(who), 2, cls, acc) IN
         IF ~r.ok THEN [ok |-> FALSE, f |-> r.f, who |-> who]
         ELSE FlagsFrom(GetTail(who), cls, r.f)
Flags(who, cls) == FlagsFrom(who, cls, {})

(* ---- lines of at most 74 characters made of items ---- *)
\* acc = [s, line]
AddItem(a, n, item) ==
    IF Len(item) + 1 >= 75 THEN a
    ELSE IF Len(item) + Len(a.line) + 1 >= 75
         THEN [s |-> Out(a.s, n, a.line), line |-> IF item = ", " THEN "" ELSE item]
    ELSE [a EXCEPT !.line = @ \o item]
RECURSIVE AddNames(_, _, _, _, _, _)
AddNames(a, n, title, q, k, suffix) ==
    IF k > Len(q) THEN a
    ELSE LET a1 == AddItem(a, n, IF a.line = "" THEN title ELSE ", ") IN
         AddNames(IF q[k] = "" THEN a1 ELSE AddItem(a1, n, q[k] \o suffix), n, title, q, k + 1, suffix)
\* the first list puts its title only in front of its first name
RECURSIVE AddNames1(_, _, _, _, _)
AddNames1(a, n, title, q, k) ==
    IF k > Len(q) THEN a
    ELSE LET a1 == AddItem(a, n, IF k = 1 THEN title ELSE ", ") IN
         AddNames1(IF q[k] = "" THEN a1 ELSE AddItem(a1, n, q[k]), n, title, q, k + 1)
NameLines(s, n, title, plain, reg) ==
    LET a == AddNames(AddNames1([s |-> s, line |-> ""], n, title, plain, 1), n, title, reg, 1, "(r)")
    IN IF a.line # "" THEN Out(a.s, n, a.line) ELSE a.s
ListInvites(s, n, i) ==
    NameLines(NameLines(s, n, "Nicks invited: ", s.g[i].ni, s.g[i].nr),
              n, "Addrs invited: ", s.g[i].si, s.g[i].sr)

(* ---- admission ---- *)
IsInvited(s, n, i) ==
    LET g == s.g[i]  nick == s.u[n].nick IN
    \/ InList(g.ni, nick) \/ ListMatch(g.si, Addr(s, n))
    \/ IsReg(s, n) /\ (InList(g.nr, nick) \/ ListMatch(g.sr, Addr(s, n)))

Probe(s, n, i, m) ==
    LET g == s.g[i] IN
    IF g.mod > 0 /\ g.vol = Loud /\ ~PriHushed(s, n, g.mod)
    THEN [Stat(s, g.mod, "Probe", m) EXCEPT !.u[g.mod].lpriv = n]
    ELSE s

NewGroup(name, vis, n) ==
    LET ln == Lower(name)
        b == [BlankGroup EXCEPT !.name = name, !.lname = ln, !.vis = vis] IN
    IF ln = Lower(BootGroup) THEN [b EXCEPT !.vis = Secret, !.ib = 3600, !.topic = "Boot-ees"]
    ELSE IF ln = Lower(IdleGroup) THEN [b EXCEPT !.vis = Visible, !.vol = Quiet, !.ib = 0, !.topic = "Idlers"]
    ELSE IF ln = "1" THEN b
    ELSE [b EXCEPT !.ctl = Moderated, !.mod = n]

Presence(s, n) == s.u[n].nick \o " (" \o UserAt(s, n) \o ")"

\* into group i, which admits n
Enter(s, n, i, signon) ==
    LET og == GroupOf(s, n)
        g == s.g[i]
        s1 == SetGrp(s, n, g.name)
        s2 == IF g.vol = Quiet THEN s1
              ELSE StatGroup(s1, g.lname, n, IF signon THEN "Sign-on" ELSE "Arrive",
                             Presence(s, n) \o " entered group")
        s3 == Stat(s2, n, "Status", "You are now in group " \o g.name
                                    \o (IF g.mod = n THEN " as moderator" ELSE ""))
        s4 == [s3 EXCEPT !.u[n].tgroup = s.now]
    IN IF og < 0 THEN s4
       ELSE LET o == s4.g[og] IN
            IF CountIn(s4, o.name) = 0 THEN ClearGroup(s4, og)
            ELSE IF o.vol = Quiet THEN s4
            ELSE LET s5 == StatGroup(s4, o.lname, Nobody, "Depart", Presence(s, n) \o " just left")
                 IN IF o.mod = n THEN Imp(s5, n, "Mod", "You are still mod of group " \o o.name) ELSE s5

\* change to the group named; signon: announced as a sign-on; booting: sent there by the server.
\* <<s, succeeded>>
RECURSIVE Change(_, _, _, _, _)
Change(s, n, name, signon, booting) ==
    IF StartsWith(name, "@") THEN
        LET t == FindUser(s, Drop(name, 1)) IN
        IF t < 0 \/ GroupOf(s, t) < 0 \/ s.g[GroupOf(s, t)].vis # Visible
        THEN <<Err(s, n, "User not found."), FALSE>>
        ELSE Change(s, n, s.u[t].grp, s.u[n].login < 2, booting)
    ELSE IF name = "" THEN <<Err(s, n, "Null groupnames are not allowed."), FALSE>>
    ELSE LET vis == IF StartsWith(name, "..") THEN SuperSecret
                    ELSE IF StartsWith(name, ".") THEN Secret ELSE Visible
             raw == Take(Drop(name, IF vis = SuperSecret THEN 2 ELSE IF vis = Secret THEN 1 ELSE 0), 8)
             gn == FilterGroup(raw)
         IN IF raw = "" THEN <<Err(s, n, "Group name too short."), FALSE>>
    ELSE LET i0 == FindGroup(s, gn)
             i == IF i0 >= 0 THEN i0 ELSE FreeGroup(s)
         IN IF i < 0 THEN <<Err(s, n, "Too many groups!"), FALSE>>
    ELSE LET s1 == IF i0 >= 0 THEN s ELSE AddGroup(s, i, NewGroup(gn, vis, n))
             g == s1.g[i]
         IN IF /\ g.ctl = Restricted /\ ~IsAdmin(s1, n) /\ g.mod # n
               /\ ~IsInvited(s1, n, i) /\ ~booting
            THEN <<Probe(Err(s1, n, gn \o " is restricted."), n, i,
                         s.u[n].nick \o " tried to enter the group."), FALSE>>
            ELSE IF /\ g.ctl \notin {Restricted, Public} /\ g.size > 0 /\ g.mod # n
                    /\ Cardinality({m \in DOMAIN s.u : m < ServerSlot /\ s.u[m].lgrp = g.lname}) >= g.size
            THEN <<Err(Probe(s1, n, i, s.u[n].nick \o " tried to enter the group, but it's full."),
                       n, "Group " \o gn \o " is full."), FALSE>>
            ELSE IF i = GroupOf(s1, n) THEN <<Err(s1, n, "You are already in that group!"), FALSE>>
            ELSE <<Enter(s1, n, i, signon \/ s.u[n].login < 2), TRUE>>

(* ---- invitations ---- *)
ModeCls == [q |-> "quiet", n |-> "mode", s |-> "mode"]
InviteCls == [q |-> "quiet", n |-> "mode", s |-> "mode", r |-> "reg"]
CancelUsage == "Usage: cancel {-q} {-n nickname | -s address}"
InviteUsage == "Usage: invite {-q} {-r} {-n nickname | -s address}"

Cancel(s, n, arg) ==
    LET p == Flags(arg, ModeCls)
        i == GroupOf(s, n)
        g == s.g[i]
        site == "s" \in p.f
        who == IF site THEN Upper(p.who) ELSE p.who
        fyi(z) == IF "q" \in p.f THEN z ELSE Stat(z, n, "FYI", who \o " cancelled")
    IN IF ~p.ok THEN Err(s, n, CancelUsage)
    ELSE IF g.ctl # Restricted \/ g.mod # n THEN
        LET s1 == IF g.ctl # Restricted THEN Err(s, n, "The group isn't restricted.") ELSE s
        IN IF g.mod # n THEN Err(s1, n, "You aren't the moderator.") ELSE s1
    ELSE IF ~site /\ (InList(g.ni, who) \/ InList(g.nr, who)) THEN
        LET s1 == fyi(IF InList(g.ni, who) THEN [s EXCEPT !.g[i].ni = ListDel(@, who)]
                      ELSE [s EXCEPT !.g[i].nr = ListDel(@, who)])
        IN IF FindUser(s, who) < 0 THEN Stat(s1, n, "Warning", who \o " is not signed on") ELSE s1
    ELSE IF site /\ (InList(g.si, who) \/ InList(g.sr, who)) THEN
        fyi(IF InList(g.si, who) THEN [s EXCEPT !.g[i].si = ListDel(@, who)]
            ELSE [s EXCEPT !.g[i].sr = ListDel(@, who)])
    ELSE Stat(s, n, "Warning", who \o " was not invited")

Invite(s, n, arg) ==
    LET p == Flags(arg, InviteCls)
        i == GroupOf(s, n)
        g == s.g[i]
        restr == g.ctl = Restricted
        ismod == g.mod = n
        site == "s" \in p.f
        reg == "r" \in p.f
        who == IF site THEN Upper(p.who) ELSE p.who
        added == IF site THEN (IF reg THEN [s EXCEPT !.g[i].sr = ListPut(@, who, MaxInvites)]
                                      ELSE [s EXCEPT !.g[i].si = ListPut(@, who, MaxInvites)])
                 ELSE (IF reg THEN [s EXCEPT !.g[i].nr = ListPut(@, who, MaxInvites)]
                       ELSE [s EXCEPT !.g[i].ni = ListPut(@, who, MaxInvites)])
        s1 == IF ~(restr /\ ismod) THEN s
              ELSE IF "q" \in p.f THEN added
              ELSE Stat(added, n, "FYI", who \o " invited" \o (IF reg THEN " (registered only)" ELSE ""))
        d == FindUser(s, who)
        s2 == IF site \/ (restr /\ ~ismod) THEN s1
              ELSE IF d < 0 THEN Stat(s1, n, "Warning", who \o " is not signed on.")
              ELSE IF reg /\ ~IsReg(s, d) THEN s1
              ELSE Stat(s1, d, "RSVP", "You are invited to group " \o s.u[n].grp \o " by " \o s.u[n].nick)
        s3 == IF site /\ ~restr THEN Err(s2, n, "The group isn't restricted.") ELSE s2
    IN IF ~p.ok THEN Err(s, n, InviteUsage)
    ELSE IF p.who = "" THEN
        IF ~restr THEN Stat(s, n, "Invite", "Invite lists only function in restricted groups.")
        ELSE LET s4 == ListInvites(s, n, i) IN
             IF Len(g.ni) + Len(g.nr) + Len(g.si) + Len(g.sr) = 0
             THEN Stat(s4, n, "Invite", "No one on invite list") ELSE s4
    ELSE IF restr /\ ~ismod THEN Err(s3, n, "You aren't the moderator.") ELSE s3

(* ---- the moderator's powers ---- *)
Pass(s, n, arg) ==
    LET i == GroupOf(s, n)
        g == s.g[i]
        tell(z, cat, m) == IF g.vol = Quiet THEN z ELSE StatGroup(z, g.lname, Nobody, cat, m)
        w == GetWord(arg)
        d == FindUser(s, w)
    IN IF ~IsAdmin(s, n) /\ g.mod # n THEN Err(s, n, "You aren't the moderator.")
    ELSE IF arg = "" THEN
        LET s1 == tell(SetMod(s, i, 0 - 1), "Pass", s.u[n].nick \o " just relinquished the mod.")
        IN IF g.ctl = Controlled
           THEN tell([s1 EXCEPT !.g[i].ctl = Public], "Change", "Group is now public.") ELSE s1
    ELSE IF w = "" THEN s
    ELSE IF Lower(w) = "server" THEN Err(s, n, "Cannot pass to Server.")
    ELSE IF d < 0 THEN Err(s, n, w \o " is not on!")
    ELSE LET s1 == Stat([SetMod(s, i, d) EXCEPT !.g[i].mt = 0, !.g[i].missing = ""], d, "Pass",
                        s.u[n].nick \o " just passed you moderation of group " \o g.name)
         IN tell(s1, "Pass", s.u[n].nick \o " has passed moderation to " \o s.u[d].nick)

BootCmd(s, n, arg) ==
    LET i == GroupOf(s, n)
        g == s.g[i]
        w == GetWord(arg)
        msg == GetTail(arg)
        d == FindUser(s, w)
        ns == FmtCount(msg)
    IN IF ~IsAdmin(s, n) /\ g.mod # n THEN Err(s, n, "You aren't the moderator.")
    ELSE IF d < 0 THEN Stat(s, n, "Warning", w \o " is not signed on")
    ELSE IF Lower(w) = "admin"
         THEN Stat(Err(s, n, "You nobk! You can't boot the admin!"), d, "Boot Attempt!",
                   s.u[n].nick \o " tried to boot you!")
    ELSE IF msg # "" /\ ns < 0 THEN Err(s, n, FmtBad)
    ELSE IF msg # "" /\ ns > 1 THEN Err(s, n, FmtOne)
    ELSE IF i # GroupOf(s, d) THEN Err(s, n, arg \o " is not in your group")
    ELSE LET dn == s.u[d].nick
             s1 == IF InList(g.ni, dn) THEN [s EXCEPT !.g[i].ni = ListDel(@, dn)]
                   ELSE IF InList(g.nr, dn) THEN [s EXCEPT !.g[i].nr = ListDel(@, dn)] ELSE s
             s2 == IF InList(g.ni, dn) \/ InList(g.nr, dn) THEN Stat(s1, n, "FYI", dn \o " cancelled") ELSE s1
             text == IF msg = "" THEN dn \o " was booted."
                     ELSE IF ns = 0 THEN dn \o " " \o msg ELSE Fmt(msg, dn)
             s3 == IF g.vol = Quiet THEN s2 ELSE StatGroup(s2, g.lname, Nobody, "Boot", text)
             s4 == Stat(s3, d, "Boot", s.u[n].nick \o " booted you.")
         IN [Change(s4, d, BootGroup, FALSE, TRUE)[1] EXCEPT !.st.boots = @ + 1]

Topic(s, n, arg) ==
    LET i == GroupOf(s, n)
        g == s.g[i]
        t == Take(arg, 32)
        s1 == [s EXCEPT !.g[i].topic = t]
    IN IF arg = "" THEN Out(s, n, IF g.topic = "" THEN "The topic is not set." ELSE "The topic is: " \o g.topic)
    ELSE IF g.mod >= 0 /\ g.mod # n THEN Err(s, n, "You aren't the moderator.")
    ELSE IF g.name \in {"1", IdleGroup, BootGroup} THEN Err(s, n, "You can't change this group's topic.")
    ELSE IF g.vol = Quiet THEN s1
    ELSE StatGroup(s1, g.lname, Nobody, "Topic", s.u[n].nick \o " changed the topic to \"" \o t \o "\"")

(* ---- status ---- *)
Cap(v) == CASE v = Visible -> "Visible" [] v = Secret -> "Secret" [] v = SuperSecret -> "Invisible"
            [] v = Public -> "Public" [] v = Moderated -> "Moderated" [] v = Restricted -> "Restricted"
            [] v = Controlled -> "Controlled"
            [] v = Quiet -> "Quiet" [] v = Normal -> "Normal" [] v = Loud -> "Loud"

ShowStatus(s, n) ==
    LET i == GroupOf(s, n)
        g == s.g[i]
        mod == IF g.mod >= 0 THEN s.u[g.mod].nick ELSE IF g.mt = 0 THEN "None" ELSE g.missing
        s1 == Out(s, n, "Name: " \o g.name \o " Mod: " \o mod \o " (" \o Cap(g.vis) \o " / "
                        \o Cap(g.ctl) \o " / " \o Cap(g.vol) \o ")")
        s2 == ListInvites(s1, n, i)
        s3 == NameLines(s2, n, "Nicks who can talk: ", g.nt, g.nrt)
        s4 == Out(s3, n, IF g.size = 0 THEN "Size: no limit"
                         ELSE "Size: " \o Str(g.size) \o " user" \o Plural(g.size) \o " limit")
        s5 == Out(s4, n, IF g.ib = 0 THEN "Idle-Boot: no limit" ELSE "Idle-Boot: " \o HoursMins(g.ib))
        s6 == IF g.ibm = "" THEN s5 ELSE Out(s5, n, "Idle-Boot Message: " \o g.ibm)
    IN IF g.ctl = Public THEN s6
       ELSE Out(s6, n, IF g.im = 0 THEN "Idle-Mod: no limit" ELSE "Idle-Mod: " \o HoursMins(g.im))

StatusTable == <<"Table Of Status Commands", "r - restricted c - controlled m - moderated p - public",
    "i - invisible s - secret v - visible", "q - quiet n - normal l - loud", "name - change group name",
    "? -- this table", "# - change the number of allowed users", "b - change the idleboot setting",
    "idlebootmsg - change the idleboot message", "im - change the idlemod setting">>
RECURSIVE StatAll(_, _, _, _, _)
StatAll(s, n, cat, lines, k) ==
    IF k > Len(lines) THEN s ELSE StatAll(Stat(s, n, cat, lines[k]), n, cat, lines, k + 1)

\* everybody in a group that becomes restricted is invited
RECURSIVE AutoInvite(_, _, _, _)
AutoInvite(s, i, q, k) ==
    IF k > Len(q) THEN s
    ELSE LET m == q[k]  nick == s.u[m].nick
             s1 == IF IsReg(s, m) THEN [s EXCEPT !.g[i].nr = ListPut(@, nick, MaxInvites)]
                   ELSE [s EXCEPT !.g[i].ni = ListPut(@, nick, MaxInvites)]
             s2 == IF s.g[i].mod > 0 THEN Stat(s1, s.g[i].mod, "FYI", nick \o " invited") ELSE s1
             s3 == Stat(s2, m, "FYI", "You are invited to group " \o s.g[i].name \o " by default.")
         IN AutoInvite(s3, i, q, k + 1)
NoInvites(s, i) == [s EXCEPT !.g[i].ni = << >>, !.g[i].nr = << >>, !.g[i].si = << >>, !.g[i].sr = << >>]

RECURSIVE RenameMembers(_, _, _, _)
RenameMembers(s, q, k, name) ==
    IF k > Len(q) THEN s
    ELSE RenameMembers(IF q[k] < ServerSlot THEN SetGrp(s, q[k], name) ELSE s, q, k + 1, name)
Rename(s, n, i, w) ==
    LET nm == FilterGroup(w)  new == Take(nm, 8)  j == FindGroup(s, new)
        s1 == RenameMembers(s, MemberIds(s, i), 1, new)
        s2 == [s1 EXCEPT !.g[i].name = new, !.g[i].lname = Lower(new)]
    IN IF nm = "" THEN Err(s, n, "New name may not be null.")
    ELSE IF new = "1" THEN Err(s, n, "Cannot change name to group 1.")
    ELSE IF Lower(new) \in {Lower(IdleGroup), Lower(BootGroup)} THEN Err(s, n, "Cannot change name to that group.")
    ELSE IF j >= 0 /\ j # i THEN Err(s, n, "That group already exists.")
    ELSE StatGroup(s2, s2.u[n].lgrp, Nobody, "Change", s.u[n].nick \o " renamed group to " \o nm)

Minutes(x) == IF x > 59 * 60 THEN HoursMins(x) ELSE Str(x \div 60) \o " minute" \o Plural(x \div 60)
SecondsOf(w) == LET a == Atoi(w) IN IF a < 0 \/ a > 35791394 THEN 0 - 1 ELSE a * 60
NeedsMod == [r |-> "become restricted", m |-> "become moderated", c |-> "become controlled",
             b |-> "have idleboot changed", im |-> "have idlemod changed", q |-> "be changed to quiet"]

\* one option with its argument: <<s, rest of the line>>
StatusOpt(s, n, i, opt, w, rest) ==
    LET nick == s.u[n].nick
        tell(z, m) == StatGroup(z, z.u[n].lgrp, Nobody, "Change", m)
        arg == GetWord(rest)
        after == GetTail(rest)
    IN CASE opt = "r" -> <<tell(AutoInvite([s EXCEPT !.g[i].ctl = Restricted], i, MemberIds(s, i), 1),
                                "Group is now restricted."), rest>>
         [] opt = "m" -> <<tell(NoInvites([s EXCEPT !.g[i].ctl = Moderated], i), "Group is now moderated."), rest>>
         [] opt = "c" -> <<tell(NoInvites([s EXCEPT !.g[i].ctl = Controlled], i), "Group is now controlled."), rest>>
         [] opt = "p" -> <<tell(NoInvites([s EXCEPT !.g[i].ctl = Public], i), nick \o " made group public."), rest>>
         [] opt = "i" -> <<tell([s EXCEPT !.g[i].vis = SuperSecret], nick \o " made group invisible."), rest>>
         [] opt = "s" -> <<tell([s EXCEPT !.g[i].vis = Secret], nick \o " made group secret."), rest>>
         [] opt = "v" -> <<tell([s EXCEPT !.g[i].vis = Visible], nick \o " made group visible."), rest>>
         [] opt = "q" -> <<tell([s EXCEPT !.g[i].vol = Quiet], nick \o " made group quiet."), rest>>
         [] opt = "n" -> <<tell([s EXCEPT !.g[i].vol = Normal], nick \o " made group normal."), rest>>
         [] opt = "l" -> <<tell([s EXCEPT !.g[i].vol = Loud], nick \o " made group loud."), rest>>
         [] opt = "name" -> <<Rename(s, n, i, arg), after>>
         [] opt = "?" -> <<StatAll(s, n, "Information", StatusTable, 1), rest>>
         [] opt = "#" ->
            (IF arg = "" \/ Atoi(arg) < 0 \/ Atoi(arg) > 254
             THEN <<Err(s, n, "Size must be between 0 and 254."), after>>
             ELSE <<tell([s EXCEPT !.g[i].size = Atoi(arg)],
                         IF Atoi(arg) = 0 THEN nick \o " removed group size limit."
                         ELSE nick \o " made group limited to " \o Str(Atoi(arg)) \o " users."), after>>)
         [] opt = "b" ->
            (IF arg = "" THEN <<Err(s, n, "Idle-Boot must be specified in number of minutes (0=disabled)."), after>>
             ELSE IF SecondsOf(arg) < 0 THEN <<Err(s, n, "Idle-Boot must be > 0 (or 0 to disable)."), after>>
             ELSE <<tell([s EXCEPT !.g[i].ib = SecondsOf(arg)],
                         IF SecondsOf(arg) = 0 THEN nick \o " disabled idle-boot."
                         ELSE nick \o " set idle-boot to " \o Minutes(SecondsOf(arg)) \o "."), after>>)
         [] opt = "im" ->
            (IF arg = "" THEN <<Err(s, n, "Idle-Mod must be between 0 and 240."), after>>
             ELSE LET x == SecondsOf(arg)
                      y == IF x = 0 THEN 14400 ELSE x
                      s1 == IF x = 0 THEN Stat(s, n, "Info", "Using maximum value allowed") ELSE s
                  IN IF y < 1 \/ y > 14400 THEN <<Err(s1, n, "Idle-Mod must be between 0 and 240."), after>>
                     ELSE <<tell([s1 EXCEPT !.g[i].im = y], nick \o " set idle-mod to " \o Minutes(y) \o "."), after>>)
         [] opt = "idlebootmsg" ->
            (IF rest = "" \/ Len(rest) > 54
             THEN <<Err(s, n, "Idle-Boot message length must be between 1 and 54 (yours was "
                              \o Str(Len(rest)) \o ")."), "">>
             ELSE IF FmtCount(rest) < 0 THEN <<Err(s, n, FmtBad), "">>
             ELSE IF FmtCount(rest) # 1 THEN <<Err(s, n, FmtOne), "">>
             ELSE <<Stat([s EXCEPT !.g[i].ibm = rest], n, "Change", "Idle-boot msg: " \o rest), "">>)
         [] OTHER -> <<Err(s, n, "Option " \o w \o " unknown."), rest>>

RECURSIVE StatusLoop(_, _, _, _, _)
StatusLoop(s, n, i, hasMod, p) ==
    LET w == GetWord(p)  opt == Lower(w)  rest == GetTail(p) IN
    IF w = "" THEN s
    ELSE IF opt \in DOMAIN NeedsMod /\ ~hasMod
    THEN StatusLoop(Err(s, n, "Groups without a moderator cannot " \o NeedsMod[opt] \o "."), n, i, hasMod,
                    IF opt \in {"b", "im"} THEN GetTail(rest) ELSE rest)
    ELSE LET r == StatusOpt(s, n, i, opt, w, rest) IN StatusLoop(r[1], n, i, hasMod, r[2])

Status(s, n, arg) ==
    LET i == GroupOf(s, n)
        g == s.g[i]
        hasMod == g.mod # 0 - 1 \/ g.mt > 0
    IN IF arg = "" THEN ShowStatus(s, n)
    ELSE IF g.lname = "1" THEN Err(s, n, "Can't change group 1!")
    ELSE IF g.lname = Lower(IdleGroup) THEN Err(s, n, "Can't change group ~IDLE~!")
    ELSE IF g.lname = Lower(BootGroup) THEN Err(s, n, "Can't change group ~RESEDA~!")
    ELSE IF g.mod # n /\ hasMod /\ g.ctl # Public THEN Err(s, n, "You aren't the moderator.")
    ELSE StatusLoop(s, n, i, hasMod, arg)

(* ---- open messages ---- *)
MayTalk(s, n, g) == g.ctl # Controlled \/ g.mod = n \/ CanTalkListed(s, n, g)
\* the members an open message of n reaches
Hearers(s, n) ==
    SelectSeq(s.ids, LAMBDA m : /\ m < ServerSlot /\ s.u[m].login = 2 /\ s.u[m].lgrp = s.u[n].lgrp
                                /\ (m # n \/ s.u[n].echo # 0) /\ ~PubHushed(s, n, m))
RECURSIVE OpenTo(_, _, _, _, _)
OpenTo(s, n, q, k, m) == IF k > Len(q) THEN s ELSE OpenTo(SendOpen(s, n, q[k], m), n, q, k + 1, m)

NoTalk == "You do not have permission to send open messages in this group."
NoQuiet == "Open messages not permitted in quiet groups."

RECURSIVE ExclTo(_, _, _, _, _, _)
ExclTo(s, n, q, k, notice, m) ==
    IF k > Len(q) THEN s
    ELSE ExclTo(SendOpen(Stat(s, q[k], "Exclude", notice), n, q[k], m), n, q, k + 1, notice, m)
Exclude(s, n, arg) ==
    LET w == GetWord(arg)  m == GetTail(arg)  i == GroupOf(s, n)
        j == FindUser(s, w)
        q == SelectSeq(Hearers(s, n), LAMBDA x : s.u[x].lnick # Lower(w))
    IN IF m = "" THEN Err(s, n, "Empty message.")
    ELSE IF i >= 0 /\ s.g[i].vol = Quiet THEN Err(s, n, NoQuiet)
    ELSE IF i >= 0 /\ ~MayTalk(s, n, s.g[i]) THEN Err(s, n, NoTalk)
    ELSE ExclTo(s, n, q, 1, s.u[n].nick \o "'s next message excludes "
                            \o (IF j > 0 THEN s.u[j].nick ELSE w) \o ":", m)

(* ---- who may talk in a controlled group ---- *)
TalkUsage == "Usage: talk {-a} {-q} {-r} {-d} nickname"
TalkDelete(s, who, i) ==      \* <<s, how many lists it was in>>
    LET g == s.g[i]  a == InList(g.nt, who)  b == InList(g.nrt, who)
        s1 == [s EXCEPT !.g[i].nt = ListDel(@, who), !.g[i].nrt = ListDel(@, who)]
        d == FindUser(s, who)
    IN IF ~a /\ ~b THEN <<s, 0>>
       ELSE <<IF d >= 0 /\ (a \/ IsReg(s, d))
              THEN Stat(s1, d, "TALK", "You no longer can talk in group " \o s.u[g.mod].grp
                                       \o " (no thanks to " \o s.u[g.mod].nick \o ")")
              ELSE s1, (IF a THEN 1 ELSE 0) + (IF b THEN 1 ELSE 0)>>
RECURSIVE TalkClear(_, _, _, _, _, _)
TalkClear(s, n, i, q, what, quiet) ==
    IF q = << >> THEN s
    ELSE LET r == TalkDelete(s, q[1], i)
             s1 == IF r[2] > 0 /\ ~quiet THEN Stat(r[1], n, "FYI", q[1] \o what) ELSE r[1]
         IN TalkClear(s1, n, i, Tail(q), what, quiet)
Talk(s, n, arg) ==
    LET p == Flags(arg, [q |-> "q", a |-> "a", d |-> "d", r |-> "r"])
        i == GroupOf(s, n)
        g == s.g[i]
        who == p.who
        quiet == "q" \in p.f
        reg == "r" \in p.f
        fyi(z, m) == IF quiet THEN z ELSE Stat(z, n, "FYI", m)
        del == TalkDelete(s, who, i)
        s1 == IF "a" \in p.f THEN s
              ELSE TalkClear(s, n, i, g.nt, " removed from talk list", quiet)
        s2 == IF "a" \in p.f THEN s1
              ELSE TalkClear(s1, n, i, s1.g[i].nrt, " removed from registered talk list", quiet)
        s3 == IF reg THEN fyi([s2 EXCEPT !.g[i].nrt = ListPut(@, who, MaxInvites)],
                              who \o " can talk (registered only)")
              ELSE fyi([s2 EXCEPT !.g[i].nt = ListPut(@, who, MaxInvites)], who \o " can talk")
        d == FindUser(s, who)
    IN IF ~p.ok \/ who = "" THEN Err(s, n, TalkUsage)
    ELSE IF g.ctl = Public THEN Err(s, n, "The group is public.")
    ELSE IF g.mod # n THEN Err(s, n, "You aren't the moderator.")
    ELSE IF "d" \in p.f THEN
        IF del[2] = 0 THEN Err(s, n, who \o " is not in talk list")
        ELSE fyi(del[1], who \o " removed from talk list")
    ELSE IF d < 0 THEN Stat(s3, n, "Warning", who \o " is not signed on.")
    ELSE IF reg /\ ~IsReg(s, d) THEN s3
    ELSE Stat(s3, d, "TALK", "You can talk in group " \o s.u[n].grp \o " (courtesy of " \o s.u[n].nick \o ")")
=============================================================================
