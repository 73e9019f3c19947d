------------------------------ MODULE IcbState ------------------------------
(* The state of a running icbd and the primitives everything else is made of:
   user and group tables, what is sent to whom, moderators, name lists.

   A state is one record:
     now     seconds of virtual time
     u       slot -> user record, for every connected slot and for ServerSlot
     ids     the slots of u in increasing order
     conn    the connected slots in the order the server polls them
     g       index -> group record;  gids  its indices in increasing order
     db      registration database: lower case "nick.attribute" -> value
     die     time of the scheduled shutdown or NoDie;  ntf  notices sent
     st      server statistics
     out     sequence of <<slot, packet>> sent since the last action began
     wd      slots to be disconnected
     closed  slots disconnected since the last action began
     dead    the server has exited
     cfg     the server's files: motd, help, news, deny, perms
*)
EXTENDS IcbText

ServerSlot == 254
MaxSlot == 253
MaxGroups == 300

Public == "public"  Moderated == "moderated"  Restricted == "restricted"  Controlled == "controlled"
Visible == "visible"  Secret == "secret"  SuperSecret == "invisible"
Loud == "loud"  Normal == "normal"  Quiet == "quiet"

IdleGroup == "~IDLE~"
BootGroup == "~RESEDA~"

NoDie == 0 - 999999999
DefIdleBoot == 3600
DefIdleMod == 3600
ModTimeout == 300
MaxHushed == 32
MaxNotifies == 40
MaxInvites == 50
MaxWrites == 20
StartingBricks == 5
MaxBricks == 20

BlankUser == [login |-> 0, id |-> "", node |-> "", ip |-> <<127, 0, 0, 1>>, at |-> "127.0.0.1", nick |-> "", lnick |-> "", pass |-> "",
              real |-> FALSE, grp |-> "", lgrp |-> "", away |-> "", la |-> 0, lat |-> 0, echo |-> 0,
              nobeep |-> 0, slow |-> FALSE, ton |-> 0, trecv |-> 0 - Base, tgroup |-> 0, secure |-> FALSE,
              hpn |-> << >>, hps |-> << >>, hun |-> << >>, hus |-> << >>,   \* private / public hush lists, by nick / site
              nn |-> << >>, ns |-> << >>,                                   \* notify lists, by nick / site
              bricks |-> StartingBricks, kill |-> FALSE, lpriv |-> 0 - 1, pong |-> 0 - 1, ping |-> 0, rc |-> 0,
              inb |-> "", fin |-> FALSE, gone |-> FALSE]

BlankGroup == [name |-> "", lname |-> "", topic |-> "", missing |-> "", vis |-> Visible, ctl |-> Public,
               vol |-> Loud, mod |-> 0 - 1, mt |-> 0, ni |-> << >>, nr |-> << >>, si |-> << >>, sr |-> << >>,
               nt |-> << >>, nrt |-> << >>, size |-> 0, ib |-> DefIdleBoot, ibm |-> "", im |-> DefIdleMod]

ServerUser == [BlankUser EXCEPT !.login = 2, !.id = "server", !.node = "127.0.0.1", !.nick = "Server",
                 !.lnick = "server", !.grp = "ICB", !.lgrp = "icb", !.nobeep = 1, !.real = TRUE]

ServerGroup == [BlankGroup EXCEPT !.name = "ICB", !.lname = "icb", !.topic = "...here to serve you!",
                  !.vis = SuperSecret, !.ctl = Restricted, !.vol = Quiet, !.mod = ServerSlot]

Boot(t, db, cfg) ==
    [now |-> t, u |-> (ServerSlot :> [ServerUser EXCEPT !.node = cfg.host, !.ton = t, !.trecv = t]), ids |-> <<ServerSlot>>,
     conn |-> << >>, chan |-> << >>, g |-> (0 :> ServerGroup), gids |-> <<0>>, db |-> db, die |-> NoDie, ntf |-> 0,
     st |-> [start |-> t, signons |-> 0, boots |-> 0, drops |-> 0, idleboots |-> 0, idlemods |-> 0],
     out |-> << >>, wd |-> {}, closed |-> {}, dead |-> FALSE, cfg |-> cfg, log |-> cfg.log, jr |-> << >>]

(* ---------------- lookups ---------------- *)
SortedInsert(q, x) == LET k == Cardinality({i \in 1..Len(q) : q[i] < x})
                      IN SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
Restrict_(f, S) == [x \in S |-> f[x]]

\* first element of q satisfying P, or -1
RECURSIVE FirstIn(_, _, _)
FirstIn(q, S, i) == IF i > Len(q) THEN 0 - 1 ELSE IF q[i] \in S THEN q[i] ELSE FirstIn(q, S, i + 1)
LeastOf(S) == IF S = {} THEN 0 - 1 ELSE CHOOSE x \in S : \A y \in S : x <= y

FindUser(s, name) ==
    IF name = "" THEN 0 - 1
    ELSE LET ln == Lower(name) IN LeastOf({n \in DOMAIN s.u : s.u[n].lnick = ln})
FindGroup(s, name) ==
    IF name = "" THEN 0 - 1
    ELSE LET ln == Lower(name) IN LeastOf({i \in DOMAIN s.g : s.g[i].lname = ln})
GroupOf(s, n) == IF s.u[n].lgrp = "" THEN 0 - 1
                 ELSE LeastOf({i \in DOMAIN s.g : s.g[i].lname = s.u[n].lgrp})
FreeGroup(s) == LeastOf((0..MinI(Len(s.gids), MaxGroups - 1)) \ DOMAIN s.g)
CountIn(s, name) == LET ln == Lower(name) IN
    IF ln = "" THEN 0 ELSE Cardinality({n \in DOMAIN s.u : s.u[n].lgrp = ln})
ModOf(s, n) == LeastOf({i \in DOMAIN s.g : s.g[i].mod = n})
MemberIds(s, i) == SelectSeq(s.ids, LAMBDA n : s.u[n].lgrp = s.g[i].lname)
Addr(s, n) == Upper(s.u[n].id \o "@" \o s.u[n].node)
UserAt(s, n) == s.u[n].id \o "@" \o s.u[n].node
UNick(s, n) == Upper(s.u[n].nick)
IsReg(s, n) == s.u[n].real
IsAdmin(s, n) == s.u[n].lnick = "admin" /\ Lower(s.u[n].pass) = Lower(s.cfg.adminpw)

(* ---------------- the log ---------------- *)
\* at level 3 and above the log tells what happens, and when
\* (an entry is one line, whatever it quotes)
RECURSIVE OneLine(_, _, _)
OneLine(m, i, acc) == IF i > Len(m) THEN acc
                      ELSE OneLine(m, i + 1, acc \o (IF Ord(At(m, i)) < 32 \/ Ord(At(m, i)) = 127 THEN "?" ELSE At(m, i)))
Jot(s, m) == IF s.log >= 3 THEN [s EXCEPT !.jr = Append(@, <<s.now, m>>)] ELSE s

(* ---------------- output ---------------- *)
Real(s, to) == to >= 0 /\ to < ServerSlot
Put(s, to, pkt) ==
    IF to < 0 \/ to >= ServerSlot \/ to \notin DOMAIN s.u THEN s
    ELSE IF s.u[to].kill \/ to \in s.wd THEN s
    ELSE [s EXCEPT !.out = Append(@, <<to, pkt>>)]

Err(s, to, m)       == Put(s, to, "e" \o Filt(m, 253))
Stat(s, to, cat, m) == Put(s, to, "d" \o Filt(cat, 20) \o SOH \o Filt(m, 232))
Imp(s, to, cat, m)  == Put(s, to, "f" \o Filt(cat, 20) \o SOH \o Filt(m, 232))
Out(s, to, m)       == Put(s, to, "ico" \o SOH \o Filt(m, 250))
CmdEnd(s, to, m)    == Put(s, to, "iec" \o SOH \o SOH \o Filt(m, 249))
SendOpen(s, from, to, m) == Put(s, to, "b" \o Filt(s.u[from].nick, 12) \o SOH \o Filt(m, 240))
PersonPkt(nick, m)  == "c" \o Filt(nick, 12) \o SOH \o Filt(m, 240)
ExitPkt == "g"
RECURSIVE OutAll(_, _, _, _)
OutAll(s, to, lines, i) == IF i > Len(lines) THEN s ELSE OutAll(Out(s, to, lines[i]), to, lines, i + 1)

\* does `to` hush private messages from `from`?
PriHushed(s, from, to) == \/ ListMatch(s.u[to].hps, Addr(s, from))
                          \/ ListMatch(s.u[to].hpn, UNick(s, from))
PubHushed(s, from, to) == \/ ListMatch(s.u[to].hus, Addr(s, from))
                          \/ ListMatch(s.u[to].hun, UNick(s, from))

\* a private message to a user that is not the server itself
SendPerson(s, from, to, m) ==
    IF PriHushed(s, from, to) THEN Stat(s, from, "Bounce", "Message did not go through")
    ELSE Put([s EXCEPT !.u[to].lpriv = from], to, PersonPkt(s.u[from].nick, m))

AutoBeep(s, to) ==
    LET s1 == SendPerson(s, ServerSlot, to, "Beep yerself!")
    IN [s1 EXCEPT !.u[ServerSlot].trecv = s.now]

SendBeep(s, from, to) ==
    IF s.u[to].nobeep # 0 THEN
        LET s1 == Err(s, from, "User has nobeep enabled.") IN
        IF s.u[to].nobeep = 2
        THEN Stat(s1, to, "No-Beep", s.u[from].nick \o " attempted (and failed) to beep you")
        ELSE s1
    ELSE IF to = ServerSlot THEN AutoBeep(s, from)
    ELSE Put(s, to, "k" \o s.u[from].nick)

(* ---------------- user table ---------------- *)
SetNick(s, n, nick) == [s EXCEPT !.u[n].nick = nick, !.u[n].lnick = Lower(nick)]
SetGrp(s, n, grp) == [s EXCEPT !.u[n].grp = grp, !.u[n].lgrp = Lower(grp)]

\* forget everything a slot was to others
ForgetSlot(s, n) ==
    [s EXCEPT !.u = [m \in DOMAIN s.u |->
        LET r == s.u[m] IN
        IF r.lpriv = n \/ r.la = n \/ r.pong = n
        THEN [r EXCEPT !.lpriv = IF @ = n THEN 0 - 1 ELSE @,
                       !.la = IF @ = n THEN 0 ELSE @,
                       !.pong = IF @ = n THEN 0 - 1 ELSE @]
        ELSE r]]

(* ---------------- group table ---------------- *)
ClearGroup(s, i) == [s EXCEPT !.g = Restrict_(@, DOMAIN @ \ {i}), !.gids = Without(@, i)]
AddGroup(s, i, rec) == [s EXCEPT !.g = (i :> rec) @@ @, !.gids = SortedInsert(@, i)]

\* a status message to everybody in a group (lower case name) except one slot
RECURSIVE StatSeq(_, _, _, _, _, _)
StatSeq(s, q, k, except, cat, m) ==
    IF k > Len(q) THEN s
    ELSE StatSeq(IF q[k] = except THEN s ELSE Stat(s, q[k], cat, m), q, k + 1, except, cat, m)
StatGroup(s, lgrp, except, cat, m) ==
    StatSeq(s, SelectSeq(s.ids, LAMBDA n : s.u[n].lgrp = lgrp), 1, except, cat, m)
Nobody == 0 - 1

\* the least idle member (lowest slot on ties) of a set of slots, or -1
LeastIdle(s, S) ==
    IF S = {} THEN 0 - 1
    ELSE CHOOSE n \in S : \A m \in S : \/ s.u[n].trecv > s.u[m].trecv
                                       \/ s.u[n].trecv = s.u[m].trecv /\ n <= m
Members(s, lgrp) == {n \in DOMAIN s.u : s.u[n].login = 2 /\ s.u[n].lgrp = lgrp}

SetMod(s, i, n) == [s EXCEPT !.g[i].mod = n]
=============================================================================
