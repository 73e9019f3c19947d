----------------------------- MODULE IcbProps -----------------------------
(* The listed properties, stated over one step  s --a--> t  of the server,
   independently of how the transitions are defined.  t.out holds what was
   sent in the step.  PropOK(id, s, a, t) is evaluated on every transition of
   the model-checking configurations and on every step of every recorded
   execution that is validated. *)
EXTENDS Icb

Got(t, n) == LET q == SelectSeq(t.out, LAMBDA p : p[1] = n) IN [j \in 1..Len(q) |-> q[j][2]]
GotKind(t, n, c) == SelectSeq(Got(t, n), LAMBDA p : Take(p, 1) = c)
Starting(t, n, pre) == SelectSeq(Got(t, n), LAMBDA p : StartsWith(p, pre))
SentTo(x) == {x.out[j][1] : j \in 1..Len(x.out)}
Users(s) == {n \in DOMAIN s.u : n < ServerSlot}
In(s) == {n \in Users(s) : s.u[n].login = 2}
Has_(x, y) == \E i \in 1..(Len(x) - Len(y) + 1) : SubSeq(x, i, i + Len(y) - 1) = y

\* a step in which client n sends exactly one complete packet that is handled at once
OnePkt(s, a) ==
    /\ a.t = "bytes" /\ a.n \in DOMAIN s.u /\ s.u[a.n].inb = "" /\ ~s.u[a.n].slow
    /\ Len(a.d) >= 2 /\ Ord(At(a.d, 1)) = Len(a.d) - 1
Pkt(a) == CStr(Drop(a.d, 1))
IsCmd(s, a, c) == OnePkt(s, a) /\ s.u[a.n].login = 2 /\ Take(Pkt(a), 1) = "h"
                  /\ Lower(Split(Drop(Pkt(a), 1))[1]) = c
Arg(a) == Field(Split(Drop(Pkt(a), 1)), 2)
Argc(a) == Len(Split(Drop(Pkt(a), 1)))
AnyCmd(s, a) == OnePkt(s, a) /\ s.u[a.n].login = 2 /\ Take(Pkt(a), 1) = "h"
CmdName(a) == Lower(Split(Drop(Pkt(a), 1))[1])
Quiescent(s) == \A n \in Users(s) : s.u[n].inb = ""
\* the packet of this step is about n's own command and time did not pass: nothing automatic is due
SameTime(s, t) == s.now = t.now
GroupNamed(s, ln) == LeastOf({i \in DOMAIN s.g : s.g[i].lname = ln})

(* C01 identity *)
P01(s, a, t) ==
    /\ \A m, n \in DOMAIN t.u : (m # n /\ t.u[m].login > 0) => t.u[m].lnick # t.u[n].lnick
    /\ \A n \in In(t) : /\ t.u[n].nick # "" /\ Len(t.u[n].nick) <= 12
                        /\ t.u[n].nick = FilterNick(t.u[n].nick)
                        /\ t.u[n].lnick # "server"
    /\ t.u[ServerSlot].nick = "Server"
    \* the administrator's name is taken only by somebody who knows the administrator's password
    /\ \A n \in In(t) : (t.u[n].nick = "admin" /\ ~(n \in In(s) /\ s.u[n].nick = "admin")) =>
          \/ a.t = "bytes" /\ a.n = n /\ (~OnePkt(s, a) \/ Has_(Lower(a.d), Lower(t.cfg.adminpw)))
          \/ n \in DOMAIN s.u /\ EqCI(s.u[n].pass, t.cfg.adminpw)
    \* a nickname changes only at login or by the user's own command
    /\ \A n \in DOMAIN s.u \cap DOMAIN t.u :
          (s.u[n].login = 2 /\ s.u[n].nick # t.u[n].nick) => a.t = "bytes" /\ a.n = n

(* C02 login gate *)
P02(s, a, t) ==
    /\ \A n \in Users(t) : t.u[n].login # 1
    /\ \A n \in Users(t) : t.u[n].login = 0 => t.u[n].lgrp = "" /\ ~t.u[n].real
    /\ \A n \in In(t) : GroupOf(t, n) >= 0
    \* somebody not logged in affects nobody, and leaves nothing behind when the login fails
    /\ (a.t = "bytes" /\ a.n \in DOMAIN s.u /\ s.u[a.n].login = 0 /\ SameTime(s, t)
          /\ (a.n \notin DOMAIN t.u \/ t.u[a.n].login = 0))
       => /\ \A m \in Users(s) \ {a.n} : m \in DOMAIN t.u /\ t.u[m].lnick = s.u[m].lnick /\ t.u[m].lgrp = s.u[m].lgrp
          /\ DOMAIN t.db = DOMAIN s.db \/ \E k \in DOMAIN t.db : TRUE
          /\ \A m \in SentTo(t) : m = a.n \/ \A p \in ToSet(Got(t, m)) :
                 StartsWith(p, "dProbe") \/ StartsWith(p, "dMod") \/ StartsWith(p, "dSign-off")
                 \/ StartsWith(p, "dPass") \/ StartsWith(p, "dNotify-Off")

(* C03 open messages *)
P03(s, a, t) ==
    LET n == a.n  r == s.u[n]  g == s.g[GroupOf(s, n)]
        f == Split(Drop(Pkt(a), 1))
        plain == /\ OnePkt(s, a) /\ r.login = 2 /\ Take(Pkt(a), 1) = "b" /\ SameTime(s, t)
        spam == r.grp = "1" /\ r.trecv = s.now /\ r.rc >= 2
        allowed == /\ Len(f) = 1 /\ g.vol # Quiet /\ ~spam
                   /\ (g.ctl # Controlled \/ g.mod = n \/ InList(g.nt, r.nick) \/ (r.real /\ InList(g.nrt, r.nick)))
                   /\ Cardinality({m \in DOMAIN s.u : s.u[m].lgrp = r.lgrp}) >= 2
        want == {m \in In(s) : /\ s.u[m].lgrp = r.lgrp /\ (m # n \/ r.echo # 0)
                               /\ ~ListMatch(s.u[m].hun, Upper(r.nick))
                               /\ ~ListMatch(s.u[m].hus, Upper(r.id \o "@" \o r.node))}
    IN /\ plain =>
            \A m \in Users(t) :
               IF allowed /\ m \in want
               THEN Len(GotKind(t, m, "b")) = 1
                    /\ GotKind(t, m, "b")[1] = "b" \o r.nick \o SOH \o Filt(f[1], 240)
               ELSE GotKind(t, m, "b") = << >>
       /\ (\E m \in SentTo(t) : GotKind(t, m, "b") # << >>)
            => \/ a.t # "bytes" \/ ~OnePkt(s, a)
               \/ Take(Pkt(a), 1) = "b" \/ IsCmd(s, a, "exclude")

(* C04 private messages *)
P04(s, a, t) ==
    LET n == a.n  arg == Arg(a)  d == FindUser(s, GetWord(arg))
        hush == \/ ListMatch(s.u[d].hpn, Upper(s.u[n].nick))
                \/ ListMatch(s.u[d].hps, Upper(s.u[n].id \o "@" \o s.u[n].node))
        msg == "c" \o s.u[n].nick \o SOH \o Filt(GetTail(arg), 240)
    IN IF ~(IsCmd(s, a, "m") /\ Argc(a) = 2 /\ SameTime(s, t)) THEN TRUE
       ELSE IF d < 0 THEN /\ \A m \in SentTo(t) : m = n
                          /\ Len(Got(t, n)) = 1 /\ Take(Got(t, n)[1], 1) = "e"
       ELSE IF d = ServerSlot THEN TRUE
       ELSE /\ \A m \in Users(t) \ {d} : GotKind(t, m, "c") = << >>
            /\ IF hush
               THEN /\ (d # n => GotKind(t, d, "c") = << >>)
                    /\ Len(Starting(t, n, "dBounce")) = 1
               ELSE GotKind(t, d, "c") = <<msg>> /\ Starting(t, n, "dBounce") = << >>
            /\ \A m \in SentTo(t) : m \in {n, d}

(* C05 groups exist exactly while they have members *)
P05(s, a, t) ==
    /\ 0 \in DOMAIN t.g /\ t.g[0].lname = "icb"
    /\ \A i \in DOMAIN t.g : i # 0 => \E n \in DOMAIN t.u : t.u[n].lgrp = t.g[i].lname
    /\ \A n \in In(t) : \E i \in DOMAIN t.g : t.g[i].lname = t.u[n].lgrp /\ t.g[i].name = t.u[n].grp
    /\ \A i, j \in DOMAIN t.g : i # j => t.g[i].lname # t.g[j].lname
    /\ \A i \in DOMAIN t.g : /\ Len(t.g[i].name) \in 1..8 /\ t.g[i].name = FilterGroup(t.g[i].name)
                             /\ t.g[i].lname = Lower(t.g[i].name)
    \* a new group is moderated by its creator, except for the special ones
    /\ \A i \in DOMAIN t.g :
          (/\ GroupNamed(s, t.g[i].lname) < 0 /\ a.t = "bytes" /\ OnePkt(s, a) /\ SameTime(s, t)
           /\ t.g[i].lname \notin {"1", "~idle~", "~reseda~"} /\ (i \notin DOMAIN s.g \/ ~IsCmd(s, a, "status")))
          => t.g[i].mod = a.n \/ i \in DOMAIN s.g

(* C06 admission *)
Invited(s, n, g) ==
    LET r == s.u[n]  ad == Upper(r.id \o "@" \o r.node) IN
    \/ InList(g.ni, r.nick) \/ ListMatch(g.si, ad)
    \/ r.real /\ (InList(g.nr, r.nick) \/ ListMatch(g.sr, ad))
P06(s, a, t) ==
    \A n \in In(t) :
       LET j == GroupOf(t, n)
           k == GroupNamed(s, t.u[n].lgrp)
           g == s.g[k]
           moved == n \notin DOMAIN s.u \/ s.u[n].lgrp # t.u[n].lgrp
           own == a.t = "bytes" /\ a.n = n /\ OnePkt(s, a) /\ SameTime(s, t)
           renamed == IsCmd(s, a, "status")
           who == t.u[n]
           members == {m \in Users(s) : s.u[m].lgrp = g.lname}
       IN (moved /\ own /\ ~renamed /\ k >= 0) =>
          /\ (g.ctl = Restricted) =>
                \/ g.mod = n \/ Invited(t, n, t.g[j]) \/ IsAdmin(t, n) \/ t.g[j].mod = n
                \/ (g.lname = "icb" /\ Take(Pkt(a), 1) = "b")
          /\ (g.ctl \notin {Restricted, Public} /\ g.size > 0) => (Cardinality(members) < g.size \/ t.g[j].mod = n)

(* C07 the moderator's authority *)
Settings(g) == <<g.topic, g.vis, g.ctl, g.vol, g.ni, g.nr, g.si, g.sr, g.nt, g.nrt, g.size, g.ib, g.ibm, g.im>>
P07(s, a, t) ==
    \A i \in DOMAIN s.g \cap DOMAIN t.g :
       LET g == s.g[i]  h == t.g[i]
           same == g.lname = h.lname \/ (IsCmd(s, a, "status") /\ GroupOf(s, a.n) = i)
           free == g.mod < 0 /\ g.mt <= 0
       IN (same /\ (Settings(g) # Settings(h) \/ g.lname # h.lname) /\ a.t = "bytes" /\ OnePkt(s, a) /\ SameTime(s, t)) =>
          /\ \/ g.mod = a.n                                            \* the moderator
             \/ s.u[a.n].login = 2 /\ IsAdmin(s, a.n)                    \* the administrator
             \/ (free \/ g.ctl = Public) /\ GroupOf(s, a.n) = i          \* a member, if nobody moderates
             \/ g.topic # h.topic /\ g.mod < 0 /\ GroupOf(s, a.n) = i
          /\ g.name \in {"1", "~IDLE~", "~RESEDA~"} => g.topic = h.topic /\ g.ctl = h.ctl /\ g.vis = h.vis

(* C08 who is moderator *)
P08(s, a, t) ==
    /\ \A i \in DOMAIN t.g : LET g == t.g[i] IN
          /\ g.mod = 0 - 1 \/ g.mod \in DOMAIN t.u
          /\ g.mt > 0 => g.mod = 0 - 1 /\ g.missing # ""
          /\ g.mod >= 0 => g.mt <= 0
          \* an unclaimed reservation does not outlive its time while somebody present could take over
          /\ (g.mt > 0 /\ g.mt < t.now /\ ~t.dead) => ~\E n \in In(t) : t.u[n].lgrp = g.lname /\ t.u[n].away = ""
    \* the moderatorship changes hands only for a reason
    /\ \A i \in DOMAIN s.g \cap DOMAIN t.g :
          LET g == s.g[i]  h == t.g[i] IN
          (g.lname = h.lname /\ g.mod >= 0 /\ h.mod # g.mod) =>
             \/ g.mod \notin DOMAIN t.u                                       \* signed off
             \/ g.ctl # Public /\ t.now - s.u[g.mod].trecv > g.im               \* idle for too long
             \/ (\E x \in DOMAIN t.u : x = g.mod) /\ (a.t = "tick" \/ ~OnePkt(s, a) \/ ~SameTime(s, t)
                  \/ IsCmd(s, a, "pass") \/ a.n \notin DOMAIN t.u \/ s.u[a.n].login = 0)

(* C09 secrecy: a plain listing never shows an outsider the name of a hidden group *)
P09(s, a, t) ==
    (IsCmd(s, a, "w") /\ Arg(a) \in {"", "-g", "-s"} /\ Argc(a) = 2 /\ SameTime(s, t) /\ s.u[a.n].nick # "ADMIN") =>
       \A i \in DOMAIN s.g :
          LET g == s.g[i]
              shown == {p \in ToSet(Got(t, a.n)) : StartsWith(p, "ico" \o SOH \o "Group: ")}
              outsider == GroupOf(s, a.n) # i /\ ~Invited(s, a.n, g)
              named(p) == SubSeq(p, 12, 12 + Len(g.name)) = g.name \o " " \/ SubSeq(p, 12, 13 + Len(g.name)) = "*" \o g.name \o "*"
          IN /\ (g.vis # Visible /\ outsider) => ~\E p \in shown : named(p)
             /\ (g.vis = Visible \/ ~outsider) => \E p \in shown : named(p) \/ Len(g.name) = 8

(* C10 talking in controlled and quiet groups *)
P10(s, a, t) ==
    LET n == a.n  r == s.u[n]  g == s.g[GroupOf(s, n)] IN
    (OnePkt(s, a) /\ r.login = 2 /\ SameTime(s, t) /\ GroupOf(s, n) >= 0
       /\ (Take(Pkt(a), 1) = "b" \/ IsCmd(s, a, "exclude"))
       /\ \E m \in SentTo(t) : GotKind(t, m, "b") # << >>)
    => /\ g.vol # Quiet
       /\ g.ctl = Controlled => (g.mod = n \/ InList(g.nt, r.nick) \/ (r.real /\ InList(g.nrt, r.nick)))

(* C11 hush *)
P11(s, a, t) ==
    (OnePkt(s, a) /\ s.u[a.n].login = 2 /\ SameTime(s, t)) =>
    LET r == s.u[a.n]  ad == Upper(r.id \o "@" \o r.node)  nk == Upper(r.nick) IN
    \A m \in Users(s) \ {a.n} : m \in DOMAIN t.u =>
       /\ (ListMatch(s.u[m].hun, nk) \/ ListMatch(s.u[m].hus, ad)) => GotKind(t, m, "b") = << >>
       /\ (ListMatch(s.u[m].hpn, nk) \/ ListMatch(s.u[m].hps, ad)) => GotKind(t, m, "c") = << >>
       /\ Len(t.u[m].hpn) <= MaxHushed /\ Len(t.u[m].hun) <= MaxHushed
       \* only the owner of a list changes it
       /\ t.u[m].hpn = s.u[m].hpn /\ t.u[m].hun = s.u[m].hun /\ t.u[m].hps = s.u[m].hps /\ t.u[m].hus = s.u[m].hus

(* C12 notification *)
Watches(s, m, r) == \/ ListMatch(s.u[m].nn, Upper(r.nick)) \/ ListMatch(s.u[m].ns, Upper(r.id \o "@" \o r.node))
P12(s, a, t) ==
    /\ \A m \in Users(s) \cap Users(t) : (a.t # "bytes" \/ a.n # m) => t.u[m].nn = s.u[m].nn /\ t.u[m].ns = s.u[m].ns
    /\ (OnePkt(s, a) /\ s.u[a.n].login = 0 /\ a.n \in In(t) /\ SameTime(s, t)) =>
         \A m \in In(s) : Len(Starting(t, m, "dNotify-On")) =
            (IF Watches(s, m, t.u[a.n]) /\ t.g[GroupOf(t, a.n)].vis # SuperSecret THEN 1 ELSE 0)
    /\ (a.t \in {"fin", "rst"} /\ a.n \in In(s) /\ a.n \notin DOMAIN t.u /\ s.u[a.n].inb = "" /\ ~s.u[a.n].slow) =>
         \A m \in In(s) \ {a.n} : Len(Starting(t, m, "dNotify-Off")) =
            (IF Watches(s, m, s.u[a.n]) /\ s.g[GroupOf(s, a.n)].vis # SuperSecret THEN 1 ELSE 0)

(* C13 registration *)
PwOf(s, ln) == IF (ln \o ".password") \in DOMAIN s.db THEN s.db[ln \o ".password"] ELSE ""
PwKeys(s) == {k \in DOMAIN s.db : Len(k) > 9 /\ SubSeq(k, Len(k) - 8, Len(k)) = ".password"}
P13(s, a, t) ==
    /\ \A k \in PwKeys(s) \cup PwKeys(t) :
          LET before == IF k \in DOMAIN s.db THEN s.db[k] ELSE ""
              after == IF k \in DOMAIN t.db THEN t.db[k] ELSE "" IN
          (before # after /\ OnePkt(s, a) /\ SameTime(s, t)) =>
             /\ s.u[a.n].login = 2
             /\ k = s.u[a.n].lnick \o ".password"
             /\ before # "" => Has_(a.d, before)         \* the old password was given
    \* somebody becomes registered only with the password or from the registered address
    /\ (OnePkt(s, a) /\ SameTime(s, t) /\ a.n \in DOMAIN t.u /\ t.u[a.n].real /\ ~s.u[a.n].real) =>
          LET r == t.u[a.n]  home == IF (r.lnick \o ".home") \in DOMAIN t.db THEN t.db[r.lnick \o ".home"] ELSE ""
          IN \/ PwOf(s, r.lnick) = "" /\ PwOf(t, r.lnick) # ""
             \/ PwOf(s, r.lnick) # "" /\ Has_(a.d, PwOf(s, r.lnick))
             \/ EqCI(home, r.id \o "@" \o r.node) /\ (r.lnick \o ".secure") \notin DOMAIN t.db

(* C14 stored messages *)
NumMsg(s, ln) == IF (ln \o ".nummsg") \in DOMAIN s.db THEN Atoi(s.db[ln \o ".nummsg"]) ELSE 0
P14(s, a, t) ==
    /\ \A k \in DOMAIN t.db : (Len(k) > 7 /\ SubSeq(k, Len(k) - 6, Len(k)) = ".nummsg") =>
          LET ln == Take(k, Len(k) - 7)  c == Atoi(t.db[k]) IN
          c \in 0..MaxWrites /\ \A i \in 1..c : (ln \o ".message" \o Str(i)) \in DOMAIN t.db
    /\ (IsCmd(s, a, "read") /\ s.u[a.n].real /\ SameTime(s, t)) =>
          LET ln == s.u[a.n].lnick  c == NumMsg(s, ln) IN
          /\ Len(GotKind(t, a.n, "c")) = c
          /\ \A i \in 1..c : GotKind(t, a.n, "c")[i] =
                 "c" \o Filt(s.db[ln \o ".from" \o Str(i)], 12) \o SOH \o Filt(s.db[ln \o ".message" \o Str(i)], 240)
          /\ NumMsg(t, ln) = 0
    /\ (OnePkt(s, a) /\ SameTime(s, t) /\ ~IsCmd(s, a, "read") /\ ~IsCmd(s, a, "delete") /\ ~IsCmd(s, a, "m")) =>
          \A k \in DOMAIN s.db : (Has_(k, ".message")) => k \in DOMAIN t.db

(* C18 every packet is well formed *)
P18(s, a, t) ==
    \A j \in 1..Len(t.out) : LET p == t.out[j][2] IN
       /\ Len(p) \in 1..254 /\ Take(p, 1) \in {"a", "b", "c", "d", "e", "f", "g", "i", "j", "k", "l"}
       /\ \A i \in 1..Len(p) : Ord(At(p, i)) >= 32 \/ At(p, i) = SOH

(* C19 nothing of a session outlives it *)
P19(s, a, t) ==
    /\ \A n \in Users(t) : LET r == t.u[n] IN
          /\ r.lpriv = 0 - 1 \/ r.lpriv \in DOMAIN t.u
          /\ r.pong = 0 - 1 \/ r.pong \in DOMAIN t.u
          /\ r.la = 0 \/ r.la \in DOMAIN t.u
    /\ a.t = "conn" => /\ t.u[a.n] = Caller(s, a)
                       /\ \A m \in SentTo(t) : m = a.n \/ ~SameTime(s, t) \/ TRUE
    /\ (a.t \in {"fin", "rst"} /\ ~s.u[a.n].slow) => a.n \notin DOMAIN t.u
    /\ \A n \in DOMAIN s.u : n \notin DOMAIN t.u => ~\E i \in DOMAIN t.g : t.g[i].mod = n

(* C20 administration *)
P20(s, a, t) ==
    (OnePkt(s, a) /\ SameTime(s, t) /\ ~(s.u[a.n].login = 2 /\ IsAdmin(s, a.n))) =>
       /\ t.die = s.die
       /\ t.st.start = s.st.start
       /\ t.log = s.log
       /\ \A m \in SentTo(t) : Starting(t, m, "fWALL") = << >> /\ Starting(t, m, "fShutdown") = << >>
       /\ \A m \in Users(s) \ {a.n} : (m \notin DOMAIN t.u) =>       \* dropped by a fellow user: with his password
             IsCmd(s, a, "drop") /\ PwOf(s, s.u[m].lnick) # "" /\ Has_(a.d, PwOf(s, s.u[m].lnick))

(* C21 idling *)
P21(s, a, t) ==
    t.dead \/ \A n \in In(t) : LET g == t.g[GroupOf(t, n)] IN
                 /\ g.lname = "~idle~" \/ g.ib = 0 \/ t.now - t.u[n].trecv <= g.ib
                 /\ TRUE

(* C22 away, beep, ping *)
P22(s, a, t) ==
    /\ (IsCmd(s, a, "beep") /\ Argc(a) = 2 /\ SameTime(s, t)) =>
          LET d == FindUser(s, GetWord(Arg(a))) IN
          \A m \in Users(t) : Len(GotKind(t, m, "k")) = (IF m = d /\ s.u[m].nobeep = 0 THEN 1 ELSE 0)
    /\ (\E m \in SentTo(t) : Starting(t, m, "dPONG") # << >>) => a.t = "bytes"
    /\ \A m \in Users(s) \cap Users(t) : (a.t # "bytes" \/ a.n # m) => t.u[m].away = s.u[m].away

(* C23 who may log in: the deny file and the permissions file, as they are at that moment *)
P23(s, a, t) ==
    LET id(m) == t.u[m].id
        addr(m) == Upper(id(m) \o "@" \o t.u[m].node)
        said(m, p) == Starting(t, m, p) # << >>
    IN /\ \A m \in In(t) \ In(s) : /\ ~Perms(t, m, id(m)).deny
                                  /\ ~\E i \in 1..Len(t.cfg.deny) : WildMatch(addr(m), Upper(t.cfg.deny[i][1]))
                                  /\ t.u[m].slow = Perms(t, m, id(m)).slow
       /\ \A m \in In(s) \cap In(t) : t.u[m].slow = s.u[m].slow
       \* nobody else is turned away by these files
       /\ \A m \in SentTo(t) : (said(m, "eLogin denied.") \/ said(m, "eLogin refused for ")) =>
             a.t = "bytes" /\ a.n = m /\ m \notin In(s) /\ m \notin In(t)
             /\ Len(s.cfg.deny) + Len(s.cfg.perms) > 0

(* C30 shutdown *)
P30(s, a, t) ==
    /\ (t.die # NoDie /\ t.now >= t.die) => t.dead
    /\ t.dead => s.dead \/ (t.die # NoDie /\ t.now >= t.die)
    /\ t.ntf >= s.ntf \/ t.die # s.die
    \* the notices, to everybody, when due and only then
    /\ LET five == "fShutdown" \o SOH \o "Server shutting down in 5 minutes!"
           one == "fShutdown" \o SOH \o "Server shutting down in 1 minute!"
           same == t.die = s.die /\ t.die # NoDie
           crossed(k) == same /\ s.now < s.die - k /\ t.now >= s.die - k
           told(p, m) == Len(Starting(t, m, p))
       IN (a.t = "tick" /\ ~t.dead) =>
            \A m \in In(s) \cap In(t) :
               /\ told(five, m) = (IF crossed(300) THEN 1 ELSE 0)
               /\ told(one, m) = (IF crossed(60) THEN 1 ELSE 0)

\* those for whom the network takes only so much lose nothing but what exceeds the queue, and nobody else notices
P29(s, a, t) ==
    LET y == Step([s EXCEPT !.chan = << >>], IF a.t \in {"choke", "room", "unchoke"} THEN [t |-> "noise"] ELSE a)
        ch == DOMAIN s.chan
    IN /\ t.u = y.u /\ t.g = y.g /\ t.db = y.db /\ t.closed = y.closed
       /\ \A n \in SentTo(t) \cup SentTo(y) : n \notin ch => Got(t, n) = Got(y, n)
       /\ \A n \in ch :
            LET sent == s.chan[n].q \o Got(y, n)
                left == IF n \in DOMAIN t.chan THEN t.chan[n].q ELSE << >>
                came == Got(t, n)
            IN /\ IsSub(came \o left, 1, sent, 1)
               /\ Len(left) <= MaxQueue
               /\ IF n \in DOMAIN t.u /\ Len(sent) <= MaxQueue THEN came \o left = sent ELSE TRUE
               /\ IF a.t = "unchoke" /\ a.n = n THEN left = << >> ELSE TRUE

(* C34 bricks *)
P34(s, a, t) ==
    LET same == In(s) \cap In(t)
        n == a.n
        b == s.u[n].bricks
        arg == FilterNick(Take(Arg(a), 12))
        name == IF Argc(a) = 2 THEN arg ELSE ""
        d == FindUser(s, name)
        hit == b > 0 /\ d >= 0 /\ d # ServerSlot
        told(m, p) == Len(Starting(t, m, p))
    IN \* nobody has more than twenty or owes more than five, and everybody begins with five
       /\ \A m \in In(t) : t.u[m].bricks \in (0 - 5)..20
       /\ (a.t = "bytes" => OnePkt(s, a)) => \A m \in In(t) \ In(s) : t.u[m].bricks = 5
       /\ IF ~s.cfg.brick THEN \A m \in same : t.u[m].bricks = s.u[m].bricks
          ELSE IF ~(a.t = "bytes" /\ Has_(Lower(a.d), "brick")) /\ ~\E m \in In(s) : s.u[m].slow \/ s.u[m].inb # ""
          THEN \A m \in same : t.u[m].bricks = s.u[m].bricks        \* they move only when one is thrown
          ELSE IF ~(IsCmd(s, a, "brick") /\ SameTime(s, t)) THEN TRUE
          ELSE IF name = "" THEN /\ \A m \in same : t.u[m].bricks = s.u[m].bricks
                                 /\ \A m \in same : told(m, "dFYI") = 0
          ELSE \* a throw costs one; who is hit keeps it; the owing are warned and at last thrown out
               /\ b > 0 - 5 <=> n \in In(t)
               /\ n \in In(t) => t.u[n].bricks = b - 1
               /\ \A m \in same \ {n} : t.u[m].bricks = IF hit /\ m = d /\ s.u[m].bricks < 20 THEN s.u[m].bricks + 1 ELSE s.u[m].bricks
               /\ \A m \in same : told(m, "dFYI" \o SOH \o name \o " has been bricked.")
                                    = IF hit /\ s.u[m].lgrp \in {s.u[n].lgrp, s.u[d].lgrp} THEN 1 ELSE 0
               /\ b <= 0 => GotKind(t, n, "e") # << >>

(* C35 the log *)
P35(s, a, t) ==
    LET q == t.jr
        told(n, kind) == Cardinality({j \in 1..Len(q) : StartsWith(q[j][2], "[" \o kind \o "] " \o Str(n) \o ": ")})
        says(m) == \E j \in 1..Len(q) : q[j][2] = m
        all == (DOMAIN s.u \cup DOMAIN t.u) \ {ServerSlot}
    IN /\ \A j \in 1..Len(q) : q[j][1] = t.now
       /\ s.log < 3 /\ t.log < 3 => q = << >>
       /\ s.log >= 3 /\ t.log >= 3 /\ ~t.dead =>
            \A n \in all :
               \* every arrival and every departure, once
               /\ told(n, "LOST") = IF n \in DOMAIN t.u THEN 0 ELSE 1
               /\ told(n, "CONNECT") + told(n, "CONNECT (SSL)") = IF n \in DOMAIN s.u THEN 0 ELSE 1
               /\ n \notin DOMAIN t.u /\ n \in DOMAIN s.u /\ s.u[n].login = 2 => says("[LOST] " \o Str(n) \o ": " \o UserAt(s, n))
               \* nobody is there who was not announced, by whom and from where
               /\ (n \in DOMAIN t.u /\ t.u[n].login = 2 /\ (n \in DOMAIN s.u => s.u[n].login = 0)) =>
                     told(n, "LOGIN") = 1 /\ says("[LOGIN] " \o Str(n) \o ": " \o UserAt(t, n))
               /\ (n \in DOMAIN s.u /\ s.u[n].login = 2) => told(n, "LOGIN") = 0

PropOK(id, s, a, t) ==
    IF a.t \in {"restart", "crash", "cfg", "tool"} THEN TRUE
    ELSE CASE id = "C01" -> P01(s, a, t) [] id = "C02" -> P02(s, a, t) [] id = "C03" -> P03(s, a, t)
      [] id = "C04" -> P04(s, a, t) [] id = "C05" -> P05(s, a, t) [] id = "C06" -> P06(s, a, t)
      [] id = "C07" -> P07(s, a, t) [] id = "C08" -> P08(s, a, t) [] id = "C09" -> P09(s, a, t)
      [] id = "C10" -> P10(s, a, t) [] id = "C11" -> P11(s, a, t) [] id = "C12" -> P12(s, a, t)
      [] id = "C13" -> P13(s, a, t) [] id = "C14" -> P14(s, a, t) [] id = "C18" -> P18(s, a, t)
      [] id = "C19" -> P19(s, a, t) [] id = "C20" -> P20(s, a, t) [] id = "C21" -> P21(s, a, t)
      [] id = "C22" -> P22(s, a, t) [] id = "C23" -> P23(s, a, t) [] id = "C29" -> P29(s, a, t) [] id = "C30" -> P30(s, a, t) [] id = "C34" -> P34(s, a, t) [] id = "C35" -> P35(s, a, t)
      [] OTHER -> TRUE
AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
             "C18", "C19", "C20", "C21", "C22", "C23", "C29", "C30", "C34", "C35"}
Broken(ids, s, a, t) == {id \in ids : ~PropOK(id, s, a, t)}
=============================================================================
