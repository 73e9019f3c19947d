----------------------------- MODULE IcbAccess -----------------------------
(* Registered nicknames: the database, passwords, recognition at login,
   stored messages, whois, and moderatorships regained. *)
EXTENDS IcbState

Key(cat, attr) == Lower(cat \o "." \o attr)
Has(s, cat, attr) == Key(cat, attr) \in DOMAIN s.db
Get(s, cat, attr) == s.db[Key(cat, attr)]
GetOr(s, cat, attr, d) == IF Has(s, cat, attr) THEN Get(s, cat, attr) ELSE d
DbSet(s, cat, attr, v) == [s EXCEPT !.db = (Key(cat, attr) :> v) @@ @]
DbDel(s, cat, attr) == [s EXCEPT !.db = Restrict_(@, DOMAIN @ \ {Key(cat, attr)})]
RECURSIVE DbDelAll(_, _, _, _)
DbDelAll(s, cat, attrs, i) == IF i > Len(attrs) THEN s ELSE DbDelAll(DbDel(s, cat, attrs[i]), cat, attrs, i + 1)

Pw(p) == Take(p, 12)

\* the time of a sign-on or sign-off of a registered user
WriteTime(s, n, off) ==
    IF ~IsReg(s, n) THEN s
    ELSE IF off /\ ~Has(s, s.u[n].nick, "nick") THEN s
    ELSE DbSet(s, s.u[n].nick, IF off THEN "signoff" ELSE "signon", DateStr(s.now))

ValUser(s, nick, pw) == pw # "" /\ Has(s, nick, "password") /\ Get(s, nick, "password") = Pw(pw)

(* ---- who is this?  0 known and recognised, -2 known but not recognised, -1 unknown ---- *)
Recognise(s, n) ==
    LET nick == s.u[n].nick IN
    IF nick = "" \/ ~Has(s, nick, "home") THEN 0 - 1
    ELSE IF ~EqCI(Get(s, nick, "home"), UserAt(s, n)) THEN 0 - 2
    ELSE IF Has(s, nick, "secure") THEN 0 - 2
    ELSE 0

CanTalkListed(s, n, g) == \/ InList(g.nt, s.u[n].nick)
                          \/ IsReg(s, n) /\ InList(g.nrt, s.u[n].nick)
TalkReport(s, n, i) ==
    IF CanTalkListed(s, n, s.g[i]) THEN Out(s, n, "Talk permission in: " \o s.g[i].name) ELSE s
RECURSIVE TalkReports(_, _, _, _)
TalkReports(s, n, q, k) == IF k > Len(q) THEN s ELSE TalkReports(TalkReport(s, n, q[k]), n, q, k + 1)

\* a registered moderator who comes back in time takes the moderatorship again
RECURSIVE Regain(_, _, _, _)
Regain(s, n, q, k) ==
    IF k > Len(q) THEN s
    ELSE LET i == q[k] g == s.g[i] IN
         IF i >= 1 /\ g.mt > 0 /\ g.missing = s.u[n].nick
         THEN LET s1 == [s EXCEPT !.g[i].mt = 0, !.g[i].mod = n, !.g[i].missing = ""]
                  s2 == StatGroup(s1, g.lname, n, "Mod", s.u[n].nick \o " is the active moderator again.")
                  s3 == Stat(s2, n, "Mod", "You are the moderator of group " \o g.name)
              IN Regain(s3, n, q, k + 1)
         ELSE Regain(s, n, q, k + 1)
RegainMods(s, n) == Regain(s, n, s.gids, 1)

\* how many messages are waiting (recorded as 0 if there is no count yet)
MsgNotice(s, n) ==
    IF ~IsReg(s, n) THEN s
    ELSE LET nick == s.u[n].nick
             c == IF Has(s, nick, "nummsg") THEN Atoi(Get(s, nick, "nummsg")) ELSE 0
             s1 == IF Has(s, nick, "nummsg") THEN s ELSE DbSet(s, nick, "nummsg", "0")
         IN IF c = 1 THEN Stat(s1, n, "Message", "You have 1 message")
            ELSE IF c > 1 THEN Stat(s1, n, "Message", "You have " \o Str(c) \o " messages")
            ELSE s1

\* moderatorships an unrecognised owner of the nickname could regain
RECURSIVE MissingList(_, _, _, _, _)
MissingList(s, n, q, k, c) ==
    IF k > Len(q) THEN
        IF c = 1 THEN Stat(s, n, "Mod", "You must register using /p <password> to regain mod of the above group.")
        ELSE IF c > 1 THEN Stat(s, n, "Mod", "You must register using /p <password> to regain mod of the above groups.")
        ELSE s
    ELSE IF s.g[q[k]].missing # "" /\ EqCI(s.g[q[k]].missing, s.u[n].nick)
         THEN MissingList(Stat(s, n, "Mod", "You are moderator of group " \o s.g[q[k]].name), n, q, k + 1, c + 1)
         ELSE MissingList(s, n, q, k + 1, c)
SendPassword(s, n) ==
    MissingList(Stat(s, n, "Register", "Send password to authenticate your nickname."), n, s.gids, 1, 0)

(* ---- register, or prove ownership of, the current nickname: <<s, ok>> ---- *)
NickWrite(s, n, pw0, verifyOnly) ==
    LET nick == s.u[n].nick  pw == Pw(pw0) IN
    IF pw0 = "" THEN <<Err(s, n, "Password cannot be null"), FALSE>>
    ELSE IF ~Has(s, nick, "password") THEN
        IF verifyOnly THEN <<Err(s, n, "[ERROR] Nick " \o nick \o " not found"), FALSE>>
        ELSE LET s1 == DbSet(DbSet(DbSet(s, nick, "password", pw), nick, "nick", nick),
                             nick, "home", UserAt(s, n))
                 s2 == Stat(s1, n, "Register", "Nick registered")
                 s3 == WriteTime([s2 EXCEPT !.u[n].real = TRUE], n, FALSE)
             IN <<[s3 EXCEPT !.u[n].pass = pw], TRUE>>
    ELSE IF Get(s, nick, "password") # pw
         THEN <<[Err(s, n, "Authorization failure") EXCEPT !.u[n].real = FALSE], FALSE>>
    ELSE LET s1 == Stat(s, n, "Register", "Nick registered")
             s2 == WriteTime([s1 EXCEPT !.u[n].real = TRUE], n, FALSE)
             s3 == [s2 EXCEPT !.u[n].pass = pw]
             s4 == MsgNotice(RegainMods(s3, n), n)
         IN <<TalkReports(s4, n, Without(s4.gids, 0), 1), TRUE>>

NickDelete(s, n, pw) ==
    LET nick == s.u[n].nick IN
    IF ~IsReg(s, n) THEN Err(s, n, "You must be registered to delete your entry.")
    ELSE IF ~Has(s, nick, "password") THEN Err(s, n, "You don't have a password.")
    ELSE IF Get(s, nick, "password") # Pw(pw) THEN Err(s, n, "Password incorrect.")
    ELSE LET nums == [i \in 1..MaxWrites |-> Str(i)]
             attrs == <<"secure", "realname", "email", "signon", "signoff", "nick", "password", "phone",
                        "text", "home", "addr", "nummsg", "www">>
                      \o [i \in 1..MaxWrites |-> "header" \o nums[i]]
                      \o [i \in 1..MaxWrites |-> "message" \o nums[i]]
                      \o [i \in 1..MaxWrites |-> "from" \o nums[i]]
             gone == {Key(nick, attrs[i]) : i \in 1..Len(attrs)}
         IN Out([s EXCEPT !.db = Restrict_(@, DOMAIN @ \ gone)], n, "Record Deleted")

SetSecure(s, n, on) ==
    IF ~IsReg(s, n) THEN Err(s, n, "You must be registered to change your security.")
    ELSE IF on THEN Out(DbSet(s, s.u[n].nick, "secure", "SECURED"), n, "Security set to password required.")
    ELSE Out(DbDel(s, s.u[n].nick, "secure"), n, "Security set to automatic.")

ChInfo(s, n, tag, data, max, what) ==
    IF ~IsReg(s, n) THEN Err(s, n, "Setting your name requites that you be registered.")
    ELSE LET d == Take(data, max)
             s1 == IF Len(data) > max
                   THEN Err(s, n, what \o " truncated to " \o Str(max) \o " characters") ELSE s
             s2 == DbSet(s1, s.u[n].nick, tag, d)
         IN Out(s2, n, what \o " set to '" \o Take(d, 160) \o "'")

ChPass(s, n, old, new) ==
    LET nick == s.u[n].nick IN
    IF ~Has(s, nick, "password") \/ Get(s, nick, "password") # Pw(old)
    THEN Err(s, n, "Authorization failure")
    ELSE IF new = "" THEN Err(s, n, "Missing paramater")
    ELSE LET s1 == DbSet(s, nick, "password", Pw(new))
             s2 == Stat(s1, n, "Pass", "Password changed")
         IN DbSet(s2, nick, "home", UserAt(s, n))

(* ---- messages left for registered users ---- *)
WriteMsg(s, n, user, text) ==
    IF user = "" \/ text = "" THEN Out(s, n, "Usage: write nickname message text")
    ELSE IF ~IsReg(s, n) THEN Err(s, n, "You must be registered to write a message.")
    ELSE IF ~Has(s, user, "nick") THEN Err(s, n, user \o " is not registered")
    ELSE LET c == Atoi(GetOr(s, user, "nummsg", "0")) + 1
             cs == Str(c)
         IN IF c > MaxWrites THEN Err(s, n, "User mailbox full")
            ELSE LET s1 == DbSet(s, user, "header" \o cs, "Message left at " \o DateStr(s.now) \o ":")
                     s2 == DbSet(s1, user, "from" \o cs, s.u[n].nick)
                     s3 == DbSet(s2, user, "message" \o cs, Filt(text, 4095))
                     s4 == DbSet(s3, user, "nummsg", cs)
                     s5 == Stat(s4, n, "Message", "Text saved to file")
                     d == FindUser(s, user)
                 IN IF d > 0
                    THEN Stat(Stat(s5, n, "Warning", s.u[d].nick \o " is logged in now."),
                              d, "Message", "You have " \o cs \o " message" \o Plural(c))
                    ELSE s5

RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(s, n, i, c) ==
    IF i > c THEN s
    ELSE LET nick == s.u[n].nick  k == Str(i)
             h == "header" \o k  f == "from" \o k  m == "message" \o k
             s1 == IF Has(s, nick, h) THEN Out(s, n, Get(s, nick, h)) ELSE s
             s2 == IF Has(s, nick, m)
                   THEN Put(s1, n, PersonPkt(Take(GetOr(s, nick, f, "Server"), 12), Get(s, nick, m)))
                   ELSE s1
         IN ReadFrom(DbDelAll(s2, nick, <<h, f, m>>, 1), n, i + 1, c)
ReadMsg(s, n) ==
    LET nick == s.u[n].nick IN
    IF ~IsReg(s, n) THEN Err(s, n, "You must be registered to read any messages.")
    ELSE LET c == Atoi(GetOr(s, nick, "nummsg", "0"))
             s1 == IF c = 0 THEN Err(s, n, "No messages") ELSE ReadFrom(s, n, 1, c)
         IN DbSet(s1, nick, "nummsg", "0")

(* ---- whois ---- *)
\* the address, one line per '|'
RECURSIVE AddrLines(_, _, _, _)
AddrLines(a, i, cur, acc) ==
    IF i > Len(a) THEN Append(acc, cur)
    ELSE IF At(a, i) = "|" THEN AddrLines(a, i + 1, "  ", Append(acc, cur))
    ELSE AddrLines(a, i + 1, cur \o At(a, i), acc)

\* the text, broken into lines of at most 62 characters, at a space if one is near
RECURSIVE TextLines(_, _, _, _, _, _)
TextLines(t, st, p, lastw, count, acc) ==
    IF p > Len(t) THEN (IF count > 0 THEN Append(acc, "Text: " \o SubSeq(t, st, Len(t))) ELSE acc)
    ELSE IF At(t, p) = LF
         THEN TextLines(t, p + 1, p + 1, p + 1, 0, Append(acc, "Text: " \o SubSeq(t, st, p - 1)))
    ELSE LET lw == IF At(t, p) = " " THEN p ELSE lastw IN
         IF count = 62 THEN
             IF p - lw > 40
             THEN TextLines(t, p - 1, p - 1, p - 1, 0, Append(acc, "Text: " \o SubSeq(t, st, p - 2) \o "-"))
             ELSE TextLines(t, lw + 1, lw + 1, lw + 1, 0, Append(acc, "Text: " \o SubSeq(t, st, lw - 1)))
         ELSE TextLines(t, st, p + 1, lw, count + 1, acc)

WhoisLines(s, nick) ==
    LET v(attr, d) == GetOr(s, nick, attr, d) IN
    <<PadTo("Nickname:     " \o Take(v("nick", ""), 12), 36) \o "Address:   " \o v("home", ""),
      PadTo("Phone Number: " \o v("phone", "(None)"), 36) \o "Real Name: " \o v("realname", "(None)"),
      PadTo("Last signon:  " \o v("signon", "(unknown)"), 36) \o "Last signoff:  " \o v("signoff", "(unknown)")>>
    \o (IF Has(s, nick, "email") THEN <<"E-mail addr:  " \o v("email", "")>> ELSE << >>)
    \o (IF Has(s, nick, "www") THEN <<"WWW:  " \o v("www", "")>> ELSE << >>)
    \o (IF Has(s, nick, "addr") THEN <<"Street Address:">> \o AddrLines(v("addr", ""), 1, "  ", << >>) ELSE << >>)
    \o (IF Has(s, nick, "text") THEN TextLines(v("text", ""), 1, 1, 1, 0, << >>) ELSE << >>)
Whois(s, n, nick) ==
    IF nick = "" THEN Out(s, n, "Usage: whois nickname")
    ELSE IF Len(nick) > 12 THEN Err(s, n, "nickname too long")
    ELSE IF ~Has(s, nick, "home") THEN Err(s, n, nick \o " is not in the database.")
    ELSE OutAll(s, n, WhoisLines(s, nick), 1)
=============================================================================
