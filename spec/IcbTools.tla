------------------------------ MODULE IcbTools ------------------------------
(* The programs an administrator uses on the registration database while the
   server is down.  A database is a function from keys to values, both strings
   of bytes; a key is a nickname, a dot and an attribute.

   Tool(db, a) is what running one does: [db, said, order, rc]: the database
   afterwards, the lines printed, whether their order means anything, and
   whether it succeeded.  An unreadable database is not touched. *)
EXTENDS IcbText, FiniteSets

CR == Chr(13)
KeyOf(n, x) == n \o "." \o x
Val(db, k) == IF k \in DOMAIN db THEN db[k] ELSE ""
Without_(db, K) == [k \in DOMAIN db \ K |-> db[k]]
With(db, e) == [k \in DOMAIN db \cup DOMAIN e |-> IF k \in DOMAIN e THEN e[k] ELSE db[k]]
Set1(db, k, v) == [x \in DOMAIN db \cup {k} |-> IF x = k THEN v ELSE db[x]]
EndsIn(k, x) == Len(k) >= Len(x) /\ SubSeq(k, Len(k) - Len(x) + 1, Len(k)) = x
OneLine(x) == IndexFrom(x, LF, 1) > Len(x) /\ IndexFrom(x, CR, 1) > Len(x)
Clean(db) == \A k \in DOMAIN db : OneLine(k) /\ OneLine(db[k])

Attrs == <<"addr", "email", "home", "nick", "nummsg", "password", "phone", "realname", "secure", "signoff", "signon", "text", "www">>
Msgs(db, n) == IF Val(db, KeyOf(n, "nummsg")) = "" THEN 0 ELSE Atoi(db[KeyOf(n, "nummsg")])

(* ---- deldb ---- *)
Entry(db, n) == {KeyOf(n, Attrs[i]) : i \in 1..Len(Attrs)}
                \cup UNION {{KeyOf(n, "header" \o Str(i)), KeyOf(n, "from" \o Str(i)), KeyOf(n, "message" \o Str(i))} : i \in 1..Msgs(db, n)}
DelOne(db, n0, quiet) ==
    LET low == Val(db, KeyOf(n0, "nick")) = ""
        n == IF low THEN Lower(n0) ELSE n0
        st == Val(db, KeyOf(n, "nick"))
    IN [db |-> Without_(db, Entry(db, n)),
        said |-> (IF low /\ ~quiet THEN <<"Trying with lower-cased nick " \o n>> ELSE << >>)
                 \o (IF ~EqCI(st, n) THEN <<"Warning: Nick " \o n \o " doesn't match $DB{" \o KeyOf(n, "nick") \o "} (" \o st \o ").">> ELSE << >>)
                 \o (IF quiet THEN << >> ELSE <<n \o " deleted.">>)]
RECURSIVE DelAll(_, _, _, _, _)
DelAll(db, q, k, quiet, said) ==
    IF k > Len(q) THEN [db |-> db, said |-> said]
    ELSE LET r == DelOne(db, q[k], quiet) IN DelAll(r.db, q, k + 1, quiet, said \o r.said)

(* ---- finddb ---- *)
RECURSIVE PadLeft(_, _)
PadLeft(x, n) == IF Len(x) >= n THEN x ELSE PadLeft(" " \o x, n)
Row(x, y) == "  " \o PadLeft(x, 10) \o " " \o y
Attr1(db, n, i) == IF KeyOf(n, Attrs[i]) \in DOMAIN db THEN <<Row(Attrs[i] \o ":", db[KeyOf(n, Attrs[i])])>> ELSE << >>
RECURSIVE Cat(_, _, _)
Cat(f, k, n) == IF k > n THEN << >> ELSE f[k] \o Cat(f, k + 1, n)
FindOne(db, n) ==
    LET st == Val(db, KeyOf(n, "nick")) IN
    IF KeyOf(n, "nick") \notin DOMAIN db THEN <<n \o " not registered.">>
    ELSE IF ~EqCI(st, n) THEN <<"Warning: Nick " \o n \o " doesn't match $DB{" \o KeyOf(n, "nick") \o "} (" \o st \o ").">>
    ELSE <<Row("NICKNAME:", n)>> \o Cat([i \in 1..Len(Attrs) |-> Attr1(db, n, i)], 1, Len(Attrs))
         \o Cat([i \in 1..Msgs(db, n) |-> <<Row("message:", Str(i)), Row("", Val(db, KeyOf(n, "header" \o Str(i)))),
                                            Row("", Val(db, KeyOf(n, "from" \o Str(i)))), Row("", Val(db, KeyOf(n, "message" \o Str(i))))>>], 1, Msgs(db, n))
         \o <<"">>

(* ---- nickprune: who has not been seen for more than so many days ---- *)
Letter(c) == Ord(c) \in 65..90 \/ Ord(c) \in 97..122
RECURSIVE Digits_(_, _)
Digits_(x, i) == IF i <= Len(x) /\ IsDigit(At(x, i)) THEN Digits_(x, i + 1) ELSE i
RECURSIVE Letters_(_, _)
Letters_(x, i) == IF i <= Len(x) /\ Letter(At(x, i)) THEN Letters_(x, i + 1) ELSE i
MonthNo == "Jan" :> 1 @@ "Feb" :> 2 @@ "Mar" :> 3 @@ "Apr" :> 4 @@ "May" :> 5 @@ "Jun" :> 6 @@ "Jul" :> 7 @@ "Aug" :> 8 @@ "Sep" :> 9 @@ "Oct" :> 10 @@ "Nov" :> 11 @@ "Dec" :> 12
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days since the first of January 1970
RECURSIVE MonthsBefore(_, _)
MonthsBefore(y, m) == IF m = 1 THEN 0 ELSE MonthLen(y, m - 1) + MonthsBefore(y, m - 1)
Day(y, m, d) == LET z == y - 1 IN 365 * (y - 1970) + (z \div 4 - z \div 100 + z \div 400) - 477 + MonthsBefore(y, m) + d - 1
\* the day a date string names, or -1
DayIn(x) ==
    LET a == SkipSpace(x, 1)  b == Digits_(x, a)  c == Letters_(x, b + 1)  e == Digits_(x, c + 1)
        good == b > a /\ b <= Len(x) /\ At(x, b) = "-" /\ c > b + 1 /\ c <= Len(x) /\ At(x, c) = "-" /\ e > c + 1 /\ e <= Len(x) /\ SkipSpace(x, e) > e
        mon == SubSeq(x, b + 1, c - 1)
        d == Atoi(SubSeq(x, a, b - 1))  y == Atoi(SubSeq(x, c + 1, e - 1))
    IN IF ~good THEN 0 - 1 ELSE IF mon \notin DOMAIN MonthNo THEN 0 - 1
       ELSE IF d < 1 \/ d > MonthLen(y, MonthNo[mon]) THEN 0 - 1 ELSE Day(y, MonthNo[mon], d)
Stale(db, a) ==
    LET root(k) == Take(k, Len(k) - 5)
        seen(k) == LET off == Val(db, KeyOf(root(k), "signoff")) IN IF off # "" THEN off ELSE Val(db, KeyOf(root(k), "signon"))
        \* the clock in days and seconds of the day
        old(d) == a.day - d > a.days \/ (a.day - d = a.days /\ a.sec > 0)
    IN {root(k) : k \in {k \in DOMAIN db : EndsIn(k, ".nick") /\ db[k] \notin {"server", "admin"} /\ DayIn(seen(k)) >= 0 /\ old(DayIn(seen(k)))}}

RECURSIVE DelSet(_, _)
DelSet(db, S) == IF S = {} THEN db ELSE LET n == CHOOSE n \in S : TRUE IN DelSet(DelOne(db, n, TRUE).db, S \ {n})

Pairs(db, sep) == LET q == SetToSeq(DOMAIN db) IN [i \in 1..Len(q) |-> q[i] \o sep \o db[q[i]]]
Ran(db, said, order) == [db |-> db, said |-> said, order |-> order, rc |-> 0, talks |-> TRUE]
Mute(db) == [db |-> db, said |-> << >>, order |-> FALSE, rc |-> 0, talks |-> FALSE]
Tool(db, a) ==
    CASE a.t = "set" -> IF OneLine(a.k \o a.v) THEN Ran(Set1(db, a.k, a.v), <<"VAR[" \o a.k \o "] VAL[" \o a.v \o "]">>, TRUE) ELSE Mute(Set1(db, a.k, a.v))
      [] a.t = "del" -> LET r == DelAll(db, a.nicks, 1, a.quiet, << >>) IN IF Clean(db) THEN Ran(r.db, r.said, TRUE) ELSE Mute(r.db)
      [] a.t = "cat" -> IF Clean(db) THEN Ran(db, Pairs(db, " = "), FALSE) ELSE Mute(db)
      [] a.t = "export" -> IF Clean(db) THEN Ran(db, << >>, FALSE) ELSE Mute(db)
      [] a.t = "count" -> Ran(db, <<Str(Cardinality({k \in DOMAIN db : EndsIn(k, ".nick")})) \o " nicknames listed.">>, TRUE)
      [] a.t = "find" -> IF Clean(db) THEN Ran(db, Cat([i \in 1..Len(a.nicks) |-> FindOne(db, a.nicks[i])], 1, Len(a.nicks)), TRUE) ELSE Mute(db)
      [] a.t = "move" -> Mute(db)                   \* exported, and imported into an empty database
      [] a.t = "merge" -> Mute(With(db, a.e))       \* the export of another database imported into this one
      [] a.t = "migrate" -> Mute(db)                \* written as another kind of database, and migrated
      [] a.t = "mk" -> Mute(With(db, "server.realname" :> a.ans[1] @@ "server.nick" :> "server" @@ "server.home" :> a.ans[2] @@ "server.email" :> a.ans[3]
                                     @@ "server.text" :> "Here to server you!" @@ "server.nummsg" :> "0" @@ "server.www" :> "http://www.icb.net/"))
      [] a.t = "prune" -> Mute(IF a.yes THEN DelSet(db, Stale(db, a)) ELSE db)
\* the database file may have become this
Leaves(db, a) == LET r == Tool(db, a) IN IF a.fault THEN {db, r.db} ELSE {r.db}
=============================================================================
