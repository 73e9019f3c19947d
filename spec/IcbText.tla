------------------------------ MODULE IcbText ------------------------------
(* Byte strings (latin-1 in TLA+ strings) and the text rules of icbd: case
   folding, word splitting, name filters, UTF-8 sanitising, wildcards,
   atoi, format strings, and the fixed-format dates the server prints. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

\* chars.json: ord: byte string -> code, lo/up: case folded byte, nk/gp: as a
\* nickname / group name character, chr: the 256 one-byte strings (chr[1] is NUL)
CT == JsonDeserialize("chars.json")
ORD == CT.ord
LO  == CT.lo
UP  == CT.up
CHR == CT.chr

Chr(n) == CHR[n + 1]
At(s, i) == SubSeq(s, i, i)
Ord(c) == ORD[c]
NUL == CHR[1]
SOH == CHR[2]
LF  == CHR[11]
TAB == CHR[10]

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, MinI(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* map a character table over a string
RECURSIVE MapFrom(_, _, _, _)
MapFrom(s, t, i, acc) ==
    IF i > Len(s) THEN acc ELSE MapFrom(s, t, i + 1, acc \o t[At(s, i)])
Lower(s) == MapFrom(s, LO, 1, "")
Upper(s) == MapFrom(s, UP, 1, "")
EqCI(a, b) == a = b \/ (Len(a) = Len(b) /\ Lower(a) = Lower(b))

FilterNick(s)  == MapFrom(s, CT.nk, 1, "")
FilterGroup(s) == MapFrom(s, CT.gp, 1, "")

\* strcasecmp(a, b) > 0
RECURSIVE GreaterFrom(_, _, _)
GreaterFrom(a, b, i) ==
    IF i > Len(a) THEN FALSE
    ELSE IF i > Len(b) THEN TRUE
    ELSE IF At(a, i) = At(b, i) THEN GreaterFrom(a, b, i + 1)
    ELSE Ord(At(a, i)) > Ord(At(b, i))
GreaterCI(a, b) == GreaterFrom(Lower(a), Lower(b), 1)

\* index of the first c at or after i, or Len(s)+1
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) ==
    IF i > Len(s) THEN Len(s) + 1
    ELSE IF At(s, i) = c THEN i ELSE IndexFrom(s, c, i + 1)

IsBlank(c) == c = " " \/ c = TAB
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i > Len(s) \/ IsBlank(At(s, i)) THEN i ELSE WordEnd(s, i + 1)
RECURSIVE SkipBlank(_, _)
SkipBlank(s, i) == IF i <= Len(s) /\ IsBlank(At(s, i)) THEN SkipBlank(s, i + 1) ELSE i

\* the first word (at most 63 bytes of it), and what follows it
GetWord(s) == SubSeq(s, 1, MinI(63, WordEnd(s, 1) - 1))
GetTail(s) == LET j == SkipBlank(s, WordEnd(s, 1)) IN SubSeq(s, j, Len(s))

\* ^A separated fields; at most 20
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, acc) ==
    LET j == IndexFrom(s, SOH, i) IN
    IF Len(acc) = 19 \/ j > Len(s) THEN Append(acc, SubSeq(s, i, Len(s)))
    ELSE SplitFrom(s, j + 1, Append(acc, SubSeq(s, i, j - 1)))
Split(s) == SplitFrom(s, 1, << >>)
Field(f, i) == IF i <= Len(f) THEN f[i] ELSE ""       \* 1-based

\* cut at the first NUL, as a C string
CStr(s) == SubSeq(s, 1, IndexFrom(s, NUL, 1) - 1)

IsDigit(c) == c \in {"0","1","2","3","4","5","6","7","8","9"}
RECURSIVE DigitsFrom(_, _, _)
DigitsFrom(s, i, acc) ==
    IF i > Len(s) \/ ~IsDigit(At(s, i)) \/ acc > 200000000 THEN acc
    ELSE DigitsFrom(s, i + 1, 10 * acc + Ord(At(s, i)) - 48)
\* atoi, for at most 9 digits (more saturate beyond every limit of interest)
RECURSIVE SkipSpace(_, _)
SkipSpace(s, i) == IF i <= Len(s) /\ Ord(At(s, i)) \in {32, 9, 10, 11, 12, 13}
                   THEN SkipSpace(s, i + 1) ELSE i
Atoi(s) ==
    LET i == SkipSpace(s, 1) IN
    IF i > Len(s) THEN 0
    ELSE IF At(s, i) = "-" THEN 0 - DigitsFrom(s, i + 1, 0)
    ELSE IF At(s, i) = "+" THEN DigitsFrom(s, i + 1, 0)
    ELSE DigitsFrom(s, i, 0)

Str(n) == ToString(n)
Pad2(n) == IF n < 10 THEN "0" \o Str(n) ELSE Str(n)
RECURSIVE PadTo(_, _)
PadTo(s, n) == IF Len(s) >= n THEN s ELSE PadTo(s \o " ", n)
Plural(n) == IF n = 1 THEN "" ELSE "s"

(* ---- outgoing text: control characters dropped, bytes that are not valid
   UTF-8 replaced by '?', only the first n bytes considered, an incomplete
   character at the end dropped ---- *)
Plain(s) == \A i \in 1..Len(s) : Ord(At(s, i)) \in 32..126
\* length of the UTF-8 character a lead byte announces; 0 if it is no lead byte
LeadLen(b) == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2
              ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 0
\* is c a continuation byte allowed in position k after lead byte b?
ContOk(b, k, c) ==
    /\ c \in 128..191
    /\ k = 1 => /\ b = 224 => c >= 160
                /\ b = 237 => c <= 159
                /\ b = 240 => c >= 144
                /\ b = 244 => c <= 143
RECURSIVE FiltFrom(_, _, _)
FiltFrom(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET b == Ord(At(s, i))
             n == LeadLen(b)
             bad == {k \in 1..(n - 1) : i + k <= Len(s) /\ ~ContOk(b, k, Ord(At(s, i + k)))}
         IN IF n = 1 THEN FiltFrom(s, i + 1, IF b < 32 \/ b = 127 THEN acc ELSE acc \o At(s, i))
            ELSE IF n = 0 THEN FiltFrom(s, i + 1, acc \o "?")
            ELSE IF bad # {}
                 \* one '?' for the sequence up to the offending byte, which is looked at again
                 THEN FiltFrom(s, i + (CHOOSE k \in bad : \A m \in bad : k <= m), acc \o "?")
            ELSE IF i + n - 1 > Len(s) THEN acc
            ELSE FiltFrom(s, i + n, acc \o SubSeq(s, i, i + n - 1))
Filt(s, n) == LET t == Take(s, n) IN IF Plain(t) THEN t ELSE FiltFrom(t, 1, "")

(* ---- wildcards: '*', '?', '\x', '[a-z]', '[^...]' ---- *)
SOrd(c) == IF Ord(c) > 127 THEN Ord(c) - 256 ELSE Ord(c)     \* char is signed
\* members of the class starting at p (after '[' and '^'): <<matched, index of ']' or 0>>
RECURSIVE ClassFrom(_, _, _, _, _)
ClassFrom(t, p, i, last, m) ==
    IF i > Len(p) THEN <<m, 0>>
    ELSE IF At(p, i) = "]" THEN <<m, i>>
    ELSE IF At(p, i) = "-" /\ i < Len(p) /\ At(p, i + 1) # "]"
         THEN ClassFrom(t, p, i + 2, SOrd(At(p, i + 1)),
                        m \/ (SOrd(t) <= SOrd(At(p, i + 1)) /\ SOrd(t) >= last))
    ELSE ClassFrom(t, p, i + 1, SOrd(At(p, i)), m \/ At(p, i) = t)

\* 1 match, 0 no match, -1 no match here nor further right
RECURSIVE DoMatch(_, _, _, _)
RECURSIVE StarMatch(_, _, _, _)
DoMatch(t, i, p, j) ==
    IF j > Len(p) THEN (IF i > Len(t) THEN 1 ELSE 0)
    ELSE LET c == At(p, j) IN
    IF i > Len(t) /\ c # "*" THEN 0 - 1
    ELSE IF c = "?" THEN DoMatch(t, i + 1, p, j + 1)
    ELSE IF c = "*" THEN
        LET k == CHOOSE x \in (j + 1)..(Len(p) + 1) :
                     (x > Len(p) \/ At(p, x) # "*") /\ \A y \in (j + 1)..(x - 1) : At(p, y) = "*"
        IN IF k > Len(p) THEN 1 ELSE StarMatch(t, i, p, k)
    ELSE IF c = "[" THEN
        LET rev == j < Len(p) /\ At(p, j + 1) = "^"
            j1 == IF rev THEN j + 1 ELSE j
            lit == j1 < Len(p) /\ At(p, j1 + 1) \in {"]", "-"}
            j2 == IF lit THEN j1 + 1 ELSE j1
            r == ClassFrom(At(t, i), p, j2 + 1, SOrd(At(p, j2)), lit /\ At(p, j1 + 1) = At(t, i))
        IN IF r[2] = 0 \/ r[1] = rev THEN 0 ELSE DoMatch(t, i + 1, p, r[2] + 1)
    ELSE IF c = "\\" THEN
        IF j < Len(p) /\ At(t, i) = At(p, j + 1) THEN DoMatch(t, i + 1, p, j + 2) ELSE 0
    ELSE IF At(t, i) = c THEN DoMatch(t, i + 1, p, j + 1) ELSE 0
StarMatch(t, i, p, j) ==
    IF i > Len(t) THEN 0 - 1
    ELSE LET m == DoMatch(t, i, p, j) IN IF m # 0 THEN m ELSE StarMatch(t, i + 1, p, j)
WildMatch(text, pat) == pat = "*" \/ DoMatch(text, 1, pat, 1) = 1

(* ---- name lists: newest first, case-insensitive membership ---- *)
InList(l, name) == \E i \in 1..Len(l) : EqCI(l[i], name)
ListDel(l, name) ==
    IF ~InList(l, name) THEN l
    ELSE LET k == CHOOSE i \in 1..Len(l) : EqCI(l[i], name) /\ \A j \in 1..(i - 1) : ~EqCI(l[j], name)
         IN SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, Len(l))
\* an entry already present moves to the front keeping its spelling; a full
\* list loses its oldest entry
ListPut(l, name, max) ==
    IF InList(l, name)
    THEN LET k == CHOOSE i \in 1..Len(l) : EqCI(l[i], name) /\ \A j \in 1..(i - 1) : ~EqCI(l[j], name)
         IN <<l[k]>> \o SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, Len(l))
    ELSE IF Len(l) < max THEN <<name>> \o l
    ELSE <<name>> \o SubSeq(l, 1, Len(l) - 1)
ListMatch(l, name) == \E i \in 1..Len(l) : WildMatch(name, l[i])

(* ---- format strings with %s: number of %s, or -1 if another conversion ---- *)
RECURSIVE FmtFrom(_, _, _, _)
FmtFrom(s, i, ns, bad) ==
    LET j == IndexFrom(s, "%", i) IN
    IF j > Len(s) THEN (IF bad THEN 0 - 1 ELSE ns)
    ELSE IF j = Len(s) THEN 0 - 1
    ELSE IF At(s, j + 1) = "s" THEN FmtFrom(s, j + 1, ns + 1, bad)
    ELSE IF At(s, j + 1) = "%" THEN FmtFrom(s, j + 2, ns, bad)
    ELSE FmtFrom(s, j + 1, ns, TRUE)
FmtCount(s) == FmtFrom(s, 1, 0, FALSE)
FmtBad == "Message can't include %d, %f and such. Use %% to quote a single %."
FmtOne == "Message must contain (only) 1 %s for the username."
\* printf(s, arg) for a string with FmtCount >= 0
RECURSIVE FmtSubst(_, _, _, _)
FmtSubst(s, arg, i, acc) ==
    LET j == IndexFrom(s, "%", i) IN
    IF j > Len(s) THEN acc \o SubSeq(s, i, Len(s))
    ELSE FmtSubst(s, arg, j + 2, acc \o SubSeq(s, i, j - 1)
                                 \o (IF At(s, j + 1) = "s" THEN arg ELSE "%"))
Fmt(s, arg) == FmtSubst(s, arg, 1, "")

(* ---- time: 0 is Mon Sep 10 00:00:00 2001 UTC ---- *)
Base == 1000080000
Days == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>
DayNo(t) == t \div 86400
MonthDay(t) == LET d == 10 + DayNo(t) IN IF d <= 30 THEN <<"Sep", d>>
               ELSE IF d <= 61 THEN <<"Oct", d - 30>> ELSE <<"Nov", d - 61>>
Blank2(n) == IF n < 10 THEN " " \o Str(n) ELSE Str(n)
Hour(t) == (t % 86400) \div 3600
Minute(t) == (t % 3600) \div 60
DateStr(t) == LET md == MonthDay(t) IN
    Blank2(md[2]) \o "-" \o md[1] \o "-2001 " \o Pad2(Hour(t)) \o ":" \o Pad2(Minute(t)) \o " UTC"
CTime(t) == LET md == MonthDay(t) IN
    Days[1 + (DayNo(t) % 7)] \o " " \o md[1] \o " " \o Blank2(md[2]) \o " "
    \o Pad2(Hour(t)) \o ":" \o Pad2(Minute(t)) \o ":" \o Pad2(t % 60) \o " 2001"
Clock12(t) == LET h == Hour(t) IN
    Str(IF h > 12 THEN h - 12 ELSE IF h = 0 THEN 12 ELSE h) \o ":" \o Pad2(Minute(t))
    \o (IF h > 11 THEN "pm" ELSE "am")
HoursMins(n) == LET h == n \div 3600 m == (n % 3600) \div 60 IN
    Str(h) \o " hour" \o Plural(h) \o ", " \o Str(m) \o " minute" \o Plural(m)
=============================================================================
