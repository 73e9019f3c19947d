------------------------------- MODULE IcbFun -------------------------------
(* The text functions the server is built of, on their own: what wildcard
   patterns denote, what is done to text and names, how lines are taken apart,
   and how name lists remember.  cases.json is an array of calls of the real
   functions with their results; every call is compared with the operators of
   IcbText that the rest of the specification uses, and those with the
   definitions below where they say the same thing in another way. *)
EXTENDS IcbText

(* ---- what a pattern denotes, without saying how to match: a pattern is a
   sequence of items, a text matches if it can be cut into pieces, one for each
   item.  An unfinished pattern denotes nothing. ---- *)
\* the class starting at i: <<its members, index after its ']' or 0>>
RECURSIVE Members_(_, _, _, _)
Members_(p, i, last, acc) ==
    IF i > Len(p) THEN <<acc, 0>>
    ELSE IF At(p, i) = "]" THEN <<acc, i + 1>>
    ELSE IF At(p, i) = "-" /\ i < Len(p) /\ At(p, i + 1) # "]"
         THEN Members_(p, i + 2, SOrd(At(p, i + 1)), acc \cup (last..SOrd(At(p, i + 1))))
    ELSE Members_(p, i + 1, SOrd(At(p, i)), acc \cup {SOrd(At(p, i))})
Bytes == (0 - 128)..127
Class(p, i) ==          \* p[i] is "["
    LET rev == i < Len(p) /\ At(p, i + 1) = "^"
        b == IF rev THEN i + 2 ELSE i + 1
        lit == b <= Len(p) /\ At(p, b) \in {"]", "-"}
        r == IF lit THEN Members_(p, b + 1, SOrd(At(p, b)), {SOrd(At(p, b))})
             ELSE Members_(p, b, SOrd(At(p, b - 1)), {})
    IN <<IF rev THEN Bytes \ r[1] ELSE r[1], r[2]>>
Star == [star |-> TRUE, set |-> {}]
One(S) == [star |-> FALSE, set |-> S]
Nothing == [star |-> FALSE, set |-> {}]
RECURSIVE Items(_, _)
Items(p, i) ==
    IF i > Len(p) THEN << >>
    ELSE CASE At(p, i) = "*" -> <<Star>> \o Items(p, i + 1)
           [] At(p, i) = "?" -> <<One(Bytes)>> \o Items(p, i + 1)
           [] At(p, i) = "\\" -> IF i = Len(p) THEN <<Nothing>> ELSE <<One({SOrd(At(p, i + 1))})>> \o Items(p, i + 2)
           [] At(p, i) = "[" -> LET c == Class(p, i) IN IF c[2] = 0 THEN <<Nothing>> ELSE <<One(c[1])>> \o Items(p, c[2])
           [] OTHER -> <<One({SOrd(At(p, i))})>> \o Items(p, i + 1)
RECURSIVE Cut(_, _, _, _)
Cut(t, i, q, j) ==
    IF j > Len(q) THEN i > Len(t)
    ELSE IF q[j].star THEN \E k \in i..(Len(t) + 1) : Cut(t, k, q, j + 1)
    ELSE i <= Len(t) /\ SOrd(At(t, i)) \in q[j].set /\ Cut(t, i + 1, q, j + 1)
Denotes(t, p) == Cut(t, 1, Items(p, 1), 1)

(* ---- text that may be shown: printable ASCII and well-formed UTF-8 ---- *)
RECURSIVE Shown(_, _)
Shown(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE LET b == Ord(At(s, i)) n == LeadLen(b) IN
         /\ n > 0 /\ i + n - 1 <= Len(s) /\ (n = 1 => b \in 32..126)
         /\ \A k \in 1..(n - 1) : ContOk(b, k, Ord(At(s, i + k)))
         /\ Shown(s, i + n)

NickOk == {"-", ".", "!", "'", "$", "+", ",", "/", "?", "_", "@"}
GroupOk == {"-", ".", "!", "'", "$", "+", ",", "/", "?", "_", "~"}
AlNum(c) == Ord(c) \in 48..57 \/ Ord(c) \in 65..90 \/ Ord(c) \in 97..122
NameOk(a, r, okset) ==
    /\ Len(r) = Len(a)
    /\ \A i \in 1..Len(a) : At(r, i) = (IF AlNum(At(a, i)) \/ At(a, i) \in okset THEN At(a, i) ELSE IF At(a, i) = " " THEN "_" ELSE "?")

(* ---- name lists ---- *)
\* l: newest first; p: where the next look is
RECURSIVE From(_, _, _)
From(l, p, n) == IF n = 0 THEN << >> ELSE <<l[p]>> \o From(l, 1 + (p % Len(l)), n - 1)
ListOp(st, o) ==        \* <<state, answer>>
    LET l == st.l IN
    CASE o[1] = "lput" -> <<[st EXCEPT !.l = ListPut(l, o[2], st.max), !.p = 1], "0">>
      [] o[1] = "ldel" -> IF InList(l, o[2]) THEN <<[st EXCEPT !.l = ListDel(l, o[2]), !.p = 1], "0">> ELSE <<st, "-1">>
      [] o[1] = "lhas" -> <<st, IF InList(l, o[2]) THEN "1" ELSE "0">>
      [] o[1] = "lmatch" -> <<st, IF \E i \in 1..Len(l) : Denotes(o[2], l[i]) THEN "1" ELSE "0">>
      [] o[1] = "lget" -> <<[st EXCEPT !.p = 1 + (@ % Len(l))], l[st.p]>>
      [] o[1] = "lall" -> <<st, <<Str(Len(l))>> \o From(l, st.p, Len(l))>>
      [] o[1] = "lclear" -> <<[st EXCEPT !.l = << >>, !.p = 1], "0">>
\* the list says at most max names, each once, and the newest name is there
ListGood(st, o, y) ==
    /\ Len(y.l) <= st.max /\ \A i, j \in 1..Len(y.l) : i # j => ~EqCI(y.l[i], y.l[j])
    /\ o[1] = "lput" => EqCI(y.l[1], o[2])
RECURSIVE ListRun(_, _, _)
ListRun(st, ops, i) ==          \* 0, or the first operation that is wrong
    IF i > Len(ops) THEN 0
    ELSE LET r == ListOp(st, ops[i]) IN
         IF r[2] # ops[i][3] \/ ~ListGood(st, ops[i], r[1]) THEN i ELSE ListRun(r[1], ops, i + 1)

\* sorted lists
Before(a, b, ci) == IF ci THEN GreaterCI(b, a) ELSE GreaterFrom(b, a, 1)
Enlist(l, x, ci) ==
    LET k == CHOOSE k \in 1..(Len(l) + 1) : (k > Len(l) \/ Before(x, l[k], ci)) /\ \A j \in 1..(k - 1) : ~Before(x, l[j], ci)
    IN SubSeq(l, 1, k - 1) \o <<x>> \o SubSeq(l, k, Len(l))
IsIn(l, x, ci) == \E i \in 1..Len(l) : IF ci THEN EqCI(l[i], x) ELSE l[i] = x
Unlist(l, x, ci) ==
    LET k == CHOOSE i \in 1..Len(l) : (IF ci THEN EqCI(l[i], x) ELSE l[i] = x) /\ \A j \in 1..(i - 1) : ~(IF ci THEN EqCI(l[j], x) ELSE l[j] = x)
    IN SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, Len(l))
SortOp(l, o, ci) ==
    CASE o[1] = "salpha" -> <<Enlist(l, o[2], ci), "0">>
      [] o[1] = "sdel" -> IF IsIn(l, o[2], ci) THEN <<Unlist(l, o[2], ci), "1">> ELSE <<l, "0">>
      [] o[1] = "sall" -> <<l, <<Str(Len(l))>> \o l>>
Sorted(l, ci) == \A i \in 1..(Len(l) - 1) : ~Before(l[i + 1], l[i], ci)
RECURSIVE SortRun(_, _, _, _)
SortRun(l, ops, i, ci) ==
    IF i > Len(ops) THEN 0
    ELSE LET r == SortOp(l, ops[i], ci) IN
         IF r[2] # ops[i][3] \/ ~Sorted(r[1], ci) THEN i ELSE SortRun(r[1], ops, i + 1, ci)

(* ---- the cases ---- *)
Expected(c) ==
    CASE c.f = "wild" -> IF WildMatch(c.a, c.b) THEN "1" ELSE "0"
      [] c.f = "text" -> Filt(c.a, c.n)
      [] c.f = "nick" -> FilterNick(c.a)
      [] c.f = "group" -> FilterGroup(c.a)
      [] c.f = "lower" -> Lower(c.a)
      [] c.f = "upper" -> Upper(c.a)
      [] c.f = "word" -> GetWord(c.a)
      [] c.f = "tail" -> GetTail(c.a)
      [] c.f = "fmt" -> IF FmtCount(c.a) = c.n THEN "1" ELSE "0"
      [] c.f = "split" -> Split(c.a)
      [] c.f \in {"list", "sort"} -> 0
Also(c) ==
    CASE c.f = "wild" -> Denotes(c.a, c.b) = WildMatch(c.a, c.b)
      [] c.f = "text" -> Shown(c.r, 1) /\ Filt(c.r, Len(c.r)) = c.r /\ Len(c.r) <= c.n /\ (Shown(c.a, 1) /\ Len(c.a) <= c.n => c.r = c.a)
      [] c.f = "nick" -> NameOk(c.a, c.r, NickOk)
      [] c.f = "group" -> NameOk(c.a, c.r, GroupOk)
      [] OTHER -> TRUE
Result(c) == IF c.f = "list" THEN ListRun([l |-> << >>, p |-> 1, max |-> c.n], c.ops, 1)
             ELSE IF c.f = "sort" THEN SortRun(<< >>, c.ops, 1, c.n = 1) ELSE c.r
Right(c) == Result(c) = Expected(c) /\ Also(c)

Cases == JsonDeserialize("cases.json")
VARIABLES k, done
Init == k \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET bad == {i \in 1..Len(Cases[k]) : ~Right(Cases[k][i])} IN
           IF bad = {} THEN PrintT("GOOD " \o ToString(k))
           ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN
                PrintT("WRONG " \o ToJson([chunk |-> k, case |-> i, wrong |-> Cardinality(bad), expected |-> Expected(Cases[k][i]), at |-> Result(Cases[k][i])]))
=============================================================================
