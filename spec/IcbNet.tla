------------------------------ MODULE IcbNet ------------------------------
(* What a client that does not always read receives.

   The server hands packets to the network without waiting.  The network takes
   so many bytes and no more until the client reads; up to MaxQueue further
   packets wait in the server, and what is sent to the client beyond these is
   lost.  A packet of which a part has been handed over comes next, whatever
   else is sent meanwhile.  Delivered says what that means for the client; the
   behaviours of the channel below are checked to be all Delivered allows. *)
EXTENDS Integers, Sequences, FiniteSets

MaxQueue == 10

RECURSIVE IsSub(_, _, _, _)
IsSub(r, i, s, j) == i > Len(r) \/ (j <= Len(s) /\ IF r[i] = s[j] THEN IsSub(r, i + 1, s, j + 1) ELSE IsSub(r, i, s, j + 1))
\* the packets r were received of those sent, s, by a client that was then (gone) disconnected or has read all
DeliveredOf(q, s, r, gone) ==
    /\ IsSub(r, 1, s, 1)
    /\ IF gone THEN TRUE
       ELSE /\ Len(r) >= (IF Len(s) < q THEN Len(s) ELSE q)
            /\ \A i \in 1..(IF Len(s) < q THEN Len(s) ELSE q) : r[i] = s[i]
Delivered(s, r, gone) == DeliveredOf(MaxQueue, s, r, gone)

(* A channel of which is known how many bytes the network takes (room): the packets
   waiting, q, the bytes of the first of them handed over already, off, and what has
   been handed over completely, done. *)
NetSize(p) == Len(p) + 2
Channel(k) == [room |-> k, q |-> << >>, off |-> 0, done |-> << >>]
RECURSIVE NetFlush(_)
NetFlush(c) ==
    IF c.q = << >> THEN c
    ELSE LET rest == NetSize(Head(c.q)) - c.off IN
         IF c.room >= rest
         THEN NetFlush([room |-> c.room - rest, q |-> Tail(c.q), off |-> 0, done |-> Append(c.done, Head(c.q))])
         ELSE [c EXCEPT !.off = @ + c.room, !.room = 0]
NetSend(c, p) == IF Len(c.q) >= MaxQueue THEN c ELSE NetFlush([c EXCEPT !.q = Append(@, p)])
NetRoom(c, k) == NetFlush([c EXCEPT !.room = @ + k])
=============================================================================
