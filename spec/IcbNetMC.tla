----------------------------- MODULE IcbNetMC -----------------------------
(* The channel from the server to one client, explored: packets of Size bytes,
   a network that takes at most Cap bytes, Queue packets waiting in the server. *)
EXTENDS IcbNet
CONSTANTS Size, Cap, Queue, Most
VARIABLES sent,     \* packets sent by the server, numbered
          queue,    \* those waiting: <<number, bytes handed over>>
          net,      \* bytes in the network, each with its packet's number
          got,      \* bytes the client has read
          lost,     \* packets given up
          retries
vars == <<sent, queue, net, got, lost, retries>>
Init == sent = 0 /\ queue = << >> /\ net = << >> /\ got = << >> /\ lost = {} /\ retries = 0
Rep(x, n) == [i \in 1..n |-> x]
Min(a, b) == IF a < b THEN a ELSE b
\* hand over as much as the network takes
RECURSIVE Flush(_, _, _)
Flush(q, n, r) ==
    IF q = << >> THEN <<q, n, r>>
    ELSE LET room == Cap - Len(n)
             rest == Size - Head(q)[2]
         IN IF room >= rest THEN Flush(Tail(q), n \o Rep(Head(q)[1], rest), 0)
            ELSE <<<<<<Head(q)[1], Head(q)[2] + room>>>> \o Tail(q), n \o Rep(Head(q)[1], room), r + 1>>
Become(f) == queue' = f[1] /\ net' = f[2] /\ retries' = f[3]
Send == /\ sent < Most
        /\ sent' = sent + 1
        /\ IF Len(queue) >= Queue
           THEN lost' = lost \cup {sent'} /\ UNCHANGED <<queue, net, retries>>
           ELSE lost' = lost /\ Become(Flush(Append(queue, <<sent', 0>>), net, retries))
        /\ got' = got
Read == /\ net # << >>
        /\ \E k \in 1..Len(net) : got' = got \o SubSeq(net, 1, k) /\ net' = SubSeq(net, k + 1, Len(net))
        /\ UNCHANGED <<sent, queue, lost, retries>>
Room == /\ queue # << >> /\ Len(net) < Cap
        /\ Become(Flush(queue, net, retries))
        /\ UNCHANGED <<sent, got, lost>>
Next == Send \/ Read \/ Room
Spec == Init /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(Room)

Whole == Len(got) % Size = 0
Packets == [i \in 1..(Len(got) \div Size) |-> got[(i - 1) * Size + 1]]
All == [i \in 1..sent |-> i]
\* the bytes of a packet arrive together, in the order in which packets were sent
InOrder == \A i \in 1..Len(got) : LET j == (i - 1) \div Size IN got[i] = got[j * Size + 1]
OnlyLost == queue = << >> /\ net = << >> => Whole /\ DeliveredOf(Queue, All, Packets, FALSE)
                                           /\ {Packets[i] : i \in 1..Len(Packets)} = (1..sent) \ lost
Prefix == DeliveredOf(Queue, All, Packets, TRUE)
LossNeedsFull == \A p \in lost : p > Queue
FewRetries == retries <= Queue
\* a client that reads gets everything that was not given up
Arrives == []<>(queue = << >> /\ net = << >>)
=============================================================================
