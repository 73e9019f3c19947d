----------------------------- MODULE IcbDbmMC -----------------------------
(* Every history of a small database, with saves failing or being cut short
   anywhere; prints every transition for replay on the real code. *)
EXTENDS IcbDbm, Json, TLCExt
Scope == JsonDeserialize("scope.json")
VARIABLES s, good
Key(x) == ToString(TLCFP(x))
Init == s = Init0 /\ good = TRUE /\ PrintT("INIT " \o Key(s))
Next == \E i \in 1..Len(Scope.acts) :
          LET a == Scope.acts[i] IN
          /\ Can(s, a) /\ TLCGet("level") <= Scope.depth
          /\ \E p \in Succ(s, a, << >>) :
               /\ s' = p[1] /\ good' = Whole(s, a, p[1])
               /\ PrintT("EDGE " \o Key(s) \o " " \o ToString(i) \o " " \o Key(s'))
Holds == good
=============================================================================
