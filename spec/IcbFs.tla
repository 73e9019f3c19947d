------------------------------- MODULE IcbFs -------------------------------
(* Just enough of a file system to say what a power failure leaves: a file has
   so many bytes written and so many of them certainly on the disk; a name
   refers to a file.  One name is the database. *)
EXTENDS Naturals, Sequences, TLC

FsInit(main) == [main |-> main, file |-> << >>, name |-> << >>, fd |-> << >>, next |-> 1, bad |-> ""]
FsPut(m, x, v) == [y \in DOMAIN m \cup {x} |-> IF y = x THEN v ELSE m[y]]
FsDel(m, x) == [y \in DOMAIN m \ {x} |-> m[y]]

\* e: <<"open", path, fd, empty it?>> <<"write", fd, bytes>> <<"sync", fd>> <<"close", fd>>
\*    <<"rename", from, to>> <<"unlink", path>>: operations that succeeded
FsEv(f, e) ==
    CASE e[1] = "open" ->
            IF e[2] \in DOMAIN f.name /\ ~e[4]
            THEN [f EXCEPT !.fd = FsPut(@, e[3], f.name[e[2]])]
            ELSE IF e[2] \in DOMAIN f.name
            THEN [f EXCEPT !.fd = FsPut(@, e[3], f.name[e[2]]), !.file[f.name[e[2]]] = [w |-> 0, s |-> 0],
                           !.bad = IF e[2] = f.main THEN "the database is emptied in place" ELSE @]
            ELSE [f EXCEPT !.fd = FsPut(@, e[3], f.next), !.name = FsPut(@, e[2], f.next),
                           !.file = FsPut(@, f.next, [w |-> 0, s |-> 0]), !.next = @ + 1]
      [] e[1] = "write" /\ e[2] \in DOMAIN f.fd ->
            LET n == f.fd[e[2]] IN
            [f EXCEPT !.file[n].w = @ + e[3],
                      !.bad = IF f.main \in DOMAIN f.name /\ f.name[f.main] = n THEN "the database is written in place" ELSE @]
      [] e[1] = "sync" /\ e[2] \in DOMAIN f.fd -> [f EXCEPT !.file[f.fd[e[2]]].s = f.file[f.fd[e[2]]].w]
      [] e[1] = "close" -> [f EXCEPT !.fd = FsDel(@, e[2])]
      [] e[1] = "rename" /\ e[2] \in DOMAIN f.name ->
            [f EXCEPT !.name = FsPut(FsDel(@, e[2]), e[3], f.name[e[2]]),
                      !.bad = IF e[3] = f.main /\ f.file[f.name[e[2]]].s < f.file[f.name[e[2]]].w
                              THEN "the database is replaced by a file not yet on the disk" ELSE @]
      [] e[1] = "unlink" -> [f EXCEPT !.name = FsDel(@, e[2]),
                                      !.bad = IF e[2] = f.main THEN "the database is removed" ELSE @]
      [] OTHER -> f
RECURSIVE FsRun(_, _)
FsRun(f, ev) == IF ev = << >> THEN f ELSE FsRun(FsEv(f, Head(ev)), Tail(ev))
FsSafe(f) == f.bad = ""
=============================================================================
