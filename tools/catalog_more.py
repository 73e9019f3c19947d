FUN = ("TLA+ operators (spec/IcbText.tla, IcbFun.tla) that give each function's result and, independently, what it denotes; the real functions, compiled with sanitizers, "
       "are called over exhaustive small inputs and at random, and every call is compared by TLC; the whole server is run under the same specification with workloads that depend on them (IcbTrace)")
p("C15", "The database holds what was put into it, and its file is always whole",
  "The registration database behaves as a map: a value stored under a key (keys of the server's own layer are compared without regard to case) is what is found there, byte for byte, until it is replaced or deleted, whatever else is stored or deleted, for keys and values of any length and content it accepts; what it could not give back it refuses. Walking the keys meets each exactly once. Lists of values contain exactly what was added and not removed. After a change is reported done it is in the file; reading the file again gives the same map. If saving fails or the process ends at any point of it, the file holds either the whole old map or the whole new one; a file that is cut short or not a database is refused, never half read.",
  [H, I, F, CP], "all sequences of operations, all keys and values, all failures of file operations and all points of ending within a save, all contents of the file",
  "Tests store a few short keys in a fresh file; collisions, deletions between others, failures, long values and damaged files are not sampled.",
  ["server/icb_dbm.c", "server/icbdb.c", "server/dbm.h"], [("map and file", "icb_dbm.c: dbm_open, dbm_store, dbm_fetch, dbm_delete, dbm_firstkey/nextkey, dbm_close and saving"), ("named values and lists", "icbdb.c: icbdb_set, icbdb_get, icbdb_delete, icbdb_list_add ...")],
  technique="TLA+ specification of both layers and of the file they keep, including how files behave when operations fail or the process ends (spec/IcbDbm.tla, IcbFs.tla); TLC explores scopes exhaustively, the transitions are performed on the real code through a harness that makes any file operation fail or be the last, and random sequences are validated step by step by TLC (IcbDbmTrace)",
  note="Exhaustive over the operations, failures and points of ending of small scopes; beyond them by random sequences. Deaths are of the process, not of the machine: what the kernel was given is kept.")
p("C23", "The deny file and the permissions file are applied to every login as they stand",
  "A login is refused if the user's login id and address match a pattern of the deny file (without regard to case; the user is told the reason written behind the first such pattern) or if the first entry of the permissions file that applies to the user (same login id and host name, or an address equal to the entry's after its mask) denies it, and by these files in no other case. The files are read at each login: changes apply to the next one and not to those already in. Comments, blank and incomplete lines say nothing. A user whose entry slows messages is told so, and is served at most one packet a second, none lost or reordered; nobody else is slowed.",
  [CF, I, H], "all contents of both files, all login ids, host names and addresses, and all moments at which the files change",
  "The tests have no such files, and clients of one address only.",
  ["server/msgs.c", "server/wildmat.c", "pktserv/pktserv.c"], [("permissions", "msgs.c: get_perms, perm2val"), ("deny file", "msgs.c: loginmsg"), ("slowed users", "msgs.c: ok2read")])
p("C27", "Patterns match exactly what they denote",
  "A pattern of hush, notify and invitation lists and of the deny file matches an address exactly if the address can be cut into pieces, one for each item of the pattern in order: * any text, ? any one character, [...] one of the characters and ranges listed (after ^ one of all others), \\ the next character itself, anything else that character. An unfinished pattern matches nothing, and no pattern makes the server fail.",
  [I], "all patterns and all texts",
  "Matching backtracks; classes, ranges, escapes and unfinished patterns combine without end and tests try a few.",
  ["server/wildmat.c", "server/namelist.c"], [("matching", "wildmat.c: wildmat, Star, DoMatch")], technique=FUN, level="model_checking",
  note="All patterns of up to five and texts of up to four characters of an alphabet with every special character, plus random longer ones, are compared with a declarative definition; and the whole server's use of patterns with the same operator.")
p("C28", "Text is taken apart, filtered and cut without ever damaging it",
  "Whatever bytes it is given: text passed on to other users keeps exactly its printable ASCII characters and well-formed UTF-8 sequences, in order, as many whole ones as fit, and nothing else; names keep their length and only their permitted characters, others being replaced; taking the first word or the rest of a line, splitting a packet into fields, changing letter case and counting a text's conversions give exactly the parts they are defined as and never look beyond the text.",
  [I], "all byte strings and all limits",
  "Boundaries between valid and invalid UTF-8 and at limits are many; tests try typical strings.",
  ["server/strutil.c", "server/utf8.c", "server/icbutil.c", "server/dispatch.c"], [("filtering", "strutil.c: filtertext, filternickname, filtergroupname, filterfmt"), ("UTF-8", "utf8.c"), ("taking apart", "strutil.c: getword, get_tail; icbutil.c: split")], technique=FUN)
p("C33", "Name lists and sorted lists are exact at every size",
  "For every sequence of additions, removals, matches and walks: a name list holds the names added and not removed, each once without regard to case, at most its limit, and adding to a full one drops exactly the oldest; a sorted list is a permutation of what was put in, in order, and deleting takes out exactly the entry deleted; neither is ever damaged by what is added to or removed from it, in any position.",
  [H, I], "all sequences of operations on lists of any limit, with any names",
  "Removal at the head, in the middle, at the end and of the last entry, re-adding and overflow interact.",
  ["server/namelist.c", "server/strlist.c"], [("name lists", "namelist.c: nlinit, nlput, nldelete, nlpresent, nlmatch, nlclear"), ("lists", "strlist.c: strlistgen functions")], technique=FUN)
p("C34", "Bricks are counted, and run out",
  "Where the server is built with bricks: everybody begins with five when they log in; asking shows exactly how many one has or owes and changes nothing; throwing one costs one, whoever or whatever it hits; who is hit by somebody else gets it, up to twenty, and the thrower's group and theirs hear of it once; without bricks nobody is hit, one is told so, and whoever goes on is announced as fallen at the fifth owed and thrown out at the sixth, with the usual notices. Nobody else's bricks change, nothing else changes them, and who comes later on the same connection slot begins with five.",
  [H, I], "all sequences of throws, questions, logins, departures and changes of name and group, at all counts",
  "No test is built with bricks.",
  ["server/s_user.c", "server/users.c", "server/msgs.c"], [("throwing", "s_user.c: s_brick"), ("the beginning", "users.c: clear_user_item, fill_user_entry")],
  note="A build of its own, with ICBD_BRICK. All reachable counts of two users are explored exhaustively.")
p("C35", "The log tells who came, who they were and who left, and nobody else can write it",
  "While the level of logging is 3 or more, the log gets exactly one entry, with the time at which it happens, for every connection made (its slot, its host, whether it is encrypted), every login whose names are valid and free and which the access files admit (slot, login id and host), whether it then succeeds or not, every login these files refuse, every question asked without logging in, every open message of a logged-in user (other than one for which a spammer of group 1 is thrown out), every user dropped by password, every idle user moved away, and every connection that ends (slot, and who it was); below level 3 none of these. Entries are whole lines: nothing a client sends, logged in or not, begins a line of the log or looks like an entry it is not. When the log has been moved away and the server is sent SIGHUP, what follows is in a new file; nobody notices, and the level can be changed at any time. Asked by SIGTERM or SIGINT, the server ends with status 0, and started again it finds everything registered.",
  [I, H], "all histories, all contents of packets and all moments of rotation, changes of level and ends",
  "No test looks at the log, or sends the server a signal other than to end the test.",
  ["server/mdb.c", "server/icbutil.c", "server/s_admin.c", "server/send.c", "server/ipcf.c", "server/msgs.c"], [("entries", "mdb.c: mdb, vmdb"), ("rotation and the end", "icbutil.c: icbcyclelogs, icbopenlogs, icbexit; main.c: trapsignals"), ("level", "s_admin.c: s_log"), ("what is logged", "send.c: s_new_user; msgs.c: loginmsg, openmsg; ipcf.c: s_lost_user, s_didpoll; s_admin.c: s_drop")],
  note="Other entries (of errors, of the network layer, of unknown commands) are only required to be whole lines.")
p("C31", "The database tools do what they say and lose nothing",
  "Run on any database while the server is down, each support tool leaves exactly the database it should: setting one value changes that value only; deleting a nickname removes all that is stored for it, messages included, and nothing of anybody else; pruning deletes exactly those not seen for more than the given number of days, and asks first unless told otherwise; exporting and importing, and migrating from another kind of database, reproduce every key and value byte for byte; looking at the database, counting and finding change nothing and show what is there. A damaged file is refused and left alone, a run that fails or dies part way leaves the old database or the new one, and the server then started finds exactly that.",
  [I, H, F, CP], "all databases with any bytes in their values, all sequences of tool runs and server sessions, failures and deaths while saving, damaged files",
  "There are no tests of the tools at all.",
  ["support/icbdb.py", "support/setdb.py", "support/deldb.py", "support/nickprune.py", "support/dbexport.py", "support/dbimport.py", "support/dbm2icbdb.py", "support/mkdb.py", "support/catdb.py", "support/countdb.py", "support/finddb.py"],
  [("file", "icbdb.py: IcbDb"), ("deletion", "deldb.py, nickprune.py"), ("moving", "dbexport.py, dbimport.py, dbm2icbdb.py")],
  technique="TLA+ specification of what each tool does to the database and prints (spec/IcbTools.tla), used by the specification of the server too; histories of runs of the real tools, with file operations made to fail or be the last, and of server sessions between them, are validated step by step by TLC (IcbToolsTrace, IcbTrace); a scope of tools and server together is explored exhaustively",
  note="Exhaustive in a small scope; random histories beyond it. Old Perl versions of the tools (support/olddb) are not covered.")
p("C29", "Somebody who does not read hurts nobody else, and loses nothing they could have had",
  "A client that stops reading, or whose network takes only so much, is sent what it was to be sent as soon and as far as there is room: whole packets, unchanged, in order, none twice; only when more packets are waiting for it than the queue holds are further ones dropped, and only those. What it says meanwhile is heard and acted upon. A client that leaves so much unread for so long that its turn comes too often in vain may be disconnected, with the same notices as for any other. All other clients are served exactly as if it read everything, and the server does not busy itself waiting.",
  [S, I, H], "all moments and amounts at which the network stops taking data for any clients, all traffic meanwhile, and their disconnecting or being removed in that condition",
  "Every test client reads at once; a partial write never happens in a test.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "pktserv/pktbuffers.c"], [("queues", "pktserv.c: pktserv_send, pollfd_state_machine, update_pollfd_events"), ("partial writes", "pktsocket.c: pktsocket_write")],
  note="How much the network takes is controlled exactly, to the byte, at the server's system calls, and exhaustively in a small scope; clients that really do not read their sockets are used as well, where the kernel's buffering is not known and only order, wholeness and bounds on what is lost are checked.")
p("C32", "A TLS client is served exactly as a clear one",
  "Over a TLS connection a client is sent the same packets, and its packets have the same effect, as over a clear one, whatever it sends, however its bytes are cut into TLS records and segments, and whoever else is connected in whichever way. A connection to the TLS port is announced to nobody and occupies nobody until its handshake is complete; one that never completes it, sends something else or breaks off affects no other client and does not keep the server busy.",
  [S, I, H], "all packets and byte streams, all cuts into records, all interleavings of clear and TLS clients, handshakes left incomplete at any point",
  "One test logs in over TLS.",
  ["pktserv/sslsocket.c", "pktserv/pktsocket.c", "pktserv/pktserv.c"], [("handshake, reading and writing", "sslsocket.c; pktserv.c: ssl_pending_on, pollfd_state_machine")],
  note="The same specification as for clear connections, so that equality with it is equality with them. TLS itself is OpenSSL's.")
