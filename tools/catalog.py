#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ("TLA+ specification of the whole server (spec/Icb*.tla), property predicate checked by TLC on every transition of small scopes; "
         "tours over the transitions found and random property-focused workloads performed on the real server and validated step by step by TLC (IcbTrace)")
H, I, S, CP, F, CF = "histories", "inputs", "schedules", "crash_points", "fault_sequences", "configurations"
T = []


def p(id_, title, statement, over, qtext, why, files, mech, technique=TRACE, level="model_checking", note=None):
    T.append(dict(id=id_, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, level=level,
                  note=note or "Model checking is exhaustive inside each scope (2-3 clients, about a dozen commands, bounded depth); the implementation is bound to the model by replaying tours over those transitions and by validating random executions, so conformance is exact on the executions run, not proved."))


p("C01", "Nicknames identify exactly one connected user",
  "At any moment every logged-in user has a non-empty nickname of at most 12 printable characters without blanks, and no two connected users (the server's own user included) have nicknames equal up to letter case. A nickname changes only at that user's own login or rename; the server's name can never be taken and the administrator's only with the administrator's password. A refused rename or login leaves every name as it was and tells the requester why.",
  [H, I], "all sequences of logins, renames, disconnections and slot reuse by any clients with any names",
  "Tests log in a few fixed names; collisions through case, filtering, truncation, a dying connection or a reused slot need particular histories.",
  ["server/access.c", "server/s_user.c", "server/users.c", "server/lookup.c", "server/msgs.c"],
  [("login check", "access.c: nick filtering and uniqueness"), ("rename check", "s_user.c: s_name"), ("lookup", "lookup.c: find_user")])
p("C02", "Nothing works before login, and a failed login leaves nothing behind",
  "Until a login packet is accepted, no packet of a connection reaches another user, changes a group or changes anybody's state; afterwards another login packet changes nothing about the session. A login is accepted exactly when its name, group and kind are acceptable, in which case the user is announced to and placed in the group asked for; otherwise the client is told why and disconnected and no trace of it remains. A login that only asks who is on gets that answer and the connection is closed.",
  [H, I], "all orders and contents of packets sent before, as and after a login, against all group states",
  "Tests try a handful of well-formed and malformed logins on an empty server; group restrictions, reserved names and pre-login commands combine without end.",
  ["server/msgs.c", "server/access.c", "server/dispatch.c", "server/ipcf.c"],
  [("login", "msgs.c: loginmsg"), ("gate", "dispatch.c: dispatch"), ("disconnect on failure", "ipcf.c: S_kill handling")])
p("C03", "Open messages reach exactly the right people, exactly once",
  "An open message by a user who may speak is delivered exactly once, under the sender's current nickname, to every other member of the sender's current group who does not hush the sender, in the order sent, to the sender only if echo is on, and to nobody else. Only its unprintable characters are replaced and only what does not fit a packet is cut. A message that is not delivered to anyone is reported to the sender, and in group 1 a sender of too many messages in one second is moved out instead.",
  [H, I], "all histories of joins, departures, renames, hushes and messages, and all message texts",
  "The recipient set is a function of the whole history; tests sample a few two-client situations.",
  ["server/s_group.c", "server/send.c", "server/msgs.c"],
  [("fan-out", "msgs.c: openmsg / s_group.c: s_send_group"), ("packet", "send.c: sendopen")])
p("C04", "A private message reaches its addressee or the sender is told",
  "A private message goes to exactly the user whose nickname it names (in any letter case) and to nobody else, once and unaltered except for unprintable characters and length. If there is no such user, or the addressee hushes the sender, the sender is told so and the addressee sees nothing. With verbose echo the sender gets a copy, and an away addressee's message is returned to the sender (not more than once in ten seconds per sender).",
  [H, I], "all histories of renames, hushes, away settings, departures and messages",
  "Tests send a few messages between fixed users; renaming, slot reuse and hush lists make the addressee history-dependent.",
  ["server/s_person.c", "server/send.c", "server/lookup.c"],
  [("delivery", "s_person.c: s_personal"), ("hush and bounce", "send.c: sendperson")])
p("C05", "A group exists exactly while somebody is in it",
  "Every logged-in user is in exactly one group, every group but the server's own has at least one member, and group names are unique up to letter case and at most 8 printable characters. Joining a name nobody uses creates a fresh group with default settings (hidden if so asked) moderated by its creator unless the name is a special public one; when the last member leaves, the group with all its settings, invitations and topic is gone. Joins and departures are announced to the other members unless the group is quiet.",
  [H], "all sequences of joins, renames of groups, boots, idle moves and disconnections",
  "Stale or leaked group state needs the last member to leave by one of many routes and the name or slot to be used again.",
  ["server/s_group.c", "server/groups.c", "server/ipcf.c", "server/access.c"],
  [("join", "s_group.c: s_change"), ("teardown", "groups.c: clear_group_item; ipcf.c: s_lost_user")])
p("C06", "Restricted and full groups admit only those they should",
  "Nobody enters an existing restricted group, by joining or at login, unless invited by nickname or by address (registered-only invitations counting only for registered users), its moderator, or the administrator. A group with a size limit never admits a member beyond the limit other than its moderator. An invitation lasts while the group exists, until it is cancelled or its holder is booted.",
  [H, I], "all histories of invitations, cancellations, mode changes, boots, renames and join attempts",
  "Admission depends on four lists, the registration state and the group's mode as they evolved.",
  ["server/s_group.c", "server/groups.c", "server/namelist.c", "server/access.c"],
  [("admission", "s_group.c: s_change"), ("invitations", "s_group.c: s_invite, s_cancel, s_boot")])
p("C07", "Only the moderator changes a group",
  "The topic, mode, visibility, volume, size limit, idle limits, name, invitations, talk permissions and moderatorship of a group that has a moderator, and who is thrown out of it, can be changed only by that moderator (or, where the commands say so, the administrator); anybody else is refused with a message and nothing changes. Where nobody moderates, the members may. The special public groups keep their settings.",
  [H, I], "all histories of settings changes attempted by moderators, members, outsiders, former moderators and the administrator",
  "Authority moves with passing, timeouts, renames and departures; tests try one moderator and one outsider.",
  ["server/s_group.c", "server/groups.c"], [("guards", "s_group.c: s_status, s_topic, s_boot, s_pass, s_invite, s_cancel, s_talk")])
p("C08", "Moderatorship passes to the right person",
  "A group never has a moderator who is not connected. When a registered moderator leaves the server the place is kept for 300 seconds and returned if that user comes back recognised in that time, and afterwards goes to the least idle member who is not away; when an unregistered one leaves it goes at once to the least idle member. A moderator idle beyond the group's limit loses the place to a less idle member, and otherwise it changes hands only when passed, and each change is announced.",
  [H, S], "all histories of departures, returns, idling, away settings, passing and boots and all timings",
  "Needs minutes of idling, precise times and several users; the tests cannot control the clock.",
  ["server/ipcf.c", "server/s_group.c", "server/access.c", "server/groups.c"],
  [("loss", "ipcf.c: s_lost_user"), ("timeouts", "ipcf.c: s_didpoll"), ("return", "access.c: regaining a group"), ("passing", "s_group.c: s_pass")])
p("C09", "Hidden groups stay hidden from outsiders",
  "Listings and look-ups by somebody who is neither a member of nor invited to a group show a secret group only without its name and an invisible group not at all, while visible groups and the user's own group are always listed. A user in an invisible group cannot be found, followed or noticed through the group, except by those allowed in. No command or announcement reveals the name of a hidden group to an outsider.",
  [H, I], "all combinations of visibility, membership, invitations, registration and listing options",
  "Visibility, list kinds and options multiply; tests list one or two groups.",
  ["server/s_who.c", "server/s_group.c", "server/s_info.c"], [("listing", "s_who.c: s_who"), ("joining by user", "s_group.c: s_change"), ("notification", "access.c and ipcf.c")])
p("C10", "Quiet and controlled groups silence those who may not talk",
  "In a quiet group no open message is delivered to anybody. In a controlled group an open message, whether to everybody or to everybody but one, is delivered only if its sender is the moderator or has been given permission to talk by current nickname (registered-only permission counting only while registered); anybody else is told to ask. Permissions granted and withdrawn take effect for the very next message.",
  [H, I], "all histories of mode changes, permissions, renames, registrations and messages",
  "Permission is a function of mode, two lists, registration and moderatorship as they evolved.",
  ["server/s_group.c", "server/msgs.c"], [("talk check", "msgs.c: openmsg; s_group.c: s_exclude"), ("permissions", "s_group.c: s_talk")])
p("C11", "Hushed people are not heard",
  "While a user's hush list matches a sender's nickname or address, that sender's open or private messages (as the entry says) are never delivered to that user, and messages of senders it does not match always are. An entry is added by naming it and removed by naming it again, at most 32 are kept of each kind, and nobody's list is changed by anyone else or survives the session. A hushed private message is bounced to its sender.",
  [H, I], "all lists of nicknames and address patterns, all senders and all message kinds",
  "Pattern lists against names and addresses, toggling, and each message path form an unbounded product.",
  ["server/s_user.c", "server/send.c", "server/namelist.c", "server/wildmat.c"], [("lists", "s_user.c: s_hush"), ("filter", "send.c")])
p("C12", "Notification follows exactly the watched users",
  "Whenever somebody signs on or off whose nickname or address matches an entry of a user's notify list, that user is told exactly once, unless the person is in an invisible group; nobody else is told. Lists hold at most 40 entries of each kind, change only by their owner's command, and end with the session.",
  [H, I], "all notify lists and all ways of signing on and off",
  "Ways of leaving (quit, reset, drop, shutdown of a half-open connection) times lists times visibility.",
  ["server/s_user.c", "server/access.c", "server/ipcf.c", "server/namelist.c"], [("list", "s_user.c: s_notify"), ("sign-on", "msgs.c"), ("sign-off", "ipcf.c: s_lost_user")])
p("C13", "A registered nickname belongs to whoever knows its password",
  "A user counts as registered exactly while using a nickname whose password the user gave, or, unless the owner has forbidden it, one registered from the very address the user comes from. A registration is created only for an unregistered name by the user bearing it, and changed or deleted only with its current password; wrong passwords change nothing. What the owner stores about a name is shown to those who ask as it was stored.",
  [H, I], "all histories of registering, identifying, renaming, securing, changing and deleting by rightful and other users",
  "The recognised state depends on names, addresses, security settings and passwords over many sessions.",
  ["server/access.c", "server/s_auto.c", "server/icbdb.c", "server/s_user.c"], [("recognition", "access.c: nickchk"), ("registration", "access.c: nickwrite, nickchpass, nickdelete"), ("commands", "s_auto.c")])
p("C14", "Stored messages are kept until their owner reads them",
  "A message left for a registered user is accepted only from a registered one, is kept (at most 20 per user; beyond that the writer is told and nothing is lost), and is announced to the owner. Reading, which only the recognised owner can do, delivers each stored message exactly once, in the order written, with writer, time and text, and then removes them. Nothing else but deleting the registration removes a stored message.",
  [H, I], "all histories of writing, reading, full boxes, renames, deletions and restarts",
  "Needs full boxes, several writers and interleaved sessions.",
  ["server/access.c", "server/s_auto.c", "server/icbdb.c"], [("write", "access.c: nickwritemsg"), ("read", "access.c: nickreadmsg"), ("announcement", "access.c: nickckmsg")])
p("C16", "What was registered survives stopping and restarting the server",
  "After the server process ends at any moment, between commands or at any point of carrying one out, and is started again on the same files, every registration, its data, its security setting and every unread stored message is exactly as last confirmed to a client; the command being carried out has taken effect on them as a whole or not at all. A write to the database's file that fails (a full disk) damages nothing in it, and is made good the next time the database is used. Sessions, groups, moderators and lists do not survive, and users are recognised after the restart exactly as before.",
  [H, CP], "all histories of registration commands with the server killed and restarted after any of them or at any file operation of one",
  "The tests never restart a server on an existing database.",
  ["server/icbdb.c", "server/icb_dbm.c", "server/access.c", "server/main.c"], [("write-through", "icbdb.c: icbdb_set / sync"), ("start-up", "main.c")])
p("C17", "Packets mean the same however the bytes arrive",
  "The effect of a byte stream from a client depends only on the bytes, never on how they are cut into segments or how many packets arrive together: every complete packet is handled once, in order, and an incomplete one waits for its rest. A packet is handled as its length byte says; bytes after an embedded terminator are ignored, a zero-length or oversized length byte ends that connection, and other connections are not affected by any of it.",
  [I, S], "all byte streams, all segmentations and all interleavings with other clients",
  "Tests write whole packets; the cut points and pipelining orders are unbounded.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "pktserv/pktbuffers.c", "server/ipcf.c", "server/dispatch.c"], [("reassembly", "pktserv.c: pollfd_state_machine; pktsocket.c"), ("splitting into fields", "dispatch.c, icbutil.c: split")])
p("C18", "Everything the server sends is a well-formed, sanitised packet",
  "Every packet any client receives has a length byte that fits its content, a known type, exactly one terminator and at most 255 bytes, and contains no ASCII control characters other than field separators, whatever names, topics or texts users supplied. Text too long for a packet is cut without corrupting the packet or overrunning into another one.",
  [I, H], "all user-supplied texts, names, groups, topics, messages and formats in all commands",
  "Lengths and bytes of every field in every message kind.",
  ["server/send.c", "server/strutil.c", "server/utf8.c", "pktserv/pktbuffers.c"], [("packet building", "send.c"), ("filtering", "strutil.c: filter functions")])
p("C19", "Sessions are isolated: nothing of one outlives it",
  "A new connection starts with no name, group, away message, lists, permissions or history of whoever used its place before, and nothing other users kept about the departed user (last private sender, pending ping, away notices, moderatorship) is applied to the newcomer. Disconnecting, in whatever way, removes a user from every listing and group at once and tells the members of the group.",
  [H], "all histories of connections reusing places, with any state left behind",
  "Leaks show only when a place is reused after a particular kind of state was left there.",
  ["server/ipcf.c", "server/users.c", "server/send.c", "pktserv/pktserv.c"], [("cleanup", "ipcf.c: s_lost_user"), ("new user", "send.c: s_new_user; users.c: clear_user_item")])
p("C20", "Only the administrator administers",
  "Shutting down, restarting, broadcasting to everybody, resetting statistics and changing logging are done only for a connected user named admin holding the administrator's password; everybody else is refused and nothing happens. A user may disconnect another only as administrator or by giving the password under which that nickname is registered, and exactly that user is disconnected.",
  [H, I], "all users, names, passwords and administrative commands in any order",
  "Tests do not log in as administrator with wrong, missing or case-changed credentials, nor rename in and out of the name.",
  ["server/s_admin.c", "server/access.c", "server/icbutil.c", "server/s_stats.c"], [("authority", "access.c: check_auth"), ("commands", "s_admin.c, s_stats.c")])
p("C21", "Idle users are moved out exactly when the limit passes",
  "A member idle for longer than the group's idle-boot limit is moved to the idle group, told so, and the others are told (unless quiet), and any moderatorship the member held is passed on; nobody is moved before the limit or where the limit is switched off. A message or command ends the sender's idle time; keep-alives and ping answers do not. Limits stay within what the server permits.",
  [H, S], "all limits, all activity patterns and all times",
  "The tests cannot let an hour pass.",
  ["server/ipcf.c", "server/s_group.c"], [("periodic check", "ipcf.c: s_didpoll"), ("limits", "s_group.c: s_status")])
p("C22", "Away, beep and ping do what they say to whom they say",
  "A beep reaches exactly its addressee, or, if the addressee refuses beeps, only the sender is told (and the addressee, if asked for); beeping the server beeps the sender back. A ping is answered to the one who asked with the time it took, and an unasked answer is ignored. An away message is returned to private senders at most once per ten seconds and sender until it is cleared, and its owner is reminded when talking.",
  [H, S], "all histories of the commands between any users, with any timing",
  "Pending pings, reminders and per-sender limits are state over time.",
  ["server/s_beep.c", "server/s_user.c", "server/s_person.c", "server/msgs.c", "server/send.c"], [("beep", "send.c: sendbeep"), ("ping", "s_user.c: s_ping; msgs.c: pong"), ("away", "s_user.c: s_away; s_person.c")])
p("C24", "No input makes the server crash, corrupt memory or stop answering",
  "Whatever bytes any clients send, in whatever order and state, and however they disconnect, the server neither terminates nor touches memory it should not nor stops serving the other clients. Numeric and textual arguments of any size are accepted or refused without overflow.",
  [I, H], "all byte sequences from all clients in all states",
  "Fuzz-like inputs in deep states; tests run unsanitised happy paths.",
  ["server", "pktserv"], [("bounds", "everywhere; split, getword, filter functions, name lists")],
  note="Executions of the real server built with address and undefined-behaviour sanitizers, driven by behaviours of the specification with odd inputs; the specification says the server never terminates except by a scheduled shutdown. Exploration, not proof.")
p("C25", "Reports are true",
  "Listings of groups and users, look-ups of a user, group status, topic, statistics, news and message of the day show exactly the current state: every visible user once, in the right group, with nickname, idle time, sign-on time, address and flags as they are, and totals that add up. News and the message of the day are shown as the files hold them, and no other file can be shown.",
  [H, I, CF], "all states of users and groups, all options, all times and file contents",
  "Tests check fragments of one listing.",
  ["server/s_who.c", "server/s_info.c", "server/s_stats.c", "server/s_news.c", "server/s_motd.c", "server/access.c"], [("listing", "s_who.c"), ("look-up", "s_info.c"), ("files", "s_news.c, s_motd.c")])
p("C26", "Name lists are exact, bounded and never lose the wrong entry",
  "Hush, notify, invitation and talk lists contain exactly the names and patterns added and not since removed, compared without regard to letter case, never twice, and never more than their limit: adding to a full list is either refused or drops only the oldest entry, as that list does. Removing an entry removes that entry only, and listing shows them all.",
  [H, I], "all sequences of additions, removals and queries of all sizes up to and past the limits",
  "Limits are 32 to 50 entries; no test fills a list.",
  ["server/namelist.c", "server/strlist.c", "server/s_user.c", "server/s_group.c"], [("list", "namelist.c, strlist.c")])
p("C30", "A scheduled shutdown happens on time, announced",
  "When the administrator schedules a shutdown everybody is told at once, again five minutes before (if scheduled further ahead) and one minute before, each exactly once, and the server exits when the time comes and not before. Without a schedule it never exits; a new schedule replaces the old one, and anybody asking is told the time that is left.",
  [H, S], "all schedules, rescheduling and timings",
  "The tests cannot let minutes pass.",
  ["server/s_admin.c", "server/ipcf.c", "server/s_shuttime.c"], [("schedule", "s_admin.c: s_shutdown"), ("notices", "ipcf.c: s_didpoll")])

exec(open(os.path.join(VERIF, "tools", "catalog_more.py")).read()) if os.path.exists(os.path.join(VERIF, "tools", "catalog_more.py")) else None
T.sort(key=lambda x: x["id"])
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for t in T:
        f.write(json.dumps({"id": t["id"], "title": t["title"], "statement": t["statement"],
                            "quantifier": {"over": t["over"], "text": t["qtext"]}, "why_tests_cant": t["why"],
                            "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": t["id"], "quick_cmd": "python3 check.py %s quick" % t["id"], "thorough_cmd": "python3 check.py %s thorough" % t["id"],
                 "technique": t["technique"], "level": t["level"], "level_note": t["note"]} for t in T],
     "not_applicable": [],
     "notes": "No hooks in /repo: the checks build the unmodified sources with sanitizers and link a virtual clock (harness/vtime.c)."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
