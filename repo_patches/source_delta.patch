From b1e577d37573237971173585ab99e4f754c630f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:39 +0000
Subject: [PATCH 01/53] fix: never let packet fields refer to freed or foreign
 packets

fields[] kept pointing into the previous (freed) packet, so one-argument
commands, short logins and the faked group changes read or wrote freed memory
and could act on another user's text.
---
 server/ipcf.c    |  6 ++++++
 server/strutil.c | 18 ++++++++++++++++++
 server/strutil.h |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/server/ipcf.c b/server/ipcf.c
index 5c475c6..7ac3e51 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -474,7 +474,13 @@ int s_lost_user(int n)         /* n = fd of that user */
 
 void s_packet(int x, char *pkt)
 {
+    /* nothing of an earlier packet is a field of this one */
+    clear_fields();
+
     /* go figure out what kind of packet */
     dispatch(x, ++pkt);    
+
+    /* and the packet is freed once we return */
+    clear_fields();
 }
 
diff --git a/server/strutil.c b/server/strutil.c
index a0083fd..2b53599 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -249,11 +249,29 @@ char *get_tail(char *s)
 
 char *fields[MAX_FIELDS];
 
+/* what an absent field looks like: an empty string. it is as large as a
+ * packet because some callers write a faked argument into fields[1].
+ */
+static char nofield[MAX_PKT_LEN];
+
+/* make every field refer to an empty string, so that nothing can reach
+ * back into an earlier (possibly freed) packet through it.
+ */
+void clear_fields(void)
+{
+    int i;
+
+    nofield[0] = '\0';
+    for (i = 0; i < MAX_FIELDS; i++)
+        fields[i] = nofield;
+}
+
 int split(char *s)
 {
     char *p = s;
     int i = 0;
 
+    clear_fields();
     fields[i] = s;
     for(;;) {
 
diff --git a/server/strutil.h b/server/strutil.h
index 5cf4ef7..9e8961c 100644
--- a/server/strutil.h
+++ b/server/strutil.h
@@ -36,3 +36,7 @@ char *get_tail(char *s);
 /* an array of strings, and return the number of fields found. */
 
 int split(char *s);
+
+/* Forget the fields found by split(): they all become empty strings. */
+
+void clear_fields(void);
-- 
2.43.0


From f9f5e0fd7776133804672a64469a53c2420f5e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:39 +0000
Subject: [PATCH 02/53] fix: split() must not write past the fields[] array

---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index 2b53599..0dce6b1 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -286,7 +286,7 @@ int split(char *s)
          * is all cleaned up, we just stop at the MAX_FIELDS
          * which is only slightly better.
          */
-        if ( i > MAX_FIELDS )
+        if ( i >= MAX_FIELDS )
             return (MAX_FIELDS);
 
         /* find delim or EOS */
-- 
2.43.0


From d47fbac11a4b65b6a06a5bcd19524bca64504dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:39 +0000
Subject: [PATCH 03/53] fix: leave room for the terminator in getword()

---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index 0dce6b1..f7bb221 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -224,7 +224,7 @@ char *getword(char *s)
 {
     static char word[64];
     char *w = word;
-    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < 64))
+    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < 63))
         *w++ = *s++;
     *w = '\0';
     return(word);
-- 
2.43.0


From 855b81a62a5633a3ebb9e815e58ea2a8f930c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:15 +0000
Subject: [PATCH 04/53] fix: terminate filtered text in outgoing packets

A message that filled its buffer was not terminated, so the bytes that happened
to follow it in memory were sent to the recipients.
---
 server/send.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/server/send.c b/server/send.c
index ab12279..c85c115 100644
--- a/server/send.c
+++ b/server/send.c
@@ -29,11 +29,20 @@ extern char * getremotename(int socketfd);
 char packetbuffer[MAX_PKT_LEN]; /* packet buffer */
 
 
+/* filter text into a buffer of the given size. filtertext() fills up to the
+ * size it is given without terminating, so keep the last byte for that.
+ */
+static void filterfield(const char *src, char *dest, size_t size)
+{
+    filtertext(src, dest, size - 1);
+    dest[size - 1] = '\0';
+}
+
 /* send an error message to the client */
 void senderror(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA];
-    filtertext(message, msgbuf, MAX_PKT_DATA);
+    filterfield(message, msgbuf, MAX_PKT_DATA);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s",
             ICB_M_ERROR, msgbuf);
     doSend(-1, to);
@@ -46,8 +55,8 @@ void sendperson(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterfield(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
+    filterfield(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
 
     char one[255], two[MAX_NICKLEN+1];
     snprintf(one, 255, "%s@%s", u_tab[from].loginid, u_tab[from].nodeid);
@@ -74,8 +83,8 @@ void sendopen(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterfield(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
+    filterfield(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_OPEN, nickbuf, msgbuf);
@@ -107,8 +116,8 @@ void sendstatus(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filterfield(status, statusbuf, MAX_STATUS_LEN+1);
+    filterfield(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_STATUS, statusbuf, msgbuf);
@@ -120,7 +129,7 @@ void send_cmdend(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-4];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-4);
+    filterfield(message, msgbuf, MAX_PKT_DATA-4);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001\001%s", 
              ICB_M_CMDOUT, "ec", msgbuf);
     doSend(-1, to);
@@ -131,7 +140,7 @@ void sends_cmdout(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-3];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-3);
+    filterfield(message, msgbuf, MAX_PKT_DATA-3);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_CMDOUT, "co", msgbuf);
     doSend(-1, to);
@@ -146,8 +155,8 @@ void send_person_stored(int to, const char* fromNick, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(fromNick, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterfield(fromNick, nickbuf, MAX_NICKLEN+1);
+    filterfield(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_PERSONAL, nickbuf, msgbuf);
@@ -241,8 +250,8 @@ void sendimport(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filterfield(status, statusbuf, MAX_STATUS_LEN+1);
+    filterfield(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_IMPORTANT, statusbuf, msgbuf);
-- 
2.43.0


From de2dfb5cc409fc302e130b22f745f472082b258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:15 +0000
Subject: [PATCH 05/53] fix: filter the login nickname before checking that it
 is free

"al ice" becomes "al_ice", which was compared against nobody, so two users
could hold the same nickname.
---
 server/msgs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 01838e4..c3d0f59 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -380,6 +380,9 @@ int loginmsg(int n, char *pkt)
     {
         /* regular login */
 
+        /* get rid of nasty characters in the nickname */
+        filternickname(fields[1]);
+
         /* make sure the nickname hasn't already been taken */
         if (find_user(fields[1]) >= 0)
         {
@@ -506,9 +509,6 @@ int loginmsg(int n, char *pkt)
             mdb(MSG_ERR, mbuf);
         }
 
-        /* get rid of nasty characters in the nickname */
-        filternickname(fields[1]);
-
         /* fill in what we can */
         fill_user_entry(n, fields[0], cp, fields[1],
                         fields[4], "", "", LOGIN_FALSE, 0, 0, perms);
-- 
2.43.0


From 575a296065ed52b088da6afd21fd10ce804343ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:43 +0000
Subject: [PATCH 06/53] fix: disconnect clients whose login failed

They were marked for killing but the kill loop skipped everybody who was not
logged in, so the connection stayed open and could keep holding a nickname.
---
 server/ipcf.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 7ac3e51..891edd1 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -75,13 +75,12 @@ void s_didpoll(int n)
         }
 
         for(i=0;i<MAX_REAL_USERS;i++) {
-            if ( u_tab[i].login > LOGIN_FALSE ) {
-                if (S_kill[i] > 0) {
-                    sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
-                    mdb(MSG_INFO, mbuf);
-                    server_stats.drops++;
-                    pktserv_disconnect(i);
-                }
+            /* (a failed login gets here without ever being logged in) */
+            if (S_kill[i] > 0) {
+                sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
+                mdb(MSG_INFO, mbuf);
+                server_stats.drops++;
+                pktserv_disconnect(i);
             }
         }
 
-- 
2.43.0


From 2c07eddb0327066f902cb55c660f25d265dd789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 07/53] fix: release moderatorships when a login that regained
 them fails

s_lost_user() returned early for a user without a group, leaving the slot number
as moderator; the next connection in that slot inherited the moderatorship.
---
 server/ipcf.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 891edd1..9364849 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -383,6 +383,7 @@ int s_lost_user(int n)         /* n = fd of that user */
         if ((n != j) && (u_tab[j].login > LOGIN_FALSE)) {
             if ((nlmatch(three, *u_tab[j].n_notifies) ||
                  nlmatch(one, *u_tab[j].s_notifies)) &&
+                (find_group(u_tab[n].group) >= 0) &&
                 (g_tab[find_group(u_tab[n].group)].visibility != 
                  SUPERSECRET)) {
                 /* ignore warning about 'one' being possibly truncated
@@ -406,13 +407,17 @@ int s_lost_user(int n)         /* n = fd of that user */
     /* find out what group they are in */
     /* note: they may be moderator of a group they are NOT in */
 
+    /* (a login that could not enter its group has none, but may already have
+     * regained moderatorship of others)
+     */
     ogi = find_group(t_grp);
-    if (ogi < 0) return -1;
 
     /* check if there are any users left in present group */
     num_left = count_users_in_group(t_grp);
 
-    if ( num_left > 0) {
+    if ( ogi < 0 ) {
+        /* nobody to tell */
+    } else if ( num_left > 0) {
         /* tell remaining group members user left */
         TheTime = time(NULL);
         if (is_killed > 0)
-- 
2.43.0


From 174b9d6de0784f1bc6435fd320f4847a52ba772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:06 +0000
Subject: [PATCH 08/53] fix: close connections that poll() reports as hung up

A reset connection was reported as lost but never closed: the descriptor leaked
and poll() returned immediately for ever after.
---
 pktserv/pktserv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index f4c657d..1ca926c 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -263,12 +263,16 @@ pollfd_state_machine(struct pollfd* pollfd)
          * transitions to WANT_DISCONNECT. Notify upper layers here so login/
          * group bookkeeping (e.g. sign-off messages) still runs.
          */
+        if (cbuf->state == DISCONNECTED)
+            return;     /* already taken care of in this pass */
         if (g_pktserv_cb.lost_client &&
             cbuf->state != LISTEN_SOCKET &&
             cbuf->state != LISTEN_SOCKET_SSL) {
             g_pktserv_cb.lost_client(cbuf->fd);
         }
         handle_disconnect(cbuf);
+        /* poll() would report this forever, so close it right away */
+        handle_raw_disconnect(cbuf);
         return;
     }
 
-- 
2.43.0


From ac6481a08c211be2afdf6ca5a66b0fd2b3be4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:07 +0000
Subject: [PATCH 09/53] fix: keep the read state of a connection when sending
 to it

A packet sent to a client whose own packet had only partly arrived made the
server take the rest of that packet for a new header.
---
 pktserv/pktbuffers.h | 7 +++++++
 pktserv/pktsocket.c  | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktbuffers.h b/pktserv/pktbuffers.h
index 0b6e858..463ab52 100644
--- a/pktserv/pktbuffers.h
+++ b/pktserv/pktbuffers.h
@@ -85,6 +85,13 @@ typedef struct cbuf_st {
 } cbuf_t;
 
 
+/* the state in which to go on reading: a packet whose header has been read has
+ * to be completed before the next header.
+ */
+#define READ_STATE(cbuf) \
+    (((cbuf)->rbuf && (cbuf)->rbuf->pos > (cbuf)->rbuf->data) ? \
+     WANT_READ : WANT_HEADER)
+
 msgbuf_t *_msgbuf_alloc(msgbuf_t *msgbuf, size_t sz);
 void _msgbuf_free(msgbuf_t *msgbuf);
 void cbufs_reset(void);
diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 53be7a1..c09245e 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -370,6 +370,7 @@ int pktsocket_write(cbuf_t* cbuf)
              cbuf->fd, cbuf->wlist_size);
     }
 
-    cbuf->state = WANT_HEADER;
+    /* if we are in the middle of reading a packet, go on with that */
+    cbuf->state = READ_STATE(cbuf);
     return 0;
 }
-- 
2.43.0


From 23a48949ddac4d5b09ba4dffd8ddd5ce1c2070a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:07 +0000
Subject: [PATCH 10/53] fix: do not forget a disconnect requested while
 handling a packet

---
 pktserv/pktserv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 1ca926c..52abdb3 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -344,12 +344,14 @@ pollfd_state_machine(struct pollfd* pollfd)
                             g_pktserv_cb.dispatch(cbuf->fd, cbuf->rbuf->data);
                             _msgbuf_free(cbuf->rbuf);
                             cbuf->rbuf = NULL;
-                            /* ready for the next packet */
-                            cbuf->state = WANT_HEADER;
+                            /* ready for the next packet, unless the
+                             * packet got them disconnected */
+                            if (cbuf->state != WANT_DISCONNECT)
+                                cbuf->state = WANT_HEADER;
                         }
                     }
                 }
-                if (!TAILQ_EMPTY(&(cbuf->wlist))) {
+                if (cbuf->state != WANT_DISCONNECT && !TAILQ_EMPTY(&(cbuf->wlist))) {
                     /* cycle back to want write if there's stuff left */
                     cbuf->state = WANT_WRITE;
                 }
-- 
2.43.0


From 228480a5fab4b552fe8f45fe4fec24bf8e33d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:42 +0000
Subject: [PATCH 11/53] fix: do not spin on a client that does not read what it
 is sent

With output pending, the state machine looped for ever as soon as such a client
sent something, hanging the server for everybody.
---
 pktserv/pktserv.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 52abdb3..ad22bf0 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -311,17 +311,21 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if (readable || writeable)
-                    pktsocket_write(cbuf);
+                if ((readable || writeable) && pktsocket_write(cbuf) < 0)
+                    cbuf->state = WANT_DISCONNECT;
                 return;
 
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
-                if (writeable) {
-                    pktsocket_write(cbuf);
+                if (writeable && pktsocket_write(cbuf) < 0) {
+                    cbuf->state = WANT_DISCONNECT;
+                    break;
                 }
-                if (readable && (cbuf->state == WANT_READ || cbuf->state == WANT_HEADER)) {
-                    /* pktsocket_write() may have set this to BLOCKED */
-                    cbuf->disp = OK;
+                if (cbuf->state == WANT_SSL_WRITE || cbuf->state == WANT_WRITE) {
+                    /* they aren't reading. don't wait for them here, but
+                     * do listen to them */
+                    if (!readable || cbuf->state == WANT_SSL_WRITE)
+                        return;
+                    cbuf->state = READ_STATE(cbuf);
                 }
                 break;
 
-- 
2.43.0


From 5064cfd87367758281a283f4520d64170e6511f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 12/53] fix: read TLS packets split over or sharing records

A packet that arrived in several TLS records was never dispatched (and made the
state machine spin), and further packets in one record waited for the next one.
---
 pktserv/pktserv.c   | 49 ++++++++++++++++++++++++++++++++++++++++++++-
 pktserv/pktsocket.c |  8 +++++---
 2 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index ad22bf0..f9bccaa 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -483,6 +483,49 @@ update_pollfd_events(void)
     }
 }
 
+/*
+ * Data that has been read off the socket but is still inside the SSL layer:
+ * poll() knows nothing about it.
+ */
+static int
+ssl_pending_on(struct pollfd *pollfd)
+{
+#ifdef HAVE_SSL
+    if (pollfd->fd >= 0 && pollfd->fd < MAX_USERS) {
+        cbuf_t *cbuf = &cbufs[pollfd->fd];
+        return cbuf->is_ssl && cbuf->ssl_con && SSL_pending(cbuf->ssl_con) > 0;
+    }
+#endif
+    return 0;
+}
+
+static int
+ssl_data_pending(void)
+{
+    int i;
+
+    for (i = 0; i < g_pollsetsize; i++) {
+        if (ssl_pending_on(&g_pollset[i]))
+            return 1;
+    }
+    return 0;
+}
+
+/* count the connections that are readable only because of such data */
+static int
+mark_ssl_pending(void)
+{
+    int i, marked = 0;
+
+    for (i = 0; i < g_pollsetsize; i++) {
+        if (ssl_pending_on(&g_pollset[i]) && !(g_pollset[i].revents & POLLIN)) {
+            g_pollset[i].revents |= POLLIN;
+            marked++;
+        }
+    }
+    return marked;
+}
+
 /* 
  * The main server loop. Polls the set of file descriptors looking for 
  * activity in the pollfdset. If there is, it gets handed off to 
@@ -511,7 +554,8 @@ pktserv_run(void)
         loopcount++;
 
         update_pollfd_events();
-        ret = poll(g_pollset, g_pollsetsize, poll_timeout); // millisec
+        ret = poll(g_pollset, g_pollsetsize,
+                   ssl_data_pending() ? 0 : poll_timeout); // millisec
         if (ret < 0) {
             if (errno == EINTR)
                 ret = 0;
@@ -519,6 +563,9 @@ pktserv_run(void)
                 vmdb(MSG_ERR, "%s: %s", __FUNCTION__, strerror(errno));
         }
 
+        if (ret >= 0)
+            ret += mark_ssl_pending();
+
         if (ret > 0) {
             handle_pollfds();
         }
diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index c09245e..86f9ebb 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -182,7 +182,8 @@ int pktsocket_read(cbuf_t *cbuf)
 
         if (result == 0) {
             if (cbuf->is_ssl) {
-                /* need a retry - read_ssl will have set the state */
+                /* need a retry when there's more data */
+                cbuf->state = WANT_HEADER;
                 return 0;
             } else {
                 /* EOF (closed connection) */
@@ -235,7 +236,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
     /* did we get an error? */
     if (result < 0) {
-        if (errno == EWOULDBLOCK) {
+        if (errno == EWOULDBLOCK && !cbuf->is_ssl) {
             /* incomplete read - read_ssl() will never return this. */
             cbuf->state = WANT_READ;
             return 0;
@@ -248,7 +249,8 @@ int pktsocket_read(cbuf_t *cbuf)
 
     if (result == 0) {
         if (cbuf->is_ssl) {
-            /* need a retry - read_ssl() will have set the state */
+            /* need a retry when there's more data */
+            cbuf->state = WANT_READ;
             return 0;
         } else {
             /* EOF (closed connection) */
-- 
2.43.0


From 9ec84325a4e0af59d1fb0c9bdda5057527459def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 13/53] fix: write registrations to disk when they change

---
 server/dbm.h     |  5 +++--
 server/icb_dbm.c |  7 +++++++
 server/icbdb.c   | 15 +++++++++++++--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/server/dbm.h b/server/dbm.h
index aaf90c5..0f759e4 100644
--- a/server/dbm.h
+++ b/server/dbm.h
@@ -17,8 +17,8 @@
  *     key[klen]  = key bytes
  *     val[vlen]  = value bytes
  *
- * Mutations are buffered in memory and flushed atomically on dbm_close()
- * (write-to-tmp + rename) so a crash never corrupts the file.
+ * Mutations are buffered in memory and flushed atomically on dbm_sync() and
+ * dbm_close() (write-to-tmp + rename) so a crash never corrupts the file.
  */
 
 #include <stddef.h>
@@ -39,6 +39,7 @@ typedef struct icb_dbm DBM;
 /* ---- public API ---- */
 DBM  *dbm_open(const char *file, int flags, int mode);
 void  dbm_close(DBM *db);
+int   dbm_sync(DBM *db);
 datum dbm_fetch(DBM *db, datum key);
 int   dbm_store(DBM *db, datum key, datum content, int flags);
 int   dbm_delete(DBM *db, datum key);
diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 0bedf2b..7487880 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -11,6 +11,7 @@
  *               internal buffer valid until the next fetch.
  * - dbm_store() updates the in-memory table and marks it dirty.
  * - dbm_delete() removes from memory and marks dirty.
+ * - dbm_sync()  flushes dirty state to disk and keeps the database open.
  * - dbm_close() flushes dirty state to disk (write-to-tmp + rename for
  *               crash safety), then frees all memory.
  *
@@ -347,6 +348,12 @@ void dbm_close(DBM *db)
     free(db);
 }
 
+int dbm_sync(DBM *db)
+{
+    if (!db) return -1;
+    return flush_file(db);
+}
+
 datum dbm_fetch(DBM *db, datum key)
 {
     datum out = { NULL, 0 };
diff --git a/server/icbdb.c b/server/icbdb.c
index 0009b60..bc8d409 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -62,11 +62,22 @@ icbdb_open (void)
 void
 icbdb_close (void)
 {
-    if (--open_count > 0 || !icbdb_multiuser)
+    if (--open_count > 0)
     {
         return;
     }
 
+    open_count = 0;
+
+    if (!icbdb_multiuser)
+    {
+        /* We keep the database open, but what was changed has to outlive
+         * this process. */
+        if (db != NULL && dbm_sync (db) < 0)
+            vmdb (MSG_ERR, "User Database Sync: %s", strerror(errno));
+        return;
+    }
+
     if (db != NULL)
     {
         dbm_close (db);
@@ -75,7 +86,7 @@ icbdb_close (void)
     db = NULL;
 }
 
-#define ICBDB_OPEN()    if (icbdb_open() == 0) return (0)
+#define ICBDB_OPEN()    if (icbdb_open() == 0) { icbdb_close (); return (0); }
 
 #define ICBDB_DONE(r)    icbdb_close (); return (r)
 
-- 
2.43.0


From 2e59b38b87617bef76579bf620bca5d9be0ae9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:15 +0000
Subject: [PATCH 14/53] fix: only the first word of an icbd.deny line is a
 pattern

---
 server/msgs.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index c3d0f59..ee5fef2 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -455,10 +455,18 @@ int loginmsg(int n, char *pkt)
         access_file = open(ACCESS_FILE, O_RDONLY);
         if (access_file >= 0)
         {
-            while ((i = read(access_file, &c, 1)) > 0)
+            do
             {
-                if (isspace(c))
+                /* the end of the file ends a pattern, too */
+                if ((i = read(access_file, &c, 1)) <= 0)
+                    c = '\012';
+
+                if (isspace((unsigned char) c))
                 {
+                    /* skip blank lines and indentation */
+                    if (three[0] == '\0')
+                        continue;
+
                     ucaseit(three);
                     if (wildmat(one, three))
                     {
@@ -466,7 +474,7 @@ int loginmsg(int n, char *pkt)
                         senderror(n, mbuf);
                         mdb(MSG_INFO, mbuf);
                         memset(two, 0, 255);
-                        while ((i = read(access_file, &c, 1)) > 0)
+                        while (c != '\012' && read(access_file, &c, 1) > 0)
                         {
                             size_t len;
                             if (c == '\012') break;
@@ -486,6 +494,10 @@ int loginmsg(int n, char *pkt)
                         return -1;
                     }
                     memset(three, 0, 255);
+
+                    /* the rest of the line is not a pattern but a reason */
+                    while (c != '\012' && (i = read(access_file, &c, 1)) > 0)
+                        continue;
                 }
                 else
                 {
@@ -495,7 +507,7 @@ int loginmsg(int n, char *pkt)
                         three[len + 1] = '\0';
                     }
                 }
-            }
+            } while (i > 0);
 
             if (close(access_file) != 0)
             {
-- 
2.43.0


From f0e8d500f9aa599d45c6d495406c7415fd5c25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:15 +0000
Subject: [PATCH 15/53] fix: a controlled group may have no moderator to ask

---
 server/msgs.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index ee5fef2..3104fac 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -258,10 +258,13 @@ void openmsg(int n, char *pkt)
             {
                 senderror (n,
                            "You do not have permission to send open messages in this group.");
-                sprintf (mbuf,
-                         "Use \"/m %s may i talk?\" to request permission.",
-                         u_tab[g_tab[gi].mod].nickname);
-                sendstatus (n, "INFO", mbuf);
+                /* the moderator may have signed off */
+                if (g_tab[gi].mod >= 0) {
+                    sprintf (mbuf,
+                             "Use \"/m %s may i talk?\" to request permission.",
+                             u_tab[g_tab[gi].mod].nickname);
+                    sendstatus (n, "INFO", mbuf);
+                }
             }
             else if (count_users_in_group(g_tab[gi].name) < 2)
                 senderror(n,
-- 
2.43.0


From 0e30e991ff4d46e40ad9786b8b611cce26329b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:13 +0000
Subject: [PATCH 16/53] fix: do not use talk list entries after deleting them

---
 server/s_group.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 7879d54..40a708a 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -2129,18 +2129,21 @@ fields[1] is nickname of person to invite
                     NAMLIST    *nl;
                     int        count,
                             i;
-                    char    *cp;
+                    char    *cp,
+                            name[MAX_PKT_LEN];
 
+                    /* (talk_delete() frees the entry, so work on a copy) */
                     nl = g_tab[gi].n_talk;
                     count = nlcount(*nl);
                     for ( i = 0; i < count; i++)
                     {
                         cp = nlget (nl);
                         if (cp && *cp) {
-                            if ( talk_delete (cp, gi) > 0
+                            snprintf (name, sizeof(name), "%s", cp);
+                            if ( talk_delete (name, gi) > 0
                                  && quiet == 0 )
                             {
-                                sprintf (mbuf, "%s removed from talk list", cp);
+                                sprintf (mbuf, "%s removed from talk list", name);
                                 sendstatus (n, "FYI", mbuf);
                             }
                         }
@@ -2152,11 +2155,12 @@ fields[1] is nickname of person to invite
                     {
                         cp = nlget (nl);
                         if (cp && *cp) {
-                            if ( talk_delete (cp, gi) > 0
+                            snprintf (name, sizeof(name), "%s", cp);
+                            if ( talk_delete (name, gi) > 0
                                  && quiet == 0 )
                             {
                                 sprintf (mbuf,
-                                         "%s removed from registered talk list", cp);
+                                         "%s removed from registered talk list", name);
                                 sendstatus (n, "FYI", mbuf);
                             }
                         }
-- 
2.43.0


From c9d8fd95f12950e4c75497789e6efc40de95368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:02 +0000
Subject: [PATCH 17/53] fix: /exclude needs talk permission in a controlled
 group

---
 server/s_group.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index 40a708a..d8fbb2a 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1864,6 +1864,15 @@ int s_exclude(int n, int argc)
                 senderror (n, "Open messages not permitted in quiet groups.");
                 return 0;
             }
+            /* the same people as for any other open message may talk */
+            if (gi != -1 && g_tab[gi].control == CONTROLLED
+                && g_tab[gi].mod != n
+                && nlpresent(u_tab[n].nickname, *g_tab[gi].n_talk) == 0
+                && (strlen(u_tab[n].realname) == 0
+                    || nlpresent(u_tab[n].nickname, *g_tab[gi].nr_talk) == 0)) {
+                senderror (n, "You do not have permission to send open messages in this group.");
+                return 0;
+            }
 
             strcpy(my_group, u_tab[n].group);
             sprintf(one, "%s@%s", u_tab[n].loginid, u_tab[n].nodeid);
-- 
2.43.0


From 957b1d95887a9b48a5f14be28fc01b845b4b4b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:02 +0000
Subject: [PATCH 18/53] fix: make room for the longest idle-boot message

---
 server/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.h b/server/server.h
index 21b89bd..6d62714 100644
--- a/server/server.h
+++ b/server/server.h
@@ -99,7 +99,7 @@ typedef struct {
     int	size;		/* how many people are allowed */
     int	idleboot;	/* how idle people can be before booted */
 #define	IDLEBOOT_MSG_LEN	(79-15-MAX_NICKLEN+2)
-    char	idleboot_msg[IDLEBOOT_MSG_LEN];
+    char	idleboot_msg[IDLEBOOT_MSG_LEN+1];
     /* max length of the message so it'll fit on
      * one line. 79=line length,
      * 15=strlen([=Idle-Boot=] )
-- 
2.43.0


From ffc10d0cfb06af55e26b580412288dfb06bcfb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:02 +0000
Subject: [PATCH 19/53] fix: no overflow in the idle-boot and idle-mod limits

---
 server/s_group.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index d8fbb2a..b0e8fa4 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -10,6 +10,7 @@
 #endif
 #include <stdlib.h>
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 
 #include "server.h"
@@ -1488,7 +1489,13 @@ visible.
                                 }
                                 else
                                 {
-                                    int new_ib = atoi (p2) * 60;
+                                    int new_ib = atoi (p2);
+
+                                    /* (what is too large to count in seconds
+                                     * is refused like a negative number)
+                                     */
+                                    new_ib = (new_ib > INT_MAX / 60 || new_ib < 0)
+                                             ? -1 : new_ib * 60;
 
 #ifdef MAX_IDLE
                                     if ( new_ib < 0 || new_ib > MAX_IDLE )
@@ -1602,7 +1609,11 @@ visible.
                                 }
                                 else
                                 {
-                                    int new_im = atoi (p2) * 60;
+                                    int new_im = atoi (p2);
+
+                                    /* (too large or negative: refused below) */
+                                    new_im = (new_im > INT_MAX / 60 || new_im < 0)
+                                             ? -1 : new_im * 60;
 
                                     if ( new_im == 0 )
                                     {
-- 
2.43.0


From 42d5002cd0180d13f203022a53978c58ce00507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:02 +0000
Subject: [PATCH 20/53] fix: a user found by @name need not be in a group

---
 server/msgs.c    | 7 ++++---
 server/s_group.c | 3 ++-
 server/s_who.c   | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 3104fac..781954b 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -558,9 +558,10 @@ int loginmsg(int n, char *pkt)
             {
                 int    g = find_group(u_tab[target_user].group);
 
-                if ( ((g_tab[g].visibility == SUPERSECRET)
-                      || (g_tab[g].visibility == SECRET))
-                     && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)))
+                if ( g < 0
+                     || ( ((g_tab[g].visibility == SUPERSECRET)
+                           || (g_tab[g].visibility == SECRET))
+                          && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN))))
                 {
                     senderror (n,
                                "User not found or is in a secret or invisible group.");
diff --git a/server/s_group.c b/server/s_group.c
index b0e8fa4..e7c0e6f 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -221,7 +221,8 @@ if failure, message given and return is -1
                 senderror(n, "User not found.");
                 return(-1);
             }
-            else if (g_tab[find_group(u_tab[target_user].group)].visibility != VISIBLE)
+            else if (find_group(u_tab[target_user].group) < 0
+                     || g_tab[find_group(u_tab[target_user].group)].visibility != VISIBLE)
             {
                 senderror(n, "User not found.");
                 return(-1);
diff --git a/server/s_who.c b/server/s_who.c
index 3ae839a..eae3394 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -404,7 +404,8 @@ int s_who(int n, int argc)
         } else {
             /* on some particular group */
             if (fields[1][0] == '@') {
-                if ((target_user = find_user(&fields[1][1])) < 0) {
+                if ((target_user = find_user(&fields[1][1])) < 0
+                    || find_group(u_tab[target_user].group) < 0) {
                     senderror(n, "User not found.");
                     return -1;
                 } else {
-- 
2.43.0


From 786f3587862fd65a0b6c79fa77bc749820da968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:30 +0000
Subject: [PATCH 21/53] fix: do not read past an unterminated character class

---
 server/wildmat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/wildmat.c b/server/wildmat.c
index 99367b0..a18f060 100644
--- a/server/wildmat.c
+++ b/server/wildmat.c
@@ -98,10 +98,10 @@ DoMatch(char *text, char *p)
                         matched = TRUE;
                 for (last = *p; *++p && *p != ']'; last = *p)
                     /* This next line requires a good C compiler. */
-                    if (*p == '-' && p[1] != ']'
+                    if (*p == '-' && p[1] != ']' && p[1] != '\0'
                         ? *text <= *++p && *text >= last : *text == *p)
                         matched = TRUE;
-                if (matched == reverse)
+                if (*p == '\0' || matched == reverse)
                     return FALSE;
                 continue;
         }
-- 
2.43.0


From ec6a3bb1fafa2c96299e5cc42e4e77ada035de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:30 +0000
Subject: [PATCH 22/53] fix: close the motd file only once

---
 server/s_motd.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/server/s_motd.c b/server/s_motd.c
index d3fecd5..a2b8385 100644
--- a/server/s_motd.c
+++ b/server/s_motd.c
@@ -37,10 +37,8 @@ int s_motd(int n, int argc)
             {
                 i = read(motd_fd, &c, 1);
                 if (i <= 0) {
-                    if (close(motd_fd) != 0) {
-                        sprintf(mbuf, "MOTD File Close: %s", strerror(errno));
-                        mdb(MSG_ERR, mbuf);
-                    }
+                    /* nothing follows the % */
+                    break;
                 }
                 else if (c == 'U') {
                     char    *value;
-- 
2.43.0


From aa6a4fce67dac9df12c9363ba36cb4536a7768a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:30 +0000
Subject: [PATCH 23/53] fix: a news entry is neither a path nor longer than its
 buffer

---
 server/s_news.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/s_news.c b/server/s_news.c
index 5cf0af6..ed1394c 100644
--- a/server/s_news.c
+++ b/server/s_news.c
@@ -62,8 +62,13 @@ int s_news(int n, int argc)
         if (first == 0)
             sendstatus(n, "News", "No news.");
     } else {
-        sprintf(fname, "news.%s", fields[1]);
-        if ((news_fd = open(fname, O_RDONLY)) >= 0) {
+        /* the entry is part of a file name, not a path */
+        if (strlen(fields[1]) < sizeof(fname) - strlen("news.")
+            && strchr(fields[1], '/') == NULL)
+            sprintf(fname, "news.%s", fields[1]);
+        else
+            fname[0] = '\0';
+        if (fname[0] != '\0' && (news_fd = open(fname, O_RDONLY)) >= 0) {
             sends_cmdout(n, "--------------------------------------");
             memset(tbuf, 0, 255);
             while ((j = read(news_fd, &c, 1)) > 0) {
-- 
2.43.0


From 5661f6a00d898b54b2fffc4139c63fd4dc5efc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:30 +0000
Subject: [PATCH 24/53] fix: do not use an away message as a format string

---
 server/s_person.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_person.c b/server/s_person.c
index d7f03e3..b89b455 100644
--- a/server/s_person.c
+++ b/server/s_person.c
@@ -122,8 +122,8 @@ void away_handle (int src, int dest)
                          t->tm_hour > 11 ? "pm" : "am",
                          u_tab[dest].awaymsg);
 
-                snprintf(mbuf, MAX_PKT_DATA, tbuf, u_tab[dest].nickname);
-                sends_cmdout(dest, mbuf);
+                /* (what was sent; not a format for us to fill in) */
+                sends_cmdout(dest, tbuf);
             }
         }
     }
-- 
2.43.0


From 1c90db7914803399783b261974f64cf622356c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:30 +0000
Subject: [PATCH 25/53] fix: make room for every /who status flag

---
 server/s_who.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_who.c b/server/s_who.c
index eae3394..436306e 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -77,7 +77,7 @@ void pgm_long(int n, int which)
     int gpmod;
     int num_users;
     char cp[5];
-    char status[8];
+    char status[sizeof("(nr,aw,ssl)")];
     int nr = 0, aw = 0, sec=0;
     int user_list[MAX_REAL_USERS];
     int i, j;
-- 
2.43.0


From 605026eff5d5e130d4b7de546ddec488b79867d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:30 +0000
Subject: [PATCH 26/53] fix: keep the /who lists inside their arrays

---
 server/s_who.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 436306e..1464fb8 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -79,7 +79,7 @@ void pgm_long(int n, int which)
     char cp[5];
     char status[sizeof("(nr,aw,ssl)")];
     int nr = 0, aw = 0, sec=0;
-    int user_list[MAX_REAL_USERS];
+    int user_list[MAX_USERS];
     int i, j;
     int users = 0;
 
@@ -104,7 +104,7 @@ void pgm_long(int n, int which)
                            u_tab[user_list[i]].t_group)
 #endif
                         i++;
-                for (j = (users + 1); j > i; j--)
+                for (j = users; j > i; j--)
                     user_list[j] = user_list[j - 1];
                 user_list[i] = user;
             }
@@ -312,7 +312,7 @@ void doAll(int n, int flags)
                 while ((i < groups) && (strcasecmp(g_tab[group].name,
                                                    g_tab[group_list[i]].name) > 0))
                     i++;
-                for (j = (groups + 1); j > i; j--)
+                for (j = groups; j > i; j--)
                     group_list[j] = group_list[j - 1];
                 group_list[i] = group;
             }
-- 
2.43.0


From f4b6d83a15293c08f29fd1bc634890c569e7aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:30 +0000
Subject: [PATCH 27/53] fix: /who shows groups to registered users invited by
 site

---
 server/s_who.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 1464fb8..cbd58e4 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -229,7 +229,7 @@ void print_group_header(int n, int grp)
                               *g_tab[grp].nr_invites)) && 
                    (strlen(u_tab[n].realname) > 0)) ||
                   (nlmatch(one, *g_tab[grp].s_invites)) ||
-                  ((nlmatch(one, *g_tab[grp].s_invites)) &&
+                  ((nlmatch(one, *g_tab[grp].sr_invites)) &&
                    (strlen(u_tab[n].realname) > 0)) ||
                   (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
     if ((g_tab[grp].visibility == SECRET) ||
@@ -299,7 +299,7 @@ void doAll(int n, int flags)
                                   *g_tab[group].nr_invites)) && 
                        (strlen(u_tab[n].realname) > 0)) ||
                       (nlmatch(one, *g_tab[group].s_invites)) ||
-                      ((nlmatch(one, *g_tab[group].s_invites)) &&
+                      ((nlmatch(one, *g_tab[group].sr_invites)) &&
                        (strlen(u_tab[n].realname) > 0)) ||
                       (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
         if( (strlen(g_tab[group].name)!=0) &&
-- 
2.43.0


From 6ab96e98f70b389761be5cce63229232f24448df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:30 +0000
Subject: [PATCH 28/53] fix: a group cannot become the idle or boot group by
 renaming

---
 server/s_group.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index e7c0e6f..2d27f3d 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1062,6 +1062,12 @@ int set_name(int n, int group, char *name)
         return -1;
     }
 
+    /* the rest of the server relies on what these look like, too */
+    if (!strcasecmp(n_g_n, IDLE_GROUP) || !strcasecmp(n_g_n, BOOT_GROUP)) {
+        senderror (n, "Cannot change name to that group.");
+        return -1;
+    }
+
     /* make sure that group doesn't already exist */
     if ((find_group(n_g_n) >= 0) && (find_group(n_g_n) != group)) {
         senderror(n, "That group already exists.");
-- 
2.43.0


From c111a336492fdecf017551b5b18cca8ebd738ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:43 +0000
Subject: [PATCH 29/53] fix: a new user does not inherit the slot's spam and
 away history

---
 server/externs.h | 1 +
 server/users.c   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/server/externs.h b/server/externs.h
index 4146e1d..bba738a 100644
--- a/server/externs.h
+++ b/server/externs.h
@@ -48,6 +48,7 @@ extern short S_kill[MAX_USERS];
 
 extern int lpriv_id[MAX_USERS];
 extern int pong_req[MAX_USERS];
+extern int u_recv_count[MAX_USERS];	/* open messages in a second (msgs.c) */
 extern struct timeval ping_time[MAX_USERS];
 
 /* flags set in .gorc */
diff --git a/server/users.c b/server/users.c
index 1c5569a..9bb0afb 100644
--- a/server/users.c
+++ b/server/users.c
@@ -53,17 +53,22 @@ void clear_user_item(int n)
     S_kill[n] = 0;
     lpriv_id[n] = -1;
     pong_req[n] = -1;
+    u_recv_count[n] = 0;
     timerclear (&ping_time[n]);
 
     /* clear out anyone that has this slot:
      *   a) listed as their last priv msg
      *   b) as a pending pong request
+     *   c) as the last person they sent their away message to
      */
     for ( i = 0; i < MAX_USERS; i++ )
     {
         if ( lpriv_id[i] == n )
             lpriv_id[i] = -1;
 
+        if ( u_tab[i].lastaway == n )
+            u_tab[i].lastaway = 0;
+
         if ( pong_req[i] == n )
         {
             pong_req[i] = -1;
-- 
2.43.0


From f6bc0c43494cc1719c6d120d22e9c829b14ee71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:06 +0000
Subject: [PATCH 30/53] fix: terminate the nickname shown by whois

---
 server/access.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index db81a41..fc3abe0 100644
--- a/server/access.c
+++ b/server/access.c
@@ -546,7 +546,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
 {
     char           line[255];
     char           temp[255];
-    char           nickstr[MAX_NICKLEN+1];
+    char           nickstr[MAX_NICKLEN+1] = "";
     char           *value;
     int            retval;
     int            count = 0;
-- 
2.43.0


From f51fb599c2ae95ea4530bc292864691598bc9fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:06 +0000
Subject: [PATCH 31/53] fix: do not repeat the last line of a whois text

---
 server/access.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/access.c b/server/access.c
index fc3abe0..f99dade 100644
--- a/server/access.c
+++ b/server/access.c
@@ -722,10 +722,11 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
                 }
 
                 if (count > 0)
+                {
                     strcpy(temp, "Text: ");
-
-                strcat(temp, s);
-                sends_cmdout(forWhom, temp);
+                    strcat(temp, s);
+                    sends_cmdout(forWhom, temp);
+                }
             }
         }
         else
-- 
2.43.0


From 507c71223749f6ac8c7a6448bf470b8b1f80a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:53 +0000
Subject: [PATCH 32/53] fix: a connection never takes the server's own user
 slot

---
 server/send.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/send.c b/server/send.c
index c85c115..7ad25d5 100644
--- a/server/send.c
+++ b/server/send.c
@@ -199,9 +199,10 @@ void s_new_user(int n, int secure)
 {
     char *cp;
 
-    /* Check bounds: file descriptor must be < MAX_USERS to use as array index */
-    if (n < 0 || n >= MAX_USERS) {
-        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_USERS - 1);
+    /* Check bounds: the file descriptor is used as index of the user table,
+     * whose last entry is the server's own (NICKSERV) */
+    if (n < 0 || n >= MAX_REAL_USERS) {
+        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_REAL_USERS - 1);
         pktserv_disconnect(n);
         return;
     }
-- 
2.43.0


From 3c352560973885e86145f28772b61a870c09715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:50 +0000
Subject: [PATCH 33/53] fix: what a client was told reaches it before it is
 disconnected

---
 pktserv/pktserv.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index f9bccaa..a81de74 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -245,6 +245,7 @@ pollfd_state_machine(struct pollfd* pollfd)
     int writeable;
     int readable;
     cbuf_t *cbuf;
+    struct linger delivered = { 0, 0 };
 
     /* Check bounds: file descriptor must be < MAX_USERS to use as array index */
     if (pollfd->fd >= MAX_USERS) {
@@ -367,6 +368,14 @@ pollfd_state_machine(struct pollfd* pollfd)
                 if (g_pktserv_cb.lost_client)
                     g_pktserv_cb.lost_client(cbuf->fd);
 
+                /* what we have told them (why they are being disconnected,
+                 * for one) should still reach them */
+                if (setsockopt(cbuf->fd, SOL_SOCKET, SO_LINGER,
+                               &delivered, sizeof(delivered)) < 0) {
+                    vmdb(MSG_WARN, "%s: setsockopt(SO_LINGER) - %s",
+                         __FUNCTION__, strerror(errno));
+                }
+
                 handle_disconnect(cbuf);
                 break;
 
-- 
2.43.0


From 9e4a56e9c15b1a6fc7ab4bd555586bf9c17ff62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 34/53] fix: whereis does not read the address of a peer that
 is not there

---
 server/s_info.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/server/s_info.c b/server/s_info.c
index 1927c90..7b80f13 100644
--- a/server/s_info.c
+++ b/server/s_info.c
@@ -52,12 +52,13 @@ int s_info(int n, int argc)
             idle = time(NULL) - u_tab[TheirIndex].t_recv;
 
             aw = (strlen(u_tab[TheirIndex].awaymsg) > 0);
-            getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size);
 
-            /* Get numeric IP address string (works for both IPv4 and IPv6) */
-            if (getnameinfo((struct sockaddr *)&rs, rs_size,
-                            addrstr, sizeof(addrstr), NULL, 0,
-                            NI_NUMERICHOST) != 0) {
+            /* Get numeric IP address string (works for both IPv4 and IPv6).
+             * The server itself has no peer. */
+            if (getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size) != 0
+                || getnameinfo((struct sockaddr *)&rs, rs_size,
+                               addrstr, sizeof(addrstr), NULL, 0,
+                               NI_NUMERICHOST) != 0) {
                 snprintf(addrstr, sizeof(addrstr), "(unknown)");
             }
 
-- 
2.43.0


From de9ad28df2c9df9226f5f6d67605652704f39fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:37 +0000
Subject: [PATCH 35/53] fix: send the 5 minute notice of a shutdown scheduled
 further ahead

---
 server/s_admin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_admin.c b/server/s_admin.c
index f2b8c2e..5cabe7f 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -112,7 +112,7 @@ int s_shutdown(int n, int argc)
                 sendimport(user,"Shutdown", line);
         TimeToDie = time(NULL) + 60.0 * atol(fields[1]);
         ShutdownNotify = 0;
-        if (atol(fields[1]) < 300)
+        if (atol(fields[1]) <= 5)    /* too late for the 5 minute notice */
             ShutdownNotify++;
     } else {
         mdb(MSG_INFO, "shutdown: wrong number of parz");
-- 
2.43.0


From 40277b987af8df0314765190245cceec9333974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:21 +0000
Subject: [PATCH 36/53] fix: refuse database records that could not be loaded
 again

---
 server/icb_dbm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 7487880..100254f 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -383,6 +383,8 @@ int dbm_store(DBM *db, datum key, datum content, int flags)
 {
     if (!db || !key.dptr) return -1;
     if (!content.dptr && content.dsize > 0) return -1;
+    if (key.dsize > (int)ICB_DBM_MAX_RECSIZE || content.dsize > (int)ICB_DBM_MAX_RECSIZE)
+        return -1;             /* load_file() would refuse the whole file */
 
     entry_t *e = ht_find(db, key.dptr, key.dsize, NULL, NULL);
     if (e) {
-- 
2.43.0


From 8cc0d4ed9fce7a08201bfb4af5d371e855ba9b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:21 +0000
Subject: [PATCH 37/53] fix: do not overflow the buffer icbdb_get returns long
 values in

---
 server/icbdb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/icbdb.c b/server/icbdb.c
index bc8d409..58db5f7 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -138,6 +138,8 @@ icbdb_get (const char *category, const char *attribute, icbdb_type type,
               data.dsize, data.dptr);
 
         if (value != NULL) {
+            if (data.dsize > (int)sizeof (databuf) - 1)
+                data.dsize = sizeof (databuf) - 1;
             bcopy (data.dptr, databuf, data.dsize);
             databuf[data.dsize] = '\0';
 
-- 
2.43.0


From 6365110e5ffa8f66a051b68649bd8457e3f5273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:51 +0000
Subject: [PATCH 38/53] fix: add to a database list without overwriting its
 first entry

---
 server/icbdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/icbdb.c b/server/icbdb.c
index 58db5f7..a9f3084 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -336,7 +336,7 @@ icbdb_list_find (const char *category, const char *attribute, icbdb_type type, v
             {
                 if (*first_empty == -1)
                 {
-                    *first_empty = 0;
+                    *first_empty = *index;
                 }
             }
 
-- 
2.43.0


From 272bc3f9063023665ff1c0c3416d1fcdc4107378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:51 +0000
Subject: [PATCH 39/53] fix: do not log an uninitialised value when a database
 list has a gap

---
 server/icbdb.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/icbdb.c b/server/icbdb.c
index a9f3084..f0c987a 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -296,7 +296,7 @@ icbdb_list_find (const char *category, const char *attribute, icbdb_type type, v
         {
             case ICBDB_STRING:
                 {
-                    char    *compare;
+                    char    *compare = "";
 
                     empty = !icbdb_list_get_index (category, attribute, *index,
                                                    type, &compare);
@@ -312,7 +312,7 @@ icbdb_list_find (const char *category, const char *attribute, icbdb_type type, v
 
             case ICBDB_INT:
                 {
-                    int        compare;
+                    int        compare = 0;
 
                     empty = !icbdb_list_get_index (category, attribute, *index,
                                                    type, &compare);
-- 
2.43.0


From 251f05ce492feecc403aa4d6328fa1e2fcfa03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 40/53] fix: do not crash on a permissions entry that names no
 permission

---
 server/msgs.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 781954b..d5468db 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -46,13 +46,12 @@ long perm2val(char *str)
     long    perm = PERM_NULL;
     char    *cp;
 
-    cp = strtok (str, "|");
-    do
+    for ( cp = strtok (str, "|"); cp != (char *)NULL; cp = strtok ((char *)NULL, "|") )
     {
         if ( !strcasecmp (cp, "perm_null") ) { perm |= PERM_NULL; }
         else if ( !strcasecmp (cp, "perm_deny") ) { perm |= PERM_DENY; }
         else if ( !strcasecmp (cp, "perm_slowmsgs") ) { perm |= PERM_SLOWMSGS; }
-    } while ( (cp = strtok ((char *) NULL, "|")) != (char *)NULL );
+    }
 
     return (perm);
 }
-- 
2.43.0


From 5aaea6f9d2c2282a8b16d3106a76193455f4342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:49 +0000
Subject: [PATCH 41/53] fix: do not take a database file cut short within an
 entry for a whole one

---
 support/icbdb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/icbdb.py b/support/icbdb.py
index de3c29a..bbe2e05 100755
--- a/support/icbdb.py
+++ b/support/icbdb.py
@@ -101,8 +101,12 @@ class IcbDb:
                 if len(rec_hdr) < ENTRY_HDR_SIZE:
                     raise ValueError(f"Truncated entry header in {self.path}")
                 klen, vlen = struct.unpack("<II", rec_hdr)
-                key = f.read(klen).decode("utf-8", errors="replace")
-                val = f.read(vlen).decode("utf-8", errors="replace")
+                kb = f.read(klen)
+                vb = f.read(vlen)
+                if len(kb) < klen or len(vb) < vlen:
+                    raise ValueError(f"Truncated entry in {self.path}")
+                key = kb.decode("utf-8", errors="replace")
+                val = vb.decode("utf-8", errors="replace")
                 self._data[key] = val
 
     def flush(self):
-- 
2.43.0


From ac4c2bca3dd0130b9db29b6364cd30b1d3f5c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:49 +0000
Subject: [PATCH 42/53] fix: keep bytes that are not UTF-8 when a support tool
 rewrites the database

---
 support/icbdb.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/support/icbdb.py b/support/icbdb.py
index bbe2e05..36f4ef6 100755
--- a/support/icbdb.py
+++ b/support/icbdb.py
@@ -10,12 +10,19 @@ The magic bytes are b'IDB\\x01'.
 
 import os
 import struct
+import sys
 import tempfile
 
 MAGIC = b'IDB\x01'
 HDR_SIZE = 8
 ENTRY_HDR_SIZE = 8
 
+# Keys and values are bytes. Those that are not UTF-8 are kept as they are, in
+# the database and in what the tools read and print.
+for _stream in (sys.stdin, sys.stdout):
+    if hasattr(_stream, "reconfigure"):
+        _stream.reconfigure(encoding="utf-8", errors="surrogateescape")
+
 
 class IcbDb:
     """Read/write access to an ICB .db file.
@@ -105,8 +112,8 @@ class IcbDb:
                 vb = f.read(vlen)
                 if len(kb) < klen or len(vb) < vlen:
                     raise ValueError(f"Truncated entry in {self.path}")
-                key = kb.decode("utf-8", errors="replace")
-                val = vb.decode("utf-8", errors="replace")
+                key = kb.decode("utf-8", errors="surrogateescape")
+                val = vb.decode("utf-8", errors="surrogateescape")
                 self._data[key] = val
 
     def flush(self):
@@ -123,8 +130,8 @@ class IcbDb:
                 f.write(struct.pack("<I", len(self._data)))
                 # Entries
                 for key, val in self._data.items():
-                    kb = key.encode("utf-8")
-                    vb = val.encode("utf-8")
+                    kb = key.encode("utf-8", errors="surrogateescape")
+                    vb = val.encode("utf-8", errors="surrogateescape")
                     f.write(struct.pack("<II", len(kb), len(vb)))
                     f.write(kb)
                     f.write(vb)
-- 
2.43.0


From e09a1052c2808af2556b73789f2f68a13b98ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:49 +0000
Subject: [PATCH 43/53] fix: import exported entries that contain line ends

---
 support/dbexport.py | 3 +++
 support/dbimport.py | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/support/dbexport.py b/support/dbexport.py
index faf8764..df04190 100755
--- a/support/dbexport.py
+++ b/support/dbexport.py
@@ -20,6 +20,9 @@ def main():
     dbpath = sys.argv[1] if len(sys.argv) > 1 else "./icbdb"
     with IcbDb(dbpath) as db:
         for key, val in db.items():
+            # one line per entry: mark line ends within it
+            for c, e in (("\\", "\\\\"), ("\n", "\\n"), ("\r", "\\r")):
+                key, val = key.replace(c, e), val.replace(c, e)
             print(f"{key}|{val}")
 
 if __name__ == "__main__":
diff --git a/support/dbimport.py b/support/dbimport.py
index 8694482..2815526 100755
--- a/support/dbimport.py
+++ b/support/dbimport.py
@@ -7,12 +7,17 @@
 ## it's not hammered on since it's only been used once
 ###
 
+import re
 import sys
 import os
 
 sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
 from icbdb import IcbDb
 
+def unmark(text):
+    """Undo what dbexport does to line ends and backslashes."""
+    return re.sub(r"\\([\\nr])", lambda m: {"n": "\n", "r": "\r"}.get(m[1], m[1]), text)
+
 def main():
     dbpath = sys.argv[1] if len(sys.argv) > 1 else "./icbdb"
     with IcbDb(dbpath) as db:
@@ -20,8 +25,8 @@ def main():
             line = line.rstrip("\n")
             sep = line.find("|")
             if sep >= 0:
-                key = line[:sep]
-                val = line[sep + 1:]
+                key = unmark(line[:sep])
+                val = unmark(line[sep + 1:])
                 print(f"{key}={val}")
                 db[key] = val
 
-- 
2.43.0


From 3b3ec5fe7564498c8ffb2da7d06f97814a5d2ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:49 +0000
Subject: [PATCH 44/53] fix: migrate databases of every kind of dbm, and their
 bytes unchanged

---
 support/dbm2icbdb.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/support/dbm2icbdb.py b/support/dbm2icbdb.py
index fa65cc7..d1ea960 100755
--- a/support/dbm2icbdb.py
+++ b/support/dbm2icbdb.py
@@ -41,17 +41,16 @@ def migrate(src_path, dst_path, verbose=False):
         sys.exit(1)
 
     with IcbDb(dst_path) as new_db:
-        key = legacy_db.firstkey()
-        while key is not None:
+        # not every kind of dbm has firstkey() and nextkey()
+        for key in legacy_db.keys():
             val = legacy_db[key]
             # Legacy databases store bytes; decode to str
-            key_str = key.decode("utf-8", errors="replace")
-            val_str = val.decode("utf-8", errors="replace")
+            key_str = key.decode("utf-8", errors="surrogateescape")
+            val_str = val.decode("utf-8", errors="surrogateescape")
             new_db[key_str] = val_str
             if verbose:
                 print(f"  {key_str} = {val_str}")
             count += 1
-            key = legacy_db.nextkey(key)
 
     legacy_db.close()
     return count
-- 
2.43.0


From 4d7d997bf0eac984a8841c1fc511c3f5115ef98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 45/53] fix: an empty packet ends a TLS connection as it ends a
 clear one

SSL_read() of nothing is not an end of file, so a TLS client that sent an
empty packet was never heard again.
---
 pktserv/pktsocket.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 86f9ebb..1271669 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -228,6 +228,11 @@ int pktsocket_read(cbuf_t *cbuf)
 
     /* read as much of the command packet as we can get */
     remain = cbuf->rbuf->len - (cbuf->rbuf->pos - cbuf->rbuf->data);
+    if (remain == 0) {
+        /* a packet without even a type: there is nothing to wait for */
+        cbuf->state = WANT_DISCONNECT;
+        return -1;
+    }
     if (cbuf->is_ssl) {
         result = sslsocket_read(cbuf, cbuf->rbuf->pos, remain);
     } else {
-- 
2.43.0


From aa0903c0f1a6cf57ccfc794a3ee7097415e19379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:53 +0000
Subject: [PATCH 46/53] fix: do not spin while a TLS handshake waits for the
 client

---
 pktserv/pktserv.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index a81de74..3eb2eb3 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -476,7 +476,6 @@ update_pollfd_events(void)
                  * banner before the client sends anything. */
             case WANT_WRITE:
             case WANT_SSL_WRITE:
-            case WANT_SSL_ACCEPT:
                 /* These states need write-readiness notification. */
             case WANT_DISCONNECT:
             case WANT_RAW_DISCONNECT:
@@ -484,6 +483,14 @@ update_pollfd_events(void)
                  * the remote side has gone quiet. */
                 events |= POLLOUT;
                 break;
+#ifdef HAVE_SSL
+            case WANT_SSL_ACCEPT:
+                /* It is the client that speaks first; waiting to write
+                 * when there is nothing to write is busy waiting. */
+                if (cbuf->ssl_con && SSL_want_write(cbuf->ssl_con))
+                    events |= POLLOUT;
+                break;
+#endif
             default:
                 break;
         }
-- 
2.43.0


From db1602345a413217d44eb13c2f4e1f3d6c2f1bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:04 +0000
Subject: [PATCH 47/53] fix: listen to a TLS client that is slow to read, as to
 any other

---
 pktserv/pktserv.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 3eb2eb3..c5643f6 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -312,10 +312,6 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if ((readable || writeable) && pktsocket_write(cbuf) < 0)
-                    cbuf->state = WANT_DISCONNECT;
-                return;
-
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
                 if (writeable && pktsocket_write(cbuf) < 0) {
                     cbuf->state = WANT_DISCONNECT;
@@ -324,7 +320,7 @@ pollfd_state_machine(struct pollfd* pollfd)
                 if (cbuf->state == WANT_SSL_WRITE || cbuf->state == WANT_WRITE) {
                     /* they aren't reading. don't wait for them here, but
                      * do listen to them */
-                    if (!readable || cbuf->state == WANT_SSL_WRITE)
+                    if (!readable)
                         return;
                     cbuf->state = READ_STATE(cbuf);
                 }
-- 
2.43.0


From d2627a50a73b316bebe6995937bb1e45aef1f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 48/53] fix: a passed moderatorship is not taken back when a
 reservation ends

---
 server/s_group.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index 2d27f3d..a0eb55c 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -866,6 +866,10 @@ int s_pass(int n, int argc)
                 /* fix the mod-ship */
                 g_tab[gi].mod = dest;
 
+                /* it is no longer kept for a mod who signed off */
+                g_tab[gi].modtimeout = 0.0;
+                memset(g_tab[gi].missingmod, 0, MAX_NICKLEN);
+
                 /* send message to dest.*/
                 sprintf(mbuf,
                         "%s just passed you moderation of group %s",
-- 
2.43.0


From 747dce8223fdd4d08c0d3e836e52f0514c996005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:04 +0000
Subject: [PATCH 49/53] fix: a message that throws its sender out of group 1 is
 not said in group ICB

---
 server/msgs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/msgs.c b/server/msgs.c
index d5468db..dd2eb89 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -222,6 +222,9 @@ void openmsg(int n, char *pkt)
                     is_booting = 1;
                     s_change(n, 2);
                     is_booting = 0;
+
+                    /* the message was not meant for that group */
+                    return;
                 }
             }
             else
-- 
2.43.0


From 4395f7d949d317bce7f06aed0ea59485cb350b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:35 +0000
Subject: [PATCH 50/53] fix: the delete character is a control character, too

---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index f7bb221..cf63849 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -76,7 +76,7 @@ void filtertext(const char *src, char *dest, size_t len)
             case UTF8_ACCEPT:
                 // A properly encoded character has been found.
                 //printf("===> U+%04X\n", codepoint);
-                if (codepoint >= 0x20 && codepoint <= 0x7F) {
+                if (codepoint >= 0x20 && codepoint < 0x7F) {
                     // reg'lar old ascii
                     dest[offset++] = *s;
                 } else if (codepoint >= 0x80 && codepoint <= 0x7FF) {
-- 
2.43.0


From e9e2f7fd45204cedc3355f6795beec31d59605a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:08 +0000
Subject: [PATCH 51/53] fix: an IPv4 client of a dual-stack port is named as
 one

---
 pktserv/getrname.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pktserv/getrname.c b/pktserv/getrname.c
index 7243837..c167300 100644
--- a/pktserv/getrname.c
+++ b/pktserv/getrname.c
@@ -127,6 +127,20 @@ char *getremotename(int socketfd)
         return(NULL);
     }
 
+    /* an IPv4 client of a dual-stack port (::ffff:a.b.c.d) has an IPv4 name */
+    if (rs.ss_family == AF_INET6) {
+        struct in6_addr *a6 = &((struct sockaddr_in6 *)&rs)->sin6_addr;
+        if (IN6_IS_ADDR_V4MAPPED(a6)) {
+            struct sockaddr_in v4;
+            memset(&v4, 0, sizeof(v4));
+            v4.sin_family = AF_INET;
+            v4.sin_port = ((struct sockaddr_in6 *)&rs)->sin6_port;
+            memcpy(&v4.sin_addr, &a6->s6_addr[12], 4);
+            memcpy(&rs, &v4, sizeof(v4));
+            rs_size = sizeof(v4);
+        }
+    }
+
     /* get a numeric representation for logging / fallback */
     if (addr_to_numeric((struct sockaddr *)&rs, rs_size,
                         numerichost, sizeof(numerichost)) != 0) {
-- 
2.43.0


From 4630be1b9eed1a9e2b424b705f90ed8c460321e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:06 +0000
Subject: [PATCH 52/53] fix: a TLS error on one connection does not end another

---
 pktserv/sslsocket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pktserv/sslsocket.c b/pktserv/sslsocket.c
index 62d2aa2..29123bb 100644
--- a/pktserv/sslsocket.c
+++ b/pktserv/sslsocket.c
@@ -89,6 +89,8 @@ int sslsocket_accept(cbuf_t *cbuf)
         SSL_set_fd(cbuf->ssl_con, cbuf->fd);
     }
 
+    /* what went wrong on another connection says nothing about this one */
+    ERR_clear_error();
     result = SSL_accept(cbuf->ssl_con);
     if (result == 1) {
         vmdb(MSG_INFO,
@@ -177,6 +179,7 @@ int sslsocket_read(cbuf_t *cbuf, void *buf, size_t nbytes)
 {
     int result, ssl_error;
 
+    ERR_clear_error();
     result = SSL_read(cbuf->ssl_con, buf, nbytes);
     if (result > 0) {
         /* successful write, but we need to check to see if we need to
@@ -259,6 +262,7 @@ int sslsocket_write(cbuf_t *cbuf, void *buf, size_t nbytes)
 {
     int result, ssl_error;
 
+    ERR_clear_error();
     result = SSL_write(cbuf->ssl_con, buf, nbytes);
     if (result > 0) {
         /* successful write, but we need to check to see if we need to
-- 
2.43.0


From 6174e1361e7a9002ed61e4313e516b195aa37c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:41 +0000
Subject: [PATCH 53/53] fix: what a client sends cannot pass for entries of the
 log

Messages quote packets, commands and login ids, and a line end in one of
those began a new line of the log, which could be made to look like any entry.
---
 server/mdb.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/server/mdb.c b/server/mdb.c
index cde1fea..8a05652 100644
--- a/server/mdb.c
+++ b/server/mdb.c
@@ -6,6 +6,8 @@
 
 #include "config.h"
 
+#include <ctype.h>
+#include <string.h>
 #include <unistd.h>
 #ifdef HAVE_TIME_H
 #include <time.h>
@@ -36,6 +38,7 @@ void mdb(int level, const char *message)
     char timebuf[64];
     char tmp[BUFSIZ];
     time_t now;
+    int i, len;
     const char* msgtype = NULL;
 
     if ((level == MSG_ALL || level <= log_level) && icbd_log >= 0) {
@@ -46,13 +49,24 @@ void mdb(int level, const char *message)
 
         now = time(NULL);
         strftime(timebuf, 64, "%b %d %Y %H:%M:%S", localtime(&now));
-        snprintf(tmp, BUFSIZ, "%s %s %s: %s\n", 
-                 msgtype, timebuf, thishost, message);
+        len = snprintf(tmp, BUFSIZ - 1, "%s %s %s: %s", 
+                       msgtype, timebuf, thishost, message);
+        if (len > BUFSIZ - 2)
+            len = BUFSIZ - 2;
+
+        /* a message is one line, even when it quotes what a client sent */
+        while (len > 0 && tmp[len - 1] == '\n')
+            len--;
+        for (i = 0; i < len; i++) {
+            if (iscntrl((unsigned char)tmp[i]))
+                tmp[i] = '?';
+        }
+        tmp[len++] = '\n';
 
       	/* the "void"! ... is an obscure construct to get around the compiler
 	 * warning that we're not checking the return value. There's not
 	 * a whole lot we can do if we can't write at this point. */
-        (void)!write(icbd_log, tmp, strlen(tmp));
+        (void)!write(icbd_log, tmp, len);
     }
 }
 
-- 
2.43.0

