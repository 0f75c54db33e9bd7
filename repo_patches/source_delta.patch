From b08a0d4faeec6507cf72fbcafe05a2bd26b7c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 01/33] fix: reject base64 with padding before the last quartet

---
 src/crypto.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto.c b/src/crypto.c
index 779263f..641cd7a 100644
--- a/src/crypto.c
+++ b/src/crypto.c
@@ -374,7 +374,8 @@ static void base64_decode(xmpp_ctx_t *ctx,
             *d++ = (word & 0x0000FF00) >> 8;
             *d++ = (word & 0x000000FF);
         }
-        if (hextet > 64)
+        /* padding may only interrupt the last quartet */
+        if (i != (dlen % 3 ? len - 4 : len))
             goto _base64_decode_error;
         /* handle the remainder */
         switch (dlen % 3) {
-- 
2.43.0


From 6ef9942b00116e2c9cc990aa13290cde48091fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:33 +0000
Subject: [PATCH 02/33] fix: accept DNS answers whose last record has short
 rdata

---
 src/resolver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolver.c b/src/resolver.c
index 028320a..ea2d772 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -452,12 +452,13 @@ static int resolver_raw_srv_lookup_buf(xmpp_ctx_t *ctx,
         if (name_len == 0)
             return XMPP_DOMAIN_NOT_FOUND;
         j += name_len;
-        BUF_OVERFLOW_CHECK(j + 16, len);
+        BUF_OVERFLOW_CHECK(j + 9, len);
         type = xmpp_ntohs_ptr(&buf[j]);
         class = xmpp_ntohs_ptr(&buf[j + 2]);
         rdlength = xmpp_ntohs_ptr(&buf[j + 8]);
         j += 10;
         if (type == MESSAGE_T_SRV && class == MESSAGE_C_IN) {
+            BUF_OVERFLOW_CHECK(j + 6, len);
             rr = resolver_srv_rr_new(ctx, NULL, 0, 0, 0);
             if (rr) {
                 rr->next = *srv_rr_list;
-- 
2.43.0


From 82abd74369f3b56decf8e014f04324087ad68528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 03/33] fix: handler lists may be changed by the handlers being
 run

A handler that deleted itself (or a connection that was reset from a
callback) left the dispatch loops with a dangling pointer.  A plain handler
added by an id handler saw the stanza that was being dispatched.
---
 src/handler.c | 246 +++++++++++++++++++++++++-------------------------
 1 file changed, 123 insertions(+), 123 deletions(-)

diff --git a/src/handler.c b/src/handler.c
index 0577252..25419e4 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -56,6 +56,47 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
     strophe_free(ctx, item);
 }
 
+/* Values of the field enabled: handlers are added disabled, enabled when the
+ * list is going to be processed and running while their callback is executed.
+ */
+#define HANDLER_DISABLED 0
+#define HANDLER_ENABLED 1
+#define HANDLER_RUNNING 2
+
+static void _handlers_enable(xmpp_handlist_t *item)
+{
+    for (; item; item = item->next)
+        item->enabled = HANDLER_ENABLED;
+}
+
+/* Return the next handler which has to be processed and disable it.
+ * Callbacks can change the list in any way, including removal of the current
+ * handler, therefore, the list is always searched from the beginning.
+ */
+static xmpp_handlist_t *_handlers_next(xmpp_conn_t *conn, xmpp_handlist_t *item)
+{
+    for (; item; item = item->next) {
+        if (item->enabled != HANDLER_ENABLED)
+            continue;
+        item->enabled = HANDLER_DISABLED;
+        /* don't fire user handlers until stream negotiation has completed */
+        if (!conn || !item->user_handler || conn->stream_negotiation_completed)
+            break;
+    }
+    return item;
+}
+
+/* Check that a handler wasn't deleted during execution of its callback. */
+static int _handler_is_running(xmpp_handlist_t *list, xmpp_handlist_t *item)
+{
+    while (list && list != item)
+        list = list->next;
+    if (!list || list->enabled != HANDLER_RUNNING)
+        return 0;
+    list->enabled = HANDLER_DISABLED;
+    return 1;
+}
+
 /** Fire off all stanza handlers that match.
  *  This function is called internally by the event loop whenever stanzas
  *  are received from the XMPP server.
@@ -65,80 +106,104 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
  */
 void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 {
-    xmpp_handlist_t *item, *next, *head, *head_old;
-    const char *id, *ns, *name, *type;
+    xmpp_handlist_t *item, *head, *head_old;
+    const char *ns, *name, *type;
+    char *id = NULL;
     int ret;
 
-    /* call id handlers */
-    id = xmpp_stanza_get_id(stanza);
-    if (id) {
-        head = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
-        /* enable all added handlers */
-        for (item = head; item; item = item->next)
-            item->enabled = 1;
+    if (xmpp_stanza_get_id(stanza)) {
+        id = strophe_strdup(conn->ctx, xmpp_stanza_get_id(stanza));
+        if (!id)
+            return;
+    }
 
-        item = head;
-        while (item) {
-            /* don't fire user handlers until stream negotiation has completed
-               and skip newly added handlers */
-            if ((item->user_handler && !conn->stream_negotiation_completed) ||
-                !item->enabled) {
-                item = item->next;
-                continue;
-            }
+    /* enable all added handlers */
+    if (id)
+        _handlers_enable((xmpp_handlist_t *)hash_get(conn->id_handlers, id));
+    _handlers_enable(conn->handlers);
 
-            ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
-            next = item->next;
-            if (!ret) {
-                /* handler is one-shot, so delete it */
-                head_old = head;
-                _handler_item_remove(&head, item);
-                if (head != head_old) {
-                    /* replace old value */
-                    hash_add(conn->id_handlers, id, head);
-                }
-                strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
+    /* call id handlers */
+    while (id && (item = _handlers_next(conn, (xmpp_handlist_t *)hash_get(
+                                                  conn->id_handlers, id)))) {
+        item->enabled = HANDLER_RUNNING;
+        ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
+        /* list may be changed during execution of a handler */
+        head = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
+        if (_handler_is_running(head, item) && !ret) {
+            /* handler is one-shot, so delete it */
+            head_old = head;
+            _handler_item_remove(&head, item);
+            if (head != head_old) {
+                /* replace old value */
+                hash_add(conn->id_handlers, id, head);
             }
-            item = next;
+            strophe_free(conn->ctx, item->u.id);
+            strophe_free(conn->ctx, item);
         }
     }
+    if (id)
+        strophe_free(conn->ctx, id);
 
     /* call handlers */
-    ns = xmpp_stanza_get_ns(stanza);
-    name = xmpp_stanza_get_name(stanza);
-    type = xmpp_stanza_get_type(stanza);
-
-    /* enable all added handlers */
-    for (item = conn->handlers; item; item = item->next)
-        item->enabled = 1;
-
-    item = conn->handlers;
-    while (item) {
-        /* don't fire user handlers until stream negotiation has completed and
-           skip newly added handlers */
-        if ((item->user_handler && !conn->stream_negotiation_completed) ||
-            !item->enabled) {
-            item = item->next;
-            continue;
-        }
+    while ((item = _handlers_next(conn, conn->handlers))) {
+        /* the stanza may be changed by a handler */
+        ns = xmpp_stanza_get_ns(stanza);
+        name = xmpp_stanza_get_name(stanza);
+        type = xmpp_stanza_get_type(stanza);
 
-        next = item->next;
         if ((!item->u.ns || (ns && strcmp(ns, item->u.ns) == 0) ||
              xmpp_stanza_get_child_by_ns(stanza, item->u.ns)) &&
             (!item->u.name || (name && strcmp(name, item->u.name) == 0)) &&
             (!item->u.type || (type && strcmp(type, item->u.type) == 0))) {
 
+            item->enabled = HANDLER_RUNNING;
             ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
             /* list may be changed during execution of a handler */
-            next = item->next;
-            if (!ret) {
+            if (_handler_is_running(conn->handlers, item) && !ret) {
                 /* handler is one-shot, so delete it */
                 _handler_item_remove(&conn->handlers, item);
                 _free_handlist_item(conn->ctx, item);
             }
         }
-        item = next;
+    }
+}
+
+/* Fire ready timed handlers from the list and update the time until the next
+ * handler will be ready. conn is NULL for handlers of the context.
+ */
+static void _fire_timed(xmpp_ctx_t *ctx,
+                        xmpp_conn_t *conn,
+                        xmpp_handlist_t **list,
+                        uint64_t *min)
+{
+    xmpp_handlist_t *item;
+    uint64_t elapsed, timestamp;
+    int ret;
+
+    /* enable all handlers that were added */
+    _handlers_enable(*list);
+
+    while ((!conn || conn->state == XMPP_STATE_CONNECTED) &&
+           (item = _handlers_next(conn, *list))) {
+        timestamp = time_stamp();
+        elapsed = time_elapsed(item->u.last_stamp, timestamp);
+        if (elapsed >= item->u.period) {
+            /* fire! */
+            item->u.last_stamp = timestamp;
+            item->enabled = HANDLER_RUNNING;
+            if (conn)
+                ret = ((xmpp_timed_handler)item->handler)(conn, item->userdata);
+            else
+                ret = ((xmpp_global_timed_handler)item->handler)(
+                    ctx, item->userdata);
+            /* list may be changed during execution of a handler */
+            if (_handler_is_running(*list, item) && !ret) {
+                /* delete handler if it returned false */
+                _handler_item_remove(list, item);
+                strophe_free(ctx, item);
+            }
+        } else if (*min > (item->u.period - elapsed))
+            *min = item->u.period - elapsed;
     }
 }
 
@@ -152,86 +217,21 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
 {
     xmpp_connlist_t *connitem;
-    xmpp_handlist_t *item, *next;
-    xmpp_conn_t *conn;
-    uint64_t elapsed, min;
-    uint64_t timestamp;
-    int ret;
+    uint64_t min;
 
     min = (uint64_t)(-1);
 
-    connitem = ctx->connlist;
-    while (connitem) {
-        conn = connitem->conn;
-        if (conn->state != XMPP_STATE_CONNECTED) {
-            connitem = connitem->next;
-            continue;
-        }
-
-        /* enable all handlers that were added */
-        for (item = conn->timed_handlers; item; item = item->next)
-            item->enabled = 1;
-
-        item = conn->timed_handlers;
-        while (item) {
-            /* don't fire user handlers until stream negotiation has completed
-               and skip newly added handlers */
-            if ((item->user_handler && !conn->stream_negotiation_completed) ||
-                !item->enabled) {
-                item = item->next;
-                continue;
-            }
-
-            next = item->next;
-            timestamp = time_stamp();
-            elapsed = time_elapsed(item->u.last_stamp, timestamp);
-            if (elapsed >= item->u.period) {
-                /* fire! */
-                item->u.last_stamp = timestamp;
-                ret = ((xmpp_timed_handler)item->handler)(conn, item->userdata);
-                /* list may be changed during execution of a handler */
-                next = item->next;
-                if (!ret) {
-                    /* delete handler if it returned false */
-                    _handler_item_remove(&conn->timed_handlers, item);
-                    strophe_free(ctx, item);
-                }
-            } else if (min > (item->u.period - elapsed))
-                min = item->u.period - elapsed;
-
-            item = next;
-        }
-
-        connitem = connitem->next;
+    for (connitem = ctx->connlist; connitem; connitem = connitem->next) {
+        if (connitem->conn->state == XMPP_STATE_CONNECTED)
+            _fire_timed(ctx, connitem->conn, &connitem->conn->timed_handlers,
+                        &min);
     }
 
     /*
      * Check timed handlers in context. These handlers fire periodically
      * regardless of connections state.
-     * TODO Reduce copy-paste.
      */
-    item = ctx->timed_handlers;
-    while (item) {
-        next = item->next;
-        timestamp = time_stamp();
-        elapsed = time_elapsed(item->u.last_stamp, timestamp);
-        if (elapsed >= item->u.period) {
-            /* fire! */
-            item->u.last_stamp = timestamp;
-            ret =
-                ((xmpp_global_timed_handler)item->handler)(ctx, item->userdata);
-            /* list may be changed during execution of a handler */
-            next = item->next;
-            if (!ret) {
-                /* delete handler if it returned false */
-                _handler_item_remove(&ctx->timed_handlers, item);
-                strophe_free(ctx, item);
-            }
-        } else if (min > (item->u.period - elapsed))
-            min = item->u.period - elapsed;
-
-        item = next;
-    }
+    _fire_timed(ctx, NULL, &ctx->timed_handlers, &min);
 
     return min;
 }
-- 
2.43.0


From 06149aed5a64cf97edac5ceaa583a16cee6f3af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 04/33] fix: disconnect only once and ignore data after it

Data that followed </stream:stream> or an invalid root element in the same
read was still dispatched and could tear the connection down, close the
socket and notify the user for a second time.
---
 src/conn.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index f586a59..98d6636 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -917,6 +917,11 @@ void conn_disconnect_clean(xmpp_conn_t *conn)
  */
 void conn_disconnect(xmpp_conn_t *conn)
 {
+    /* the connection may have been torn down already, e.g. while processing
+     * the same chunk of data */
+    if (conn->state == XMPP_STATE_DISCONNECTED)
+        return;
+
     strophe_debug(conn->ctx, "xmpp", "Closing socket.");
     conn->state = XMPP_STATE_DISCONNECTED;
     conn->stream_negotiation_completed = 0;
@@ -1978,6 +1983,10 @@ static void _handle_stream_start(char *name, char **attrs, void *userdata)
     char *id;
     int failed = 0;
 
+    /* ignore the rest of the data if the connection is over */
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (conn->stream_id)
         strophe_free(conn->ctx, conn->stream_id);
     conn->stream_id = NULL;
@@ -2014,6 +2023,9 @@ static void _handle_stream_end(char *name, void *userdata)
 
     UNUSED(name);
 
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     /* stream is over */
     strophe_debug(conn->ctx, "xmpp", "RECV: </stream:stream>");
     /* the session has been terminated properly, i.e. it can't be resumed */
@@ -2028,13 +2040,16 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
     char *buf;
     size_t len;
 
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (xmpp_stanza_to_text(stanza, &buf, &len) == 0) {
         strophe_debug(conn->ctx, "xmpp", "RECV: %s", buf);
         strophe_free(conn->ctx, buf);
     }
 
     handler_fire_stanza(conn, stanza);
-    if (conn->sm_state->sm_enabled)
+    if (conn->state == XMPP_STATE_CONNECTED && conn->sm_state->sm_enabled)
         _conn_sm_handle_stanza(conn, stanza);
 }
 
-- 
2.43.0


From afb346c7543a423a8505cc41e2d3e4bd268d0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 05/33] fix: NULL pointer dereference on stream error without
 children

---
 src/auth.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index a1bc3b5..d00bc5d 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -127,13 +127,9 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     conn->stream_error->type = XMPP_SE_UNDEFINED_CONDITION;
 
     if (conn->stream_error) {
-        child = xmpp_stanza_get_children(stanza);
-        do {
-            const char *ns = NULL;
-
-            if (child) {
-                ns = xmpp_stanza_get_ns(child);
-            }
+        for (child = xmpp_stanza_get_children(stanza); child;
+             child = xmpp_stanza_get_next(child)) {
+            const char *ns = xmpp_stanza_get_ns(child);
 
             if (ns && strcmp(ns, XMPP_NS_STREAMS_IETF) == 0) {
                 name = xmpp_stanza_get_name(child);
@@ -190,7 +186,7 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                 else if (strcmp(name, "xml-not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
-        } while ((child = xmpp_stanza_get_next(child)));
+        }
 
         conn->stream_error->stanza = xmpp_stanza_clone(stanza);
     }
-- 
2.43.0


From 3c7e005dbf330fa0b1b7258ce97c0ca6e24c45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 06/33] fix: NULL pointer dereference on component connections

The stream-management state is used by every connection, but was allocated
for clients only.
---
 src/conn.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 98d6636..4d3e508 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -689,14 +689,6 @@ int xmpp_connect_client(xmpp_conn_t *conn,
     if (!domain)
         return XMPP_EMEM;
 
-    if (!conn->sm_state) {
-        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
-        if (!conn->sm_state)
-            goto err_mem;
-        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
-        conn->sm_state->ctx = conn->ctx;
-    }
-
     if (altdomain != NULL)
         strophe_debug(conn->ctx, "conn", "Connecting via altdomain.");
 
@@ -2200,6 +2192,14 @@ static int _conn_connect(xmpp_conn_t *conn,
 
     _conn_reset(conn);
 
+    if (!conn->sm_state) {
+        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
+        if (!conn->sm_state)
+            return XMPP_EMEM;
+        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
+        conn->sm_state->ctx = conn->ctx;
+    }
+
     conn->type = type;
     conn->domain = strophe_strdup(conn->ctx, domain);
     if (!conn->domain)
-- 
2.43.0


From 3c586c6623bdfefa890665a0e6f5579d8f4f0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 07/33] fix: compressed streams lose or corrupt data and stall

- bytes which the network did not accept were discarded,
- data was compressed for a second time after a recoverable write error,
- a read which did not produce any output was taken for a closed socket,
- data held back by zlib or left in the decompression buffer was not
  processed until the server sent more,
- a decompression error on a TLS connection dereferenced the freed session.
---
 src/compression.c | 47 ++++++++++++++++++++++++++++++++++-------------
 src/event.c       | 16 ++++++++++------
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/src/compression.c b/src/compression.c
index b1a2c3a..688fe33 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -33,6 +33,7 @@ struct xmpp_compression {
     xmpp_conn_t *conn;
     struct zlib_compression compression, decompression;
     struct conn_interface next;
+    int error; /* zlib error of the last operation, Z_OK if there was none */
 };
 
 static int _conn_decompress(struct xmpp_compression *comp,
@@ -55,19 +56,23 @@ static int _conn_decompress(struct xmpp_compression *comp,
     switch (ret) {
     case Z_STREAM_END:
     case Z_OK:
+    case Z_BUF_ERROR:
+        /* zlib can have more data for us if it filled the buffer */
         if (comp->decompression.buffer_end ==
-            comp->decompression.stream.next_in)
+                comp->decompression.stream.next_in &&
+            comp->decompression.stream.avail_out != 0)
             comp->decompression.stream.next_in = NULL;
-        return comp->decompression.stream.next_out - (Bytef *)buff;
-    case Z_BUF_ERROR:
+        if (comp->decompression.stream.next_out != (Bytef *)buff)
+            return comp->decompression.stream.next_out - (Bytef *)buff;
+        /* more compressed data is required to produce something */
+        comp->error = ret == Z_STREAM_END ? Z_STREAM_END : Z_BUF_ERROR;
         break;
     default:
         strophe_error(comp->conn->ctx, "zlib", "inflate error %d", ret);
-        comp->conn->error = ret;
-        conn_disconnect(comp->conn);
+        comp->error = ret;
         break;
     }
-    return 0;
+    return -1;
 }
 
 static int compression_read(struct conn_interface *intf, void *buff, size_t len)
@@ -76,6 +81,7 @@ static int compression_read(struct conn_interface *intf, void *buff, size_t len)
     struct xmpp_compression *comp = conn->compression.state;
     void *dbuff = buff;
     size_t dlen = len;
+    comp->error = Z_OK;
     if (comp->decompression.stream.next_in != NULL) {
         return _conn_decompress(comp, 0, buff, len);
     }
@@ -100,8 +106,12 @@ static int _try_compressed_write_to_network(xmpp_conn_t *conn, int force)
         ret = conn_interface_write(&comp->next, comp->compression.buffer, len);
         if (ret < 0)
             return ret;
-        comp->compression.stream.next_out = comp->compression.buffer;
-        comp->compression.stream.avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
+        /* keep what could not be sent now */
+        if (ret < len)
+            memmove(comp->compression.buffer,
+                    (Bytef *)comp->compression.buffer + ret, len - ret);
+        comp->compression.stream.next_out -= ret;
+        comp->compression.stream.avail_out += ret;
     }
     return ret;
 }
@@ -112,13 +122,20 @@ _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
     int ret;
     const void *buff_end = buff + len;
     struct xmpp_compression *comp = conn->compression.state;
+    comp->error = Z_OK;
     comp->compression.stream.next_in = (Bytef *)buff;
     comp->compression.stream.avail_in = len;
     do {
         ret = _try_compressed_write_to_network(conn, 0);
         if (ret < 0) {
+            /* report what has been compressed already */
+            if (comp->compression.stream.next_in > (Bytef *)buff)
+                break;
             return ret;
         }
+        /* the network doesn't accept more data */
+        if (comp->compression.stream.avail_out == 0)
+            break;
 
         ret = deflate(&comp->compression.stream, flush);
         if (ret == Z_STREAM_END) {
@@ -129,19 +146,19 @@ _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
         }
         if (ret != Z_OK) {
             strophe_error(conn->ctx, "zlib", "deflate error %d", ret);
+            comp->error = ret;
             conn->error = ret;
-            conn_disconnect(conn);
-            return ret;
+            return -1;
         }
-        ret = comp->compression.stream.next_in - (Bytef *)buff;
-    } while (comp->compression.stream.next_in < (Bytef *)buff_end);
+    } while (comp->compression.stream.next_in < (Bytef *)buff_end ||
+             (flush && comp->compression.stream.avail_out == 0));
     if (flush) {
         ret = _try_compressed_write_to_network(conn, 1);
         if (ret < 0) {
             return ret;
         }
     }
-    return ret;
+    return comp->compression.stream.next_in - (Bytef *)buff;
 }
 
 static int
@@ -170,12 +187,16 @@ static int compression_pending(struct conn_interface *intf)
 static int compression_get_error(struct conn_interface *intf)
 {
     struct conn_interface *next = &intf->conn->compression.state->next;
+    if (intf->conn->compression.state->error != Z_OK)
+        return intf->conn->compression.state->error;
     return next->get_error(next);
 }
 
 static int compression_is_recoverable(struct conn_interface *intf, int err)
 {
     struct conn_interface *next = &intf->conn->compression.state->next;
+    if (intf->conn->compression.state->error != Z_OK)
+        return err == Z_BUF_ERROR;
     return next->error_is_recoverable(next, err);
 }
 
diff --git a/src/event.c b/src/event.c
index 56d0a24..9620498 100644
--- a/src/event.c
+++ b/src/event.c
@@ -102,7 +102,7 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
     char buf[STROPHE_MESSAGE_BUFFER_SIZE];
     uint64_t next;
     uint64_t usec;
-    int tls_read_bytes = 0;
+    int pending = 0;
 
     if (ctx->loop_status == XMPP_LOOP_QUIT)
         return;
@@ -244,9 +244,9 @@ next_item:
             break;
         }
 
-        /* Check if there is something in the SSL buffer. */
-        if (conn->tls)
-            tls_read_bytes += tls_pending(intf);
+        /* Check if there is something in the SSL or decompression buffer. */
+        if (conn->state == XMPP_STATE_CONNECTED && intf->pending(intf))
+            pending = 1;
 
         if (conn->state != XMPP_STATE_DISCONNECTED && conn->sock > max)
             max = conn->sock;
@@ -254,6 +254,10 @@ next_item:
         connitem = connitem->next;
     }
 
+    /* don't wait if there is something to process already */
+    if (pending)
+        tv.tv_sec = tv.tv_usec = 0;
+
     /* check for events */
     if (max > 0)
         ret = select(max + 1, &rfds, &wfds, NULL, &tv);
@@ -272,7 +276,7 @@ next_item:
     }
 
     /* no events happened */
-    if (ret == 0 && tls_read_bytes == 0)
+    if (ret == 0 && !pending)
         return;
 
     /* process events */
@@ -325,7 +329,7 @@ next_item:
                                       err);
                         conn->error = err;
                         conn_disconnect(conn);
-                    } else if (!conn->tls) {
+                    } else if (ret == 0 && !conn->tls) {
                         /* return of 0 means socket closed by server */
                         strophe_debug(ctx, "xmpp",
                                       "Socket closed by remote host.");
-- 
2.43.0


From 6613c8e6996c87c89b5c196d715d2fa81226e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 08/33] fix: reset offers and compression of the previous
 connection

---
 src/compression.c | 1 +
 src/conn.c        | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/compression.c b/src/compression.c
index 688fe33..06c5360 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -281,6 +281,7 @@ void compression_free(xmpp_conn_t *conn)
         inflateEnd(&comp->decompression.stream);
         strophe_free_and_null(conn->ctx, comp->decompression.buffer);
     }
+    strophe_free_and_null(conn->ctx, conn->compression.state);
 }
 
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text)
diff --git a/src/conn.c b/src/conn.c
index 4d3e508..414d174 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2170,6 +2170,8 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->error = 0;
 
     conn->tls_support = 0;
+    conn->sasl_support = 0;
+    conn->compression.supported = 0;
 
     conn->bind_required = 0;
     conn->session_required = 0;
-- 
2.43.0


From 943913cb8bd7aeaf20f49e596a8c04d79c987b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 09/33] fix: connect calls on a connection that is in use must
 not alter it

---
 src/conn.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 414d174..2f10973 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -103,6 +103,12 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
 static unsigned short _conn_default_port(xmpp_conn_t *conn,
                                          xmpp_conn_type_t type);
 static void _conn_reset(xmpp_conn_t *conn);
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata,
+                           int is_raw);
 static int _conn_connect(xmpp_conn_t *conn,
                          const char *domain,
                          xmpp_conn_type_t type,
@@ -662,10 +668,25 @@ int xmpp_connect_client(xmpp_conn_t *conn,
                         unsigned short altport,
                         xmpp_conn_handler callback,
                         void *userdata)
+{
+    return _connect_client(conn, altdomain, altport, callback, userdata, 0);
+}
+
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata,
+                           int is_raw)
 {
     char *domain;
     int rc;
 
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
+    conn->is_raw = is_raw;
+
     if (!conn->jid && (conn->tls_client_cert || conn->tls_client_key)) {
         if (tls_id_on_xmppaddr_num(conn) != 1) {
             strophe_debug(conn->ctx, "xmpp",
@@ -748,6 +769,11 @@ int xmpp_connect_component(xmpp_conn_t *conn,
     if (!(server && conn->jid && conn->pass))
         return XMPP_EINVOP;
 
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
+    conn->is_raw = 0;
+
     /* XEP-0114 does not support TLS */
     (void)xmpp_conn_set_flags(conn, xmpp_conn_get_flags(conn) |
                                         XMPP_CONN_FLAG_DISABLE_TLS);
@@ -797,8 +823,7 @@ int xmpp_connect_raw(xmpp_conn_t *conn,
                      xmpp_conn_handler callback,
                      void *userdata)
 {
-    conn->is_raw = 1;
-    return xmpp_connect_client(conn, altdomain, altport, callback, userdata);
+    return _connect_client(conn, altdomain, altport, callback, userdata, 1);
 }
 
 /* Called when tcp connection is established. */
-- 
2.43.0


From 2ec156501097d410bf01ff5921c0505f6900e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 10/33] fix: try the remaining SRV targets when one cannot be
 resolved

---
 src/sock.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sock.c b/src/sock.c
index 90b0431..e6aca77 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -212,10 +212,10 @@ sock_t sock_connect(xmpp_sock_t *xsock)
     char buf[64];
 
     do {
-        if (!xsock->ainfo_cur) {
+        /* a target which can't be resolved must not end the search */
+        while (!xsock->ainfo_cur && xsock->srv_rr_cur) {
             sock_getaddrinfo(xsock);
-            if (xsock->srv_rr_cur)
-                xsock->srv_rr_cur = xsock->srv_rr_cur->next;
+            xsock->srv_rr_cur = xsock->srv_rr_cur->next;
         }
         if (!xsock->ainfo_cur) {
             /* We tried all available addresses. */
-- 
2.43.0


From a53e0c3cacf36599869627a404af12cfaa99b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 11/33] fix: dangling pointers in the send queue after an
 element was sent

---
 src/event.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 9620498..b72b1f3 100644
--- a/src/event.c
+++ b/src/event.c
@@ -171,10 +171,14 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
 
             /* pop the top item */
             conn->send_queue_head = sq;
+            if (sq)
+                sq->prev = NULL;
             /* if we've sent everything update the tail */
-            if (!sq)
+            else
                 conn->send_queue_tail = NULL;
             trigger_sm_callback(conn);
+            /* the user's callback can change the queue */
+            sq = conn->send_queue_head;
         }
         intf->flush(intf);
 
-- 
2.43.0


From 04f703fe372e36ca9b90630c74a2bd532b55e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 12/33] fix: end the connection after an XML parse error

---
 src/conn.c  | 3 ++-
 src/event.c | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 2f10973..49cfb6d 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -128,7 +128,8 @@ void xmpp_send_error(xmpp_conn_t *conn, xmpp_error_type_t type, char *text)
 {
     xmpp_stanza_t *error = xmpp_error_new(conn->ctx, type, text);
 
-    send_stanza(conn, error, XMPP_QUEUE_STROPHE);
+    /* stream errors are not subject to stream management */
+    send_stanza(conn, error, XMPP_QUEUE_SM_STROPHE);
 }
 
 /** Create a new Strophe connection object.
diff --git a/src/event.c b/src/event.c
index b72b1f3..f3d9a18 100644
--- a/src/event.c
+++ b/src/event.c
@@ -322,9 +322,11 @@ next_item:
                 if (ret > 0) {
                     ret = parser_feed(conn->parser, buf, ret);
                     if (!ret) {
-                        strophe_debug(ctx, "xmpp", "parse error [%s]", buf);
+                        strophe_debug(ctx, "xmpp", "parse error");
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
+                        /* nothing can be received on this stream anymore */
+                        xmpp_disconnect(conn);
                     }
                 } else {
                     int err = intf->get_error(intf);
-- 
2.43.0


From ea7a0dcc55289b92b80c9be0bac4aabd9d354b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 13/33] fix: stream management: don't drop unacknowledged
 stanzas on a malformed or wrapped 'h'

---
 src/conn.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 49cfb6d..c4e552e 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2083,6 +2083,8 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
     unsigned long ul_h;
 
     ns = xmpp_stanza_get_ns(stanza);
+    if (ns && strcmp(ns, XMPP_NS_STREAMS) == 0)
+        return; /* stream errors and features are not stanzas */
     if (ns && strcmp(ns, XMPP_NS_SM) != 0)
         ++conn->sm_state->sm_handled_nr;
     else {
@@ -2111,13 +2113,12 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                     conn->ctx, "conn",
                     "Error on strtoul() of '%s', returned value is %llu.",
                     attr_h, ul_h);
-                /* We continue here and drop the complete SM queue instead of
-                 * returning and letting the queue fill up.
-                 */
-                ul_h = ULONG_MAX;
+                return;
             }
+            /* the counters wrap around */
             while (conn->sm_state->sm_queue.head &&
-                   conn->sm_state->sm_queue.head->sm_h < ul_h) {
+                   (int32_t)((uint32_t)ul_h -
+                             conn->sm_state->sm_queue.head->sm_h) > 0) {
                 e = pop_queue_front(&conn->sm_state->sm_queue);
                 strophe_debug_verbose(2, conn->ctx, "conn",
                                       "SM_Q_DROP: %p, h=%lu", e, e->sm_h);
-- 
2.43.0


From 1d62e78ff6cd7f67453509dd0d6f34ad0453ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 14/33] fix: stream management: resumption, its failure and
 unexpected replies

---
 src/auth.c | 114 +++++++++++++++++++++++++++++++----------------------
 src/conn.c |  19 +++++----
 2 files changed, 78 insertions(+), 55 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index d00bc5d..d005c8b 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -98,6 +98,7 @@ static int
 _handle_session(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata);
 static int _handle_missing_session(xmpp_conn_t *conn, void *userdata);
 static int _handle_missing_handshake(xmpp_conn_t *conn, void *userdata);
+static void _sm_queue_resend(xmpp_conn_t *conn);
 static int _handle_sm(xmpp_conn_t *const conn,
                       xmpp_stanza_t *const stanza,
                       void *const userdata);
@@ -1138,10 +1139,12 @@ _handle_features_sasl(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
        XMPP style connection or we <resume/> the previous session */
 
     /* Check whether we can <resume/> the previous session */
-    if (!conn->sm_disable && conn->sm_state->can_resume &&
-        conn->sm_state->previd && conn->sm_state->bound_jid) {
+    if (!conn->sm_disable && conn->sm_state->sm_support &&
+        conn->sm_state->can_resume && conn->sm_state->previd) {
         resume = xmpp_stanza_new(conn->ctx);
         if (!resume) {
+            if (bind)
+                xmpp_stanza_release(bind);
             disconnect_mem_error(conn);
             return 0;
         }
@@ -1226,11 +1229,21 @@ static void _sm_enable(xmpp_conn_t *conn)
         xmpp_stanza_set_attribute(enable, "resume", "true");
     handler_add(conn, _handle_sm, XMPP_NS_SM, NULL, NULL, NULL);
     send_stanza(conn, enable, XMPP_QUEUE_SM_STROPHE);
-    conn->sm_state->sm_sent_nr = 0;
+    /* this is a new session, forget about the previous one */
+    reset_sm_state(conn->sm_state);
+    conn->sm_state->can_resume = 0;
     conn->sm_state->sm_enabled = 1;
     trigger_sm_callback(conn);
 }
 
+/* the session is bound, but stream management is not available */
+static void _negotiated_without_sm(xmpp_conn_t *conn)
+{
+    /* The stanzas that have not been acknowledged in a previous session */
+    _sm_queue_resend(conn);
+    _stream_negotiation_success(conn);
+}
+
 static int
 _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
 {
@@ -1271,7 +1284,7 @@ _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
          * successful
          */
         else {
-            _stream_negotiation_success(conn);
+            _negotiated_without_sm(conn);
         }
     } else {
         strophe_error(conn->ctx, "xmpp", "Server sent malformed bind reply.");
@@ -1310,7 +1323,7 @@ _handle_session(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
         if (conn->sm_state->sm_support && !conn->sm_disable) {
             _sm_enable(conn);
         } else {
-            _stream_negotiation_success(conn);
+            _negotiated_without_sm(conn);
         }
     } else {
         strophe_error(conn->ctx, "xmpp",
@@ -1359,7 +1372,8 @@ static void _sm_queue_cleanup(xmpp_conn_t *conn, unsigned long ul_h)
 {
     xmpp_send_queue_t *e;
     while ((e = peek_queue_front(&conn->sm_state->sm_queue))) {
-        if (e->sm_h >= ul_h)
+        /* the counters wrap around */
+        if ((int32_t)((uint32_t)ul_h - e->sm_h) <= 0)
             break;
         e = pop_queue_front(&conn->sm_state->sm_queue);
         strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
@@ -1384,7 +1398,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
                       xmpp_stanza_t *const stanza,
                       void *const userdata)
 {
-    xmpp_stanza_t *failed_cause, *bind = NULL;
+    xmpp_stanza_t *failed_cause, *bind;
     const char *name, *id, *previd, *resume, *cause;
     unsigned long ul_h = 0;
 
@@ -1395,9 +1409,14 @@ static int _handle_sm(xmpp_conn_t *const conn,
         goto err_sm;
 
     if (strcmp(name, "enabled") == 0) {
+        if (!conn->sm_state->sm_enabled) {
+            /* we didn't ask to enable it */
+            name = NULL;
+            goto err_sm;
+        }
         conn->sm_state->sm_handled_nr = 0;
         resume = xmpp_stanza_get_attribute(stanza, "resume");
-        if (resume && (strcasecmp(resume, "true") || strcmp(resume, "1"))) {
+        if (resume && (!strcasecmp(resume, "true") || !strcmp(resume, "1"))) {
             id = xmpp_stanza_get_attribute(stanza, "id");
             if (!id) {
                 strophe_error(conn->ctx, "xmpp",
@@ -1406,8 +1425,8 @@ static int _handle_sm(xmpp_conn_t *const conn,
                 name = NULL;
                 goto err_sm;
             }
-            conn->sm_state->can_resume = 1;
             conn->sm_state->id = strophe_strdup(conn->ctx, id);
+            conn->sm_state->can_resume = conn->sm_state->id != NULL;
         }
         /* We maybe have stuff in the SM queue if we tried to resume, but the
          * server doesn't remember all details of our session, but the `h` was
@@ -1417,10 +1436,11 @@ static int _handle_sm(xmpp_conn_t *const conn,
         _stream_negotiation_success(conn);
     } else if (strcmp(name, "resumed") == 0) {
         previd = xmpp_stanza_get_attribute(stanza, "previd");
-        if (!previd || strcmp(previd, conn->sm_state->previd)) {
+        if (conn->sm_state->sm_enabled || !conn->sm_state->previd || !previd ||
+            strcmp(previd, conn->sm_state->previd)) {
             strophe_error(conn->ctx, "xmpp",
                           "SM error: previd didn't match, ours is \"%s\".",
-                          conn->sm_state->previd);
+                          STR_MAYBE_NULL(conn->sm_state->previd));
             name = NULL;
             goto err_sm;
         }
@@ -1433,54 +1453,54 @@ static int _handle_sm(xmpp_conn_t *const conn,
         conn->sm_state->previd = NULL;
         conn->bound_jid = conn->sm_state->bound_jid;
         conn->sm_state->bound_jid = NULL;
-        if (conn->sm_state->sm_queue.head)
-            conn->sm_state->sm_sent_nr = conn->sm_state->sm_queue.head->sm_h;
-        else
-            conn->sm_state->sm_sent_nr = ul_h;
         _sm_queue_cleanup(conn, ul_h);
+        /* the server continues to count from here */
+        conn->sm_state->sm_sent_nr = (uint32_t)ul_h;
         _sm_queue_resend(conn);
         strophe_debug(conn->ctx, "xmpp", "Session resumed successfully.");
         _stream_negotiation_success(conn);
     } else if (strcmp(name, "failed") == 0) {
-        name = NULL;
-        conn->sm_state->sm_enabled = 0;
-
         failed_cause =
             xmpp_stanza_get_child_by_ns(stanza, XMPP_NS_STANZAS_IETF);
-        if (!failed_cause)
-            goto err_sm;
-
-        cause = xmpp_stanza_get_name(failed_cause);
-        if (!cause)
-            goto err_sm;
+        cause = failed_cause ? xmpp_stanza_get_name(failed_cause) : NULL;
 
-        if (!strcmp(cause, "item-not-found")) {
-            if (conn->sm_state->resume) {
-                /* It's no error if there's no `h` attribute included
-                 * but if there is, it gives a hint at what the server
-                 * already received.
-                 */
-                if (!_get_h_attribute(stanza, &ul_h)) {
-                    /* In cases there's no `h` included, drop all elements. */
-                    ul_h = (unsigned long)-1;
-                }
-                _sm_queue_cleanup(conn, ul_h);
-            }
-        } else if (!strcmp(cause, "feature-not-implemented")) {
-            conn->sm_state->resume = 0;
-            conn->sm_state->can_resume = 0;
+        if (cause && !strcmp(cause, "feature-not-implemented")) {
             /* remember that the server reports having support
              * for resumption, but actually it doesn't ...
              */
             conn->sm_state->dont_request_resume = 1;
         }
-        bind = conn->sm_state->bind;
-        conn->sm_state->bind = NULL;
-        reset_sm_state(conn->sm_state);
-        _do_bind(conn, bind);
+
+        if (conn->sm_state->sm_enabled) {
+            /* the server refused to enable stream management */
+            conn->sm_state->sm_enabled = 0;
+            _negotiated_without_sm(conn);
+        } else {
+            /* the previous session can't be resumed.
+             * It's no error if there's no `h` attribute included
+             * but if there is, it gives a hint at what the server
+             * already received.
+             */
+            if (!_get_h_attribute(stanza, &ul_h))
+                _sm_queue_cleanup(conn, ul_h);
+
+            bind = conn->sm_state->bind;
+            conn->sm_state->bind = NULL;
+            conn->sm_state->resume = 0;
+            conn->sm_state->can_resume = 0;
+            reset_sm_state(conn->sm_state);
+            if (bind) {
+                _do_bind(conn, bind);
+            } else {
+                strophe_error(conn->ctx, "xmpp",
+                              "Stream features does not allow "
+                              "resource bind.");
+                xmpp_disconnect(conn);
+            }
+        }
     } else {
-        /* unknown stanza received */
-        name = NULL;
+        /* not the reply to our request */
+        return 1;
     }
 
     trigger_sm_callback(conn);
@@ -1504,8 +1524,8 @@ err_sm:
                      buf);
         if (buf != err)
             strophe_free(conn->ctx, buf);
-        /* Don't disable for <failure> cases, they're no hard errors */
-        conn->sm_state->sm_enabled = bind != NULL;
+        conn->sm_state->sm_enabled = 0;
+        xmpp_disconnect(conn);
     }
     return 0;
 }
diff --git a/src/conn.c b/src/conn.c
index c4e552e..f8bb8df 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1612,21 +1612,20 @@ static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
 {
     xmpp_sm_state_t *s = conn->sm_state;
 
-    if (s->previd) {
+    if (!s->can_resume) {
+        strophe_free_and_null(conn->ctx, s->previd);
+        strophe_free_and_null(conn->ctx, s->bound_jid);
+        strophe_free_and_null(conn->ctx, s->id);
+    } else if (s->id) {
         strophe_free(conn->ctx, s->previd);
-        s->previd = NULL;
-    }
-
-    if (s->can_resume) {
         s->previd = s->id;
         s->id = NULL;
 
+        strophe_free(conn->ctx, s->bound_jid);
         s->bound_jid = conn->bound_jid;
         conn->bound_jid = NULL;
-    } else if (s->id) {
-        strophe_free(conn->ctx, s->id);
-        s->id = NULL;
     }
+    /* otherwise there was no attempt to resume the previous session yet */
 
     s->r_sent = s->sm_enabled = s->sm_support = s->resume = 0;
 
@@ -2229,6 +2228,10 @@ static int _conn_connect(xmpp_conn_t *conn,
         conn->sm_state->ctx = conn->ctx;
     }
 
+    /* a restored state describes the previous session */
+    if (conn->sm_state->sm_enabled)
+        _reset_sm_state_for_reconnect(conn);
+
     conn->type = type;
     conn->domain = strophe_strdup(conn->ctx, domain);
     if (!conn->domain)
-- 
2.43.0


From 6f9be3cf71d52ecc49a44090b0bb3a54c19d7fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 15/33] fix: restoring a malformed stream-management state

---
 src/conn.c | 50 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index f8bb8df..8cbf186 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1310,6 +1310,11 @@ struct sm_restore {
 
 static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
 {
+    if (sm->state == sm->state_end) {
+        strophe_error(sm->conn->ctx, "conn",
+                      "Provided sm_state data is too short");
+        return XMPP_EINVOP;
+    }
     if (*sm->state != type) {
         strophe_error(
             sm->conn->ctx, "conn",
@@ -1318,7 +1323,7 @@ static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
         return XMPP_EINVOP;
     }
     sm->state++;
-    if ((sm->state + 4) > sm->state_end) {
+    if (sm->state_end - sm->state < 4) {
         strophe_error(sm->conn->ctx, "conn",
                       "Provided sm_state data is too short");
         return XMPP_EINVOP;
@@ -1336,12 +1341,12 @@ static int sm_load_string(struct sm_restore *sm, char **val, size_t *len)
     int ret = sm_load_u32(sm, 0x7a, &l);
     if (ret)
         return ret;
-    if ((sm->state + l) > sm->state_end) {
+    if ((size_t)(sm->state_end - sm->state) < l) {
         strophe_error(sm->conn->ctx, "conn",
                       "Provided sm_state data is too short");
         return XMPP_EINVOP;
     }
-    *val = strophe_alloc(sm->conn->ctx, l + 1);
+    *val = strophe_alloc(sm->conn->ctx, (size_t)l + 1);
     if (!*val)
         return XMPP_EMEM;
     memcpy(*val, sm->state, l);
@@ -1404,6 +1409,8 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     }
     sm.state += 5;
 
+    xmpp_send_queue_t *const queue_tail = conn->send_queue_tail;
+
     conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
     if (!conn->sm_state)
         return XMPP_EMEM;
@@ -1434,7 +1441,6 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     ret = sm_load_u32(&sm, 0x9a, &len);
     if (ret)
         goto err_reload;
-    conn->send_queue_user_len = conn->send_queue_len = len;
     for (i = 0; i < len; i++) {
         xmpp_send_queue_t *item = strophe_alloc(conn->ctx, sizeof(*item));
         if (!item) {
@@ -1447,9 +1453,12 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
             conn->send_queue_head = item;
             conn->send_queue_tail = item;
         } else {
+            item->prev = conn->send_queue_tail;
             conn->send_queue_tail->next = item;
             conn->send_queue_tail = item;
         }
+        conn->send_queue_len++;
+        conn->send_queue_user_len++;
 
         ret = sm_load_string(&sm, &item->data, &item->len);
         if (ret)
@@ -1483,8 +1492,32 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
 
     return XMPP_EOK;
 
+    if (sm.state != sm.state_end) {
+        strophe_error(conn->ctx, "conn",
+                      "Provided sm_state data has trailing bytes");
+        ret = XMPP_EINVOP;
+        goto err_reload;
+    }
+
+    return XMPP_EOK;
+
 err_reload:
     xmpp_free_sm_state(conn->sm_state);
+    conn->sm_state = NULL;
+    /* the connection must be left as it was before */
+    while (conn->send_queue_tail != queue_tail) {
+        xmpp_send_queue_t *item = conn->send_queue_tail;
+        conn->send_queue_tail = item->prev;
+        if (item->prev)
+            item->prev->next = NULL;
+        else
+            conn->send_queue_head = NULL;
+        conn->send_queue_len--;
+        conn->send_queue_user_len--;
+        if (item->data)
+            strophe_free(conn->ctx, item->data);
+        strophe_free(conn->ctx, item);
+    }
     return ret;
 }
 
@@ -1507,7 +1540,7 @@ static int sm_store_u32(unsigned char **next_,
 static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 {
     if (!conn->sm_state->sm_support || !conn->sm_state->sm_enabled ||
-        !conn->sm_state->can_resume) {
+        !conn->sm_state->can_resume || !conn->sm_state->id) {
         *buf = NULL;
         return 0;
     }
@@ -1593,7 +1626,8 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 
 err_serialize:
     strophe_error(conn->ctx, "conn", "Can't serialize more data, buffer full");
-    strophe_free(conn->ctx, buf);
+    strophe_free(conn->ctx, *buf);
+    *buf = NULL;
     return 0;
 }
 
@@ -1617,11 +1651,11 @@ static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
         strophe_free_and_null(conn->ctx, s->bound_jid);
         strophe_free_and_null(conn->ctx, s->id);
     } else if (s->id) {
-        strophe_free(conn->ctx, s->previd);
+        strophe_free_and_null(conn->ctx, s->previd);
         s->previd = s->id;
         s->id = NULL;
 
-        strophe_free(conn->ctx, s->bound_jid);
+        strophe_free_and_null(conn->ctx, s->bound_jid);
         s->bound_jid = conn->bound_jid;
         conn->bound_jid = NULL;
     }
-- 
2.43.0


From 13774ac75fdf07fafbd961d4a8a46cf05a0cfb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 16/33] fix: xmpp_send_raw() must send exactly the given bytes

---
 src/conn.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 8cbf186..8823252 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2306,11 +2306,14 @@ void send_raw(xmpp_conn_t *conn,
     if (conn->state != XMPP_STATE_CONNECTED)
         return;
 
-    d = strophe_strndup(conn->ctx, data, len);
+    /* data can contain '\0' or lack its termination */
+    d = strophe_alloc(conn->ctx, len + 1);
     if (!d) {
-        strophe_error(conn->ctx, "conn", "Failed to strndup");
+        strophe_error(conn->ctx, "conn", "Failed to copy data");
         return;
     }
+    memcpy(d, data, len);
+    d[len] = '\0';
 
     _send_raw(conn, d, len, owner, userdata);
 }
-- 
2.43.0


From 7e0bc00ed402118b4ef650da9685cfb710408dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 17/33] fix: text of the previous stream leaks into or corrupts
 the next one

---
 src/parser_expat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index c1d1d38..e258135 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -351,6 +351,8 @@ int parser_reset(parser_t *parser)
     if (parser->inner_text) {
         strophe_free(parser->ctx, parser->inner_text);
         parser->inner_text = NULL;
+        parser->inner_text_size = 0;
+        parser->inner_text_used = 0;
     }
 
     if (!parser->expat)
-- 
2.43.0


From aed80cb23884c3d69c08b740c38cbba9a257b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 18/33] fix: keep the prefix of xml:lang when parsing a stanza

---
 src/parser_expat.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index e258135..b86d73d 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -127,6 +127,30 @@ static char *_xml_namespace(xmpp_ctx_t *ctx, const char *nsname)
     return result;
 }
 
+/* return allocated string with the name of an attribute */
+static char *_xml_attr_name(xmpp_ctx_t *ctx, const char *nsname)
+{
+    static const char xml_ns[] = "http://www.w3.org/XML/1998/namespace";
+    const size_t ns_len = sizeof(xml_ns) - 1;
+    char *result;
+    size_t len;
+
+    /* namespaced attributes aren't used in xmpp, discard namespace... */
+    if (strncmp(nsname, xml_ns, ns_len) || nsname[ns_len] != namespace_sep)
+        return _xml_name(ctx, nsname);
+
+    /* ...except for the reserved prefix of e.g. 'xml:lang' */
+    nsname += ns_len + 1;
+    len = strlen(nsname);
+    result = strophe_alloc(ctx, 4 + len + 1);
+    if (result != NULL) {
+        memcpy(result, "xml:", 4);
+        memcpy(result + 4, nsname, len + 1);
+    }
+
+    return result;
+}
+
 static void _set_attributes(xmpp_stanza_t *stanza, const XML_Char **attrs)
 {
     char *attr;
@@ -136,8 +160,7 @@ static void _set_attributes(xmpp_stanza_t *stanza, const XML_Char **attrs)
         return;
 
     for (i = 0; attrs[i]; i += 2) {
-        /* namespaced attributes aren't used in xmpp, discard namespace */
-        attr = _xml_name(stanza->ctx, attrs[i]);
+        attr = _xml_attr_name(stanza->ctx, attrs[i]);
         xmpp_stanza_set_attribute(stanza, attr, attrs[i + 1]);
         strophe_free(stanza->ctx, attr);
     }
-- 
2.43.0


From ceafb200959c2d59adae6596dfcf7d2f7a383906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 19/33] fix: deeply nested stanza exhausts the stack

---
 src/parser_expat.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index b86d73d..6511269 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -58,6 +58,11 @@ const XML_Char namespace_sep = '\x1F';
  */
 static xmpp_ctx_t *mem_ctx = NULL;
 
+/* Maximum nesting of elements in a stream */
+#ifndef MAX_DEPTH
+#define MAX_DEPTH 1024
+#endif
+
 static void *parser_mem_malloc(size_t size)
 {
     if (mem_ctx != NULL)
@@ -192,6 +197,12 @@ _start_element(void *userdata, const XML_Char *nsname, const XML_Char **attrs)
     xmpp_stanza_t *child;
     char *ns, *name;
 
+    if (parser->depth > MAX_DEPTH) {
+        /* stanzas are processed recursively */
+        XML_StopParser(parser->expat, XML_FALSE);
+        return;
+    }
+
     ns = _xml_namespace(parser->ctx, nsname);
     name = _xml_name(parser->ctx, nsname);
 
-- 
2.43.0


From efd5684a27e1c59e610c86f57f4f248225702817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 20/33] fix: child of a released stanza refers to freed memory

---
 src/stanza.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stanza.c b/src/stanza.c
index 6c6d6df..6bbd20a 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -178,6 +178,9 @@ int xmpp_stanza_release(xmpp_stanza_t *stanza)
         while (child) {
             tchild = child;
             child = child->next;
+            /* the child can outlive its parent */
+            tchild->parent = NULL;
+            tchild->prev = NULL;
             tchild->next = NULL;
             xmpp_stanza_release(tchild);
         }
-- 
2.43.0


From 0f71dcb98f814a1b18943eda90986a3972828c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 21/33] fix: failure of the sockopt callback mistaken for a
 pending connect

---
 src/sock.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sock.c b/src/sock.c
index e6aca77..7e1b4a5 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -229,6 +229,8 @@ sock_t sock_connect(xmpp_sock_t *xsock)
 
         sock = socket(ainfo->ai_family, ainfo->ai_socktype, ainfo->ai_protocol);
         if (sock != INVALID_SOCKET) {
+            int in_progress = 0;
+
             rc = 0;
             if (xsock->conn->sockopt_cb) {
                 /* Don't allow user to overwrite sockfd value. */
@@ -243,10 +245,12 @@ sock_t sock_connect(xmpp_sock_t *xsock)
             }
             if (rc == 0)
                 rc = sock_set_nonblocking(sock);
-            if (rc == 0)
+            if (rc == 0) {
                 rc = connect(sock, ainfo->ai_addr, ainfo->ai_addrlen);
-            /* Assume only connect() can cause "in progress" error. */
-            if (rc != 0 && !_in_progress(sock_error(NULL))) {
+                /* Only connect() can cause "in progress" error. */
+                in_progress = rc != 0 && _in_progress(sock_error(NULL));
+            }
+            if (rc != 0 && !in_progress) {
                 sock_close(sock);
                 sock = INVALID_SOCKET;
             }
-- 
2.43.0


From 1bce58643b57fd02261e4a6ca120a182ef739247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 22/33] fix: don't authenticate again if features are missing
 after SASL success

---
 src/auth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index d005c8b..ba2d082 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -973,7 +973,8 @@ static void _handle_open_compress(xmpp_conn_t *conn)
     /* setup stream:features handlers */
     handler_add(conn, _handle_features_compress, XMPP_NS_STREAMS, "features",
                 NULL, NULL);
-    handler_add_timed(conn, _handle_missing_features, FEATURES_TIMEOUT, NULL);
+    handler_add_timed(conn, _handle_missing_features_sasl, FEATURES_TIMEOUT,
+                      NULL);
 }
 
 static int _do_bind(xmpp_conn_t *conn, xmpp_stanza_t *bind)
@@ -1068,7 +1069,7 @@ static int _handle_features_compress(xmpp_conn_t *conn,
     xmpp_stanza_t *child;
 
     /* remove missing features handler */
-    xmpp_timed_handler_delete(conn, _handle_missing_features);
+    xmpp_timed_handler_delete(conn, _handle_missing_features_sasl);
 
     /* check for compression */
     child = xmpp_stanza_get_child_by_name_and_ns(stanza, "compression",
-- 
2.43.0


From 541a27ac4ce9957b10c18a3035a9ed1c93ae1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 23/33] fix: DIGEST-MD5: crash on a malformed challenge, qop
 list and quoting

---
 src/auth.c | 10 +++++++-
 src/sasl.c | 67 +++++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 60 insertions(+), 17 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index ba2d082..ec0f9bc 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -387,15 +387,21 @@ static int _handle_digestmd5_challenge(xmpp_conn_t *conn,
 
     if (strcmp(name, "challenge") == 0) {
         text = xmpp_stanza_get_text(stanza);
+        if (!text) {
+            strophe_error(conn->ctx, "xmpp", "Got an empty SASL challenge.");
+            xmpp_disconnect(conn);
+            return 0;
+        }
         response = sasl_digest_md5(conn->ctx, text, conn->jid, conn->pass);
+        strophe_free(conn->ctx, text);
         if (!response) {
             disconnect_mem_error(conn);
             return 0;
         }
-        strophe_free(conn->ctx, text);
 
         auth = xmpp_stanza_new(conn->ctx);
         if (!auth) {
+            strophe_free(conn->ctx, response);
             disconnect_mem_error(conn);
             return 0;
         }
@@ -404,6 +410,8 @@ static int _handle_digestmd5_challenge(xmpp_conn_t *conn,
 
         authdata = xmpp_stanza_new(conn->ctx);
         if (!authdata) {
+            xmpp_stanza_release(auth);
+            strophe_free(conn->ctx, response);
             disconnect_mem_error(conn);
             return 0;
         }
diff --git a/src/sasl.c b/src/sasl.c
index a280a7f..5fbe654 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -80,19 +80,39 @@ static char *_make_string(xmpp_ctx_t *ctx, const char *s, unsigned len)
 /* create a new, null-terminated string quoting another string */
 static char *_make_quoted(xmpp_ctx_t *ctx, const char *s)
 {
-    char *result;
+    char *result, *c;
     size_t len = strlen(s);
 
-    result = strophe_alloc(ctx, len + 3);
+    result = strophe_alloc(ctx, 2 * len + 3);
     if (result != NULL) {
-        result[0] = '"';
-        memcpy(result + 1, s, len);
-        result[len + 1] = '"';
-        result[len + 2] = '\0';
+        c = result;
+        *c++ = '"';
+        for (; *s != '\0'; s++) {
+            if (*s == '"' || *s == '\\')
+                *c++ = '\\';
+            *c++ = *s;
+        }
+        *c++ = '"';
+        *c = '\0';
     }
     return result;
 }
 
+/* check whether a comma separated list contains the token */
+static int _has_token(const char *list, const char *token)
+{
+    size_t len, tlen = strlen(token);
+
+    while (*list != '\0') {
+        list += strspn(list, ", \t");
+        len = strcspn(list, ", \t");
+        if (len == tlen && strncmp(list, token, len) == 0)
+            return 1;
+        list += len;
+    }
+    return 0;
+}
+
 /* split key, value pairs into a hash */
 static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
 {
@@ -128,10 +148,16 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
             t = s;
             /* if we see quotes, grab the string in between */
             if ((*s == '\'') || (*s == '"')) {
+                unsigned char *v = t;
+
                 t++;
-                while ((*t != *s) && (*t != '\0'))
-                    t++;
-                value = _make_string(ctx, (char *)s + 1, (t - s - 1));
+                /* drop the backslashes of quoted pairs */
+                while ((*t != *s) && (*t != '\0')) {
+                    if (*t == '\\' && t[1] != '\0')
+                        t++;
+                    *++v = *t++;
+                }
+                value = _make_string(ctx, (char *)s + 1, (v - s));
                 if (*t == *s) {
                     s = t + 1;
                 } else {
@@ -259,6 +285,19 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
         return NULL;
     }
 
+    if (hash_get(table, "nonce") == NULL) {
+        strophe_error(ctx, "SASL", "digest challenge without nonce");
+        hash_release(table);
+        return NULL;
+    }
+    /* the server offers a list, "auth" is all we support */
+    value = hash_get(table, "qop");
+    if (value != NULL && !_has_token(value, "auth")) {
+        strophe_error(ctx, "SASL", "digest challenge without qop=auth");
+        hash_release(table);
+        return NULL;
+    }
+
     node = xmpp_jid_node(ctx, jid);
     domain = xmpp_jid_domain(ctx, jid);
 
@@ -275,8 +314,7 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     xmpp_rand_nonce(ctx->rand, cnonce, sizeof(cnonce));
     hash_add(table, "cnonce", strophe_strdup(ctx, cnonce));
     hash_add(table, "nc", strophe_strdup(ctx, "00000001"));
-    if (hash_get(table, "qop") == NULL)
-        hash_add(table, "qop", strophe_strdup(ctx, "auth"));
+    hash_add(table, "qop", strophe_strdup(ctx, "auth"));
     value = strophe_alloc(ctx, 5 + strlen(domain) + 1);
     memcpy(value, "xmpp/", 5);
     memcpy(value + 5, domain, strlen(domain));
@@ -314,10 +352,6 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     MD5Update(&MD5, (unsigned char *)"AUTHENTICATE:", 13);
     value = hash_get(table, "digest-uri");
     MD5Update(&MD5, (unsigned char *)value, strlen(value));
-    if (strcmp(hash_get(table, "qop"), "auth") != 0) {
-        MD5Update(&MD5, (unsigned char *)":00000000000000000000000000000000",
-                  33);
-    }
     MD5Final(digest, &MD5);
 
     memcpy(HA2, digest, 16);
@@ -359,7 +393,8 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     result = _add_key(ctx, table, "qop", result, 0);
     result = _add_key(ctx, table, "digest-uri", result, 1);
     result = _add_key(ctx, table, "response", result, 0);
-    result = _add_key(ctx, table, "charset", result, 0);
+    if (hash_get(table, "charset") != NULL)
+        result = _add_key(ctx, table, "charset", result, 0);
 
     strophe_free(ctx, node);
     strophe_free(ctx, domain);
-- 
2.43.0


From d14e6c13ce1adcdd6bc0b50fa024fce8733a8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 24/33] fix: SCRAM: validate the server's nonce and iteration
 count, accept any salt length

---
 src/sasl.c  | 18 +++++++++++++++++-
 src/scram.c | 38 ++++++++++++++++++++++++--------------
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/sasl.c b/src/sasl.c
index 5fbe654..5f06d3b 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -407,6 +407,9 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     return response;
 }
 
+/* Don't let a server keep us busy */
+#define SCRAM_MAX_ITERATIONS 10000000
+
 /** generate auth response string for the SASL SCRAM mechanism */
 char *sasl_scram(xmpp_ctx_t *ctx,
                  const struct hash_alg *alg,
@@ -426,6 +429,7 @@ char *sasl_scram(xmpp_ctx_t *ctx,
     long ival;
     char *tmp;
     char *ptr;
+    const char *nonce;
     char *saveptr = NULL;
     char *response;
     char *auth;
@@ -459,11 +463,23 @@ char *sasl_scram(xmpp_ctx_t *ctx,
         goto out;
     }
 
+    /* the server's nonce must begin with ours */
+    nonce = strstr(first_bare, ",r=");
+    if (!nonce || strncmp(r, nonce + 1, strlen(nonce + 1)) != 0) {
+        goto out;
+    }
+
+    ival = strtol(i, &saveptr, 10);
+    if (*i < '0' || *i > '9' || *saveptr != '\0' || ival <= 0 ||
+        ival > SCRAM_MAX_ITERATIONS) {
+        strophe_error(ctx, "SASL", "invalid SCRAM iteration count: %s", i);
+        goto out;
+    }
+
     xmpp_base64_decode_bin(ctx, s, strlen(s), &sval, &sval_len);
     if (!sval) {
         goto out;
     }
-    ival = strtol(i, &saveptr, 10);
 
     /* "c=<channel_binding>," + r + ",p=" + sign_b64 + '\0' */
     response_len = 3 + strlen(channel_binding) + strlen(r) + 3 +
diff --git a/src/scram.c b/src/scram.c
index 35a62db..a1bc903 100644
--- a/src/scram.c
+++ b/src/scram.c
@@ -121,12 +121,15 @@ union common_hash_ctx {
     sha512_context sha512;
 };
 
-static void crypto_HMAC(const struct hash_alg *alg,
-                        const uint8_t *key,
-                        size_t key_len,
-                        const uint8_t *text,
-                        size_t len,
-                        uint8_t *digest)
+/* HMAC of the concatenation of text and suffix */
+static void crypto_HMAC_suffix(const struct hash_alg *alg,
+                               const uint8_t *key,
+                               size_t key_len,
+                               const uint8_t *text,
+                               size_t len,
+                               const uint8_t *suffix,
+                               size_t suffix_len,
+                               uint8_t *digest)
 {
     uint8_t key_pad[HMAC_BLOCK_SIZE_MAX];
     uint8_t key_ipad[HMAC_BLOCK_SIZE_MAX];
@@ -155,6 +158,8 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->init((void *)&ctx);
     alg->update((void *)&ctx, key_ipad, blocksize);
     alg->update((void *)&ctx, text, len);
+    if (suffix_len)
+        alg->update((void *)&ctx, suffix, suffix_len);
     alg->final((void *)&ctx, sha_digest);
 
     alg->init((void *)&ctx);
@@ -163,6 +168,16 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->final((void *)&ctx, digest);
 }
 
+static void crypto_HMAC(const struct hash_alg *alg,
+                        const uint8_t *key,
+                        size_t key_len,
+                        const uint8_t *text,
+                        size_t len,
+                        uint8_t *digest)
+{
+    crypto_HMAC_suffix(alg, key, key_len, text, len, NULL, 0, digest);
+}
+
 static void SCRAM_Hi(const struct hash_alg *alg,
                      const uint8_t *text,
                      size_t len,
@@ -173,23 +188,18 @@ static void SCRAM_Hi(const struct hash_alg *alg,
 {
     size_t k;
     uint32_t j;
-    uint8_t tmp[128];
+    uint8_t tmp[SCRAM_DIGEST_SIZE];
 
     static uint8_t int1[] = {0x0, 0x0, 0x0, 0x1};
 
-    /* assume salt + INT(1) isn't longer than sizeof(tmp) */
-    assert(salt_len <= sizeof(tmp) - sizeof(int1));
-
     memset(digest, 0, alg->digest_size);
     if (i == 0) {
         return;
     }
 
-    memcpy(tmp, salt, salt_len);
-    memcpy(&tmp[salt_len], int1, sizeof(int1));
-
     /* 'text' for Hi is a 'key' for HMAC */
-    crypto_HMAC(alg, text, len, tmp, salt_len + sizeof(int1), digest);
+    crypto_HMAC_suffix(alg, text, len, salt, salt_len, int1, sizeof(int1),
+                       digest);
     memcpy(tmp, digest, alg->digest_size);
 
     for (j = 1; j < i; j++) {
-- 
2.43.0


From 1657f24160f4977bf35b22467b59c3fe799b8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 25/33] fix: SCRAM: encode ',' and '=' in the user name

---
 src/auth.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index ec0f9bc..c2a1ebb 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -557,6 +557,27 @@ err:
     return 0;
 }
 
+/* encode ',' and '=' of a user name according to RFC 5802 */
+static char *_scram_saslname(xmpp_ctx_t *ctx, const char *node)
+{
+    char *name, *c;
+
+    name = strophe_alloc(ctx, 3 * strlen(node) + 1);
+    if (!name)
+        return NULL;
+    for (c = name; *node != '\0'; node++) {
+        if (*node == ',' || *node == '=') {
+            memcpy(c, *node == ',' ? "=2C" : "=3D", 3);
+            c += 3;
+        } else {
+            *c++ = *node;
+        }
+    }
+    *c = '\0';
+
+    return name;
+}
+
 static int _make_scram_init_msg(struct scram_user_data *scram)
 {
     xmpp_conn_t *conn = scram->conn;
@@ -588,7 +609,12 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
         binding_type_len += 1;
     }
 
-    node = xmpp_jid_node(ctx, conn->jid);
+    message = xmpp_jid_node(ctx, conn->jid);
+    if (!message) {
+        return -1;
+    }
+    node = _scram_saslname(ctx, message);
+    strophe_free(ctx, message);
     if (!node) {
         return -1;
     }
-- 
2.43.0


From 5aabc62154111e0af00ffb223feb6ceaa78df301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 26/33] fix: leak if the connection ends during a SCRAM
 exchange

---
 src/auth.c   | 25 +++++++++++++++++++------
 src/common.h |  2 ++
 src/conn.c   |  1 +
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index c2a1ebb..9e8003f 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -474,6 +474,21 @@ struct scram_user_data {
     const struct hash_alg *alg;
 };
 
+static void _scram_ctx_free(xmpp_conn_t *conn, struct scram_user_data *scram)
+{
+    strophe_free_and_null(conn->ctx, scram->channel_binding);
+    strophe_free_and_null(conn->ctx, scram->scram_init);
+    strophe_free(conn->ctx, scram);
+}
+
+/* The connection can end in the middle of the exchange */
+void auth_scram_free(xmpp_conn_t *conn)
+{
+    if (conn->scram_ctx)
+        _scram_ctx_free(conn, conn->scram_ctx);
+    conn->scram_ctx = NULL;
+}
+
 /* handle the challenge phase of SCRAM-SHA-1 auth */
 static int _handle_scram_challenge(xmpp_conn_t *conn,
                                    xmpp_stanza_t *stanza,
@@ -536,11 +551,10 @@ static int _handle_scram_challenge(xmpp_conn_t *conn,
          * current handler is not removed yet. As result, libstrophe wouldn't
          * handle incoming challenge stanza.
          */
+        conn->scram_ctx = NULL;
         rc = _handle_sasl_result(conn, stanza,
                                  (void *)scram_ctx->alg->scram_name);
-        strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-        strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-        strophe_free(conn->ctx, scram_ctx);
+        _scram_ctx_free(conn, scram_ctx);
     }
 
     return rc;
@@ -550,9 +564,7 @@ err_release_auth:
 err_free_response:
     strophe_free(conn->ctx, response);
 err:
-    strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-    strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-    strophe_free(conn->ctx, scram_ctx);
+    auth_scram_free(conn);
     disconnect_mem_error(conn);
     return 0;
 }
@@ -881,6 +893,7 @@ static void _auth(xmpp_conn_t *conn)
         strophe_free(conn->ctx, str);
         xmpp_stanza_add_child_ex(auth, authdata, 0);
 
+        conn->scram_ctx = scram_ctx;
         handler_add(conn, _handle_scram_challenge, XMPP_NS_SASL, NULL, NULL,
                     (void *)scram_ctx);
 
diff --git a/src/common.h b/src/common.h
index a367367..94ff691 100644
--- a/src/common.h
+++ b/src/common.h
@@ -263,6 +263,7 @@ struct _xmpp_conn_t {
     char *tls_client_cert;
     char *tls_client_key;
     int tls_failed;   /* set when tls fails, so we don't try again */
+    struct scram_user_data *scram_ctx; /* state of an ongoing exchange */
     int sasl_support; /* if true, field is a bitfield of supported
                          mechanisms */
     int auth_legacy_enabled;
@@ -392,6 +393,7 @@ void auth_handle_open(xmpp_conn_t *conn);
 void auth_handle_component_open(xmpp_conn_t *conn);
 void auth_handle_open_raw(xmpp_conn_t *conn);
 void auth_handle_open_stub(xmpp_conn_t *conn);
+void auth_scram_free(xmpp_conn_t *conn);
 
 /* queue functions */
 void add_queue_back(xmpp_queue_t *queue, xmpp_send_queue_t *item);
diff --git a/src/conn.c b/src/conn.c
index 8823252..2c6d113 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2232,6 +2232,7 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->tls_support = 0;
     conn->sasl_support = 0;
     conn->compression.supported = 0;
+    auth_scram_free(conn);
 
     conn->bind_required = 0;
     conn->session_required = 0;
-- 
2.43.0


From 4097966d3fbacc3858c3437775e618c284b93c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 27/33] fix: refuse stream-management state with trailing bytes

The check was unreachable.
---
 src/conn.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 2c6d113..ab2aeed 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1490,8 +1490,6 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
         item->owner = XMPP_QUEUE_USER;
     }
 
-    return XMPP_EOK;
-
     if (sm.state != sm.state_end) {
         strophe_error(conn->ctx, "conn",
                       "Provided sm_state data has trailing bytes");
-- 
2.43.0


From 6bbae1d048989d0741bb8f5cf7cd396a0bcd7d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:27 +0000
Subject: [PATCH 28/33] fix: free global timed handlers with their context

---
 src/ctx.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ctx.c b/src/ctx.c
index ef4dff1..e34b99f 100644
--- a/src/ctx.c
+++ b/src/ctx.c
@@ -497,6 +497,15 @@ xmpp_ctx_t *xmpp_ctx_new(const xmpp_mem_t *mem, const xmpp_log_t *log)
  */
 void xmpp_ctx_free(xmpp_ctx_t *ctx)
 {
+    xmpp_handlist_t *item;
+
+    /* free timed handlers which were not deleted by the user */
+    while (ctx->timed_handlers) {
+        item = ctx->timed_handlers;
+        ctx->timed_handlers = item->next;
+        strophe_free(ctx, item);
+    }
+
     /* mem and log are owned by their suppliers */
     xmpp_rand_free(ctx, ctx->rand);
     strophe_free(ctx, ctx); /* pull the hole in after us */
-- 
2.43.0


From a6c242ca4f423581f8c9dd0cad3f7d0652b3ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:42 +0000
Subject: [PATCH 29/33] fix: white space in attribute values is lost when a
 stanza is rendered

An XML parser turns a literal tab or newline of an attribute value into a
space and a literal carriage return of a text into a newline. Write these
characters as character references.
---
 src/stanza.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index 6bbd20a..cfac063 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -236,12 +236,13 @@ int xmpp_stanza_is_tag(xmpp_stanza_t *stanza)
 }
 
 /* Escape a string with for use in a XML text node or attribute. Assumes that
- * the input string is encoded in UTF-8. On success, returns a pointer to a
- * buffer with the resulting data which must be xmpp_free()'d by the caller.
- * On failure, returns NULL.
+ * the input string is encoded in UTF-8. White space which would be normalized
+ * by an XML parser is written as a character reference. On success, returns a
+ * pointer to a buffer with the resulting data which must be xmpp_free()'d by
+ * the caller. On failure, returns NULL.
  */
 
-static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
+static char *_escape_xml(xmpp_ctx_t *ctx, char *text, int is_attr)
 {
     size_t len = 0;
     char *src;
@@ -259,6 +260,15 @@ static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
         case '"':
             len += 6; /*"&quot;" */
             break;
+        case '\r': /* "&#13;" */
+            len += 5;
+            break;
+        case '\n': /* "&#10;" */
+            len += is_attr ? 5 : 1;
+            break;
+        case '\t': /* "&#9;" */
+            len += is_attr ? 4 : 1;
+            break;
         default:
             len++;
         }
@@ -284,6 +294,18 @@ static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
             strcpy(dst, "&quot;");
             dst += 6;
             break;
+        case '\r':
+            strcpy(dst, "&#13;");
+            dst += 5;
+            break;
+        case '\n':
+            strcpy(dst, is_attr ? "&#10;" : "\n");
+            dst += is_attr ? 5 : 1;
+            break;
+        case '\t':
+            strcpy(dst, is_attr ? "&#9;" : "\t");
+            dst += is_attr ? 4 : 1;
+            break;
         default:
             *dst = *src;
             dst++;
@@ -333,7 +355,7 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
         if (!stanza->data)
             return XMPP_EINVOP;
 
-        tmp = _escape_xml(stanza->ctx, stanza->data);
+        tmp = _escape_xml(stanza->ctx, stanza->data, 0);
         if (tmp == NULL)
             return XMPP_EMEM;
         ret = strophe_snprintf(ptr, left, "%s", tmp);
@@ -369,7 +391,7 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
                         continue;
                 }
                 tmp = _escape_xml(stanza->ctx,
-                                  (char *)hash_get(stanza->attributes, key));
+                                  (char *)hash_get(stanza->attributes, key), 1);
                 if (tmp == NULL) {
                     hash_iter_release(iter);
                     return XMPP_EMEM;
-- 
2.43.0


From 3e01391f396600db32cfd29d0eab8b8b535b9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 30/33] fix: rendering a child stanza on its own loses its
 namespace

The namespace was left out when it equals the parent's one, even if the
parent isn't part of the output.
---
 src/stanza.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index cfac063..4548e9f 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -335,8 +335,10 @@ static void _render_update(
  * return values < 0 indicate some error occurred,
  * and return values > buflen indicate buffer was not large enough
  */
-static int
-_render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
+static int _render_stanza_recursive(xmpp_stanza_t *stanza,
+                                    xmpp_stanza_t *parent,
+                                    char *buf,
+                                    size_t buflen)
 {
     char *ptr = buf;
     size_t left = buflen;
@@ -378,14 +380,13 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
             while ((key = hash_iter_next(iter))) {
                 if (!strcmp(key, "xmlns")) {
                     /* don't output namespace if parent stanza is the same */
-                    if (stanza->parent && stanza->parent->attributes &&
-                        hash_get(stanza->parent->attributes, key) &&
-                        !strcmp(
-                            (char *)hash_get(stanza->attributes, key),
-                            (char *)hash_get(stanza->parent->attributes, key)))
+                    if (parent && parent->attributes &&
+                        hash_get(parent->attributes, key) &&
+                        !strcmp((char *)hash_get(stanza->attributes, key),
+                                (char *)hash_get(parent->attributes, key)))
                         continue;
                     /* or if this is the stream namespace */
-                    if (!stanza->parent &&
+                    if (!parent &&
                         !strcmp((char *)hash_get(stanza->attributes, key),
                                 XMPP_NS_CLIENT))
                         continue;
@@ -425,7 +426,7 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
             /* iterate and recurse over child stanzas */
             child = stanza->children;
             while (child) {
-                ret = _render_stanza_recursive(child, ptr, left);
+                ret = _render_stanza_recursive(child, stanza, ptr, left);
                 if (ret < 0)
                     return ret;
 
@@ -476,7 +477,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         return XMPP_EMEM;
     }
 
-    ret = _render_stanza_recursive(stanza, buffer, length);
+    ret = _render_stanza_recursive(stanza, NULL, buffer, length);
     if (ret < 0) {
         strophe_free(stanza->ctx, buffer);
         *buf = NULL;
@@ -495,7 +496,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         length = ret + 1;
         buffer = tmp;
 
-        ret = _render_stanza_recursive(stanza, buffer, length);
+        ret = _render_stanza_recursive(stanza, NULL, buffer, length);
         if ((size_t)ret > length - 1) {
             strophe_free(stanza->ctx, buffer);
             *buf = NULL;
-- 
2.43.0


From fdd83993c9bfffeff83fa036d64bfabb365da3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 31/33] fix: SM callback dereferences a missing SM state

After xmpp_conn_get_sm_state() the connection has no SM state, dropping an
element of the send queue then called the SM callback which dereferenced NULL.
---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index ab2aeed..4003422 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1631,7 +1631,7 @@ err_serialize:
 
 void trigger_sm_callback(xmpp_conn_t *conn)
 {
-    if (!conn || !conn->sm_callback)
+    if (!conn || !conn->sm_callback || !conn->sm_state)
         return;
 
     unsigned char *buf;
-- 
2.43.0


From ddc1a454f7272e0c2128c6522878b59ff80411e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 32/33] fix: SASL EXTERNAL sends the resource in the
 authorization identity

RFC 6120, 6.3.8: the authorization identity is a bare JID.
---
 src/auth.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 9e8003f..4c34a54 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -806,14 +806,23 @@ static void _auth(xmpp_conn_t *conn)
             disconnect_mem_error(conn);
             return;
         }
+        /* the authorization identity is a bare JID */
+        authid = xmpp_jid_bare(conn->ctx, conn->jid);
+        if (!authid) {
+            xmpp_stanza_release(authdata);
+            xmpp_stanza_release(auth);
+            disconnect_mem_error(conn);
+            return;
+        }
         str = tls_id_on_xmppaddr(conn, 0);
         if (!str || (tls_id_on_xmppaddr_num(conn) == 1 &&
-                     strcmp(str, conn->jid) == 0)) {
+                     strcmp(str, authid) == 0)) {
+            strophe_free(conn->ctx, authid);
             xmpp_stanza_set_text(authdata, "=");
         } else {
             strophe_free(conn->ctx, str);
-            str = xmpp_base64_encode(conn->ctx, (void *)conn->jid,
-                                     strlen(conn->jid));
+            str = xmpp_base64_encode(conn->ctx, (void *)authid, strlen(authid));
+            strophe_free(conn->ctx, authid);
             if (!str) {
                 xmpp_stanza_release(authdata);
                 xmpp_stanza_release(auth);
-- 
2.43.0


From 60085cba8f2da850b1701ac7d22e51588c143350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 33/33] fix: no random numbers if assertions are disabled

With NDEBUG the call of getrandom() was compiled out, nonces were made of
uninitialised memory.
---
 src/rand.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rand.c b/src/rand.c
index 4b41fb0..ec2b0eb 100644
--- a/src/rand.c
+++ b/src/rand.c
@@ -343,8 +343,12 @@ void xmpp_rand_free(xmpp_ctx_t *ctx, xmpp_rand_t *rand)
 
 void xmpp_rand_bytes(xmpp_rand_t *rand, unsigned char *output, size_t len)
 {
+    int rc;
+
     assert(rand == &_xmpp_rand);
-    assert(_read_getrandom(output, len) == 0);
+    rc = _read_getrandom(output, len);
+    assert(rc == 0);
+    UNUSED(rc);
 }
 
 #endif
-- 
2.43.0

