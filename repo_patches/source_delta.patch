From 62efb4512e070af75ad0afedb9536740374b0b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 01/71] fix: drop closed connections from the outstanding
 polling arrays

A connection closed while it was queued as outstanding was deleted at the
end of the polling cycle and then used by the next one.
---
 src/viriatum/polling/polling_epoll.c  | 10 ++++++++
 src/viriatum/polling/polling_select.c | 10 ++++++++
 src/viriatum/polling/polling_select.h | 34 +++++++++++++++++++++++++++
 3 files changed, 54 insertions(+)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 6896c16..bb1c2f3 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -198,6 +198,16 @@ ERROR_CODE unregister_connection_polling_epoll(
             &polling_epoll->remove_connections_size,
             connection
         );
+        remove_outstanding(
+            polling_epoll->read_outstanding,
+            &polling_epoll->read_outstanding_size,
+            connection
+        );
+        remove_outstanding(
+            polling_epoll->write_outstanding,
+            &polling_epoll->write_outstanding_size,
+            connection
+        );
     }
 
     /* decrements the counter that controls the number of events
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 7d4f1d5..87d854a 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -183,6 +183,16 @@ ERROR_CODE unregister_connection_polling_select(
             &polling_select->remove_connections_size,
             connection
         );
+        remove_outstanding(
+            polling_select->read_outstanding,
+            &polling_select->read_outstanding_size,
+            connection
+        );
+        remove_outstanding(
+            polling_select->write_outstanding,
+            &polling_select->write_outstanding_size,
+            connection
+        );
     }
 
     /* raises no error */
diff --git a/src/viriatum/polling/polling_select.h b/src/viriatum/polling/polling_select.h
index d8124d1..f2800a7 100644
--- a/src/viriatum/polling/polling_select.h
+++ b/src/viriatum/polling/polling_select.h
@@ -276,3 +276,37 @@ static __inline void remove_connection(
     remove_connections[remove_connections_size] = connection;
     (*remove_connections_size_pointer)++;
 }
+
+/**
+ * Removes every reference to a connection from an array of outstanding
+ * connections, the order of the remaining connections is preserved.
+ * This must be done before a connection is scheduled for deletion,
+ * otherwise the next polling cycle would use an invalid reference.
+ *
+ * @param outstanding The array of outstanding connections.
+ * @param outstanding_size_pointer A pointer to the size of the
+ * outstanding connections array.
+ * @param connection The connection to be removed from the array.
+ */
+static __inline void remove_outstanding(
+    struct connection_t **outstanding,
+    size_t *outstanding_size_pointer,
+    struct connection_t *connection
+) {
+    /* allocates the index counter for the iteration and the
+    counter of the connections that are going to be kept */
+    size_t index;
+    size_t count = 0;
+
+    /* iterates over the complete set of outstanding connections
+    keeping only the ones that are different from the provided */
+    for(index = 0; index < *outstanding_size_pointer; index++) {
+        if(outstanding[index] == connection) { continue; }
+        outstanding[count] = outstanding[index];
+        count++;
+    }
+
+    /* updates the size of the outstanding array taking into
+    account the references that have been removed */
+    *outstanding_size_pointer = count;
+}
-- 
2.43.0


From b2d71180dd2249fc5638806536daaf0d3b5173a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 02/71] fix: never block in the poll operation while work is
 pending

Outstanding operations queued by the handling of other outstanding ones
were only run after an unrelated event, and a stop signal received right
before the (infinite) wait was not noticed until the next event.
---
 src/viriatum/polling/polling_epoll.c  | 25 ++++++++++++-------------
 src/viriatum/polling/polling_select.c |  8 ++++++++
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index bb1c2f3..4edab28 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -436,6 +436,7 @@ ERROR_CODE _poll_polling_epoll(
     /* allocates space for the index counter to be used in
     the iteration and for the counter of event from the wait */
     int index;
+    int timeout;
     int event_count;
 
     /* allocates space for the reference to the connection
@@ -455,26 +456,24 @@ ERROR_CODE _poll_polling_epoll(
     /* prints a debug message (include the poll count) */
     V_DEBUG_F("Entering epoll statement (%lu)\n", polling_epoll->poll_count);
 
+    /* in case the handling of the outstanding operations has queued
+    new ones the wait must not block, as these operations are edge
+    triggered and no other event is going to be generated for them */
+    timeout = polling_epoll->read_outstanding_size > 0 ||\
+        polling_epoll->write_outstanding_size > 0 ? 0 : VIRIATUM_SELECT_TIMEOUT * 1000;
+
     /* runs the wait process in the epoll, this is the main call
     of the epoll loop as it is the one responsible for the polling
-    operation and generation of the events, note that the embed
-    version of the call is managed by a timeout so that the event
-    loop does not block (the normal version is unblocked by signals) */
-#ifdef VIRIATUM_EMBED
+    operation and generation of the events, note that the call is
+    managed by a timeout so that the event loop does not block for
+    ever, eg: a signal received right before the call to the wait
+    operation would not be able to unblock it */
     event_count = epoll_wait(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        VIRIATUM_SELECT_TIMEOUT * 1000
+        timeout
     );
-#else
-    event_count = epoll_wait(
-        polling_epoll->epoll_fd,
-        events,
-        VIRIATUM_MAX_EVENTS,
-        -1
-    );
-#endif
 
     /* prints a debug message */
     V_DEBUG_F("Exiting epoll statement with value: %d\n", event_count);
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 87d854a..82b05e6 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -430,6 +430,14 @@ ERROR_CODE _poll_polling_select(
     /* copies the select timeout to the select timeout temporary */
     polling_select->select_timeout_temporary = polling_select->select_timeout;
 
+    /* in case the handling of the outstanding operations has queued
+    new ones the select operation must not block waiting for events */
+    if(polling_select->read_outstanding_size > 0 ||\
+        polling_select->write_outstanding_size > 0) {
+        polling_select->select_timeout_temporary.tv_sec = 0;
+        polling_select->select_timeout_temporary.tv_usec = 0;
+    }
+
     /* prints a debug message */
     V_DEBUG("Entering select statement\n");
 
-- 
2.43.0


From 5e9eff2ed4125f3ca8b81d997137a1395ee7abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 03/71] fix: do not use a connection after the data handler
 closed it

The read handler kept calling the (already released) data handler and the
unset close function of a connection closed while processing its data.
---
 src/viriatum/stream/stream_io.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 4ff8eeb..537bb94 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -303,6 +303,11 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
                 V_DEBUG("Calling on data handler\n");
                 io_connection->on_data(io_connection, buffer, buffer_size);
                 V_DEBUG("Finished calling on data handler\n");
+
+                /* in case the connection was closed by the handler (eg: due
+                to invalid data) its structures are no longer valid and so
+                there's nothing remaining to be done for the connection */
+                if(connection->status == STATUS_CLOSED) { RAISE_ERROR(1); }
             }
 
             /* resets the buffer size to the original (initial)
@@ -320,7 +325,7 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             VIRIATUM_READ_SIZE,
             0
         );
-        connection->received += number_bytes;
+        if(number_bytes > 0) { connection->received += number_bytes; }
 
         /* in case the number of bytes is zero (connection closed) */
         if(number_bytes == 0) {
@@ -404,15 +409,18 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             /* in case there's data pending to be processed must flush
             it even though there was a fatal error the data must be
             correctly processed by the underlying layer */
-            if(buffer_size > 0) {
+            if(buffer_size > 0 && io_connection->on_data != NULL) {
                 V_DEBUG("Calling on data handler\n");
                 io_connection->on_data(io_connection, buffer, buffer_size);
                 V_DEBUG("Finished calling on data handler\n");
             }
 
             /* closes the connection as the error was fatal, so this is the
-            best escape approach to solve the issue */
-            connection->close_connection(connection);
+            best escape approach to solve the issue, note that the on data
+            handler may have already closed the connection */
+            if(connection->status != STATUS_CLOSED) {
+                connection->close_connection(connection);
+            }
 
             /* breaks the switch */
             break;
@@ -486,7 +494,7 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
             data->size,
             0
         );
-        connection->sent += number_bytes;
+        if(number_bytes > 0) { connection->sent += number_bytes; }
 
         /* in case there was an error receiving from the socket */
         if(SOCKET_TEST_ERROR(number_bytes)) {
-- 
2.43.0


From 872504683e5eb0a8442c4471daeb22a2d217e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:12 +0000
Subject: [PATCH 04/71] fix: keep the HTTP parser consistent across reads and
 messages

The end of a request was never detected (wrong state), leaving the content
length of a request to be used in the next ones and the buffer growing for
the complete life of the connection. The marks of the parser refered the
previous location of the buffer after it was re-allocated, and an announced
content length was used as the amount of memory to allocate.
---
 src/viriatum/stream/stream_http.c | 138 +++++++++++++++++++-----------
 src/viriatum/stream/stream_http.h |   7 ++
 2 files changed, 97 insertions(+), 48 deletions(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 9a71ab9..923d6c1 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -79,6 +79,7 @@ ERROR_CODE create_http_connection(struct http_connection_t **http_connection_poi
     http_connection->buffer_size = 0;
     http_connection->buffer_offset = 0;
     http_connection->read_offset = 0;
+    http_connection->message_offset = 0;
     http_connection->lock = FALSE;
 
     /* sets the proper functions in the HTTP connection
@@ -182,6 +183,12 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     size_t size_offset;
     size_t size_length;
 
+    /* allocates space for the offsets of the parser marks, to
+    be used in the re-location of the buffer */
+    size_t field_offset;
+    size_t value_offset;
+    size_t url_offset;
+
     /* allocates the reference to the pointer to current
     buffer position to be used in writing (initial position) */
     unsigned char *_buffer;
@@ -200,42 +207,78 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     struct connection_t *connection = io_connection->connection;
     struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
 
-    /* retrieves the content length value from the parser associated
-    with the current connection, this value is maitained accross multiple
-    parsing loops and is not considered transient, the value remains at the
-    initial zero value until the proper header is parsed */
-    size_t content_length = http_connection->http_parser->_content_length;
+    /* retrieves the reference to the parser associated with the current
+    connection, to be used to update the values that refer the buffer */
+    struct http_parser_t *http_parser = http_connection->http_parser;
 
     /* in case no HTTP connection buffer is currently set, time to start
     a new one from the provided buffer (fast access) */
     if(http_connection->buffer == NULL) {
-        http_connection->buffer_size = buffer_size;
-        http_connection->buffer = (unsigned char *) MALLOC(http_connection->buffer_size);
+        if(buffer_size > 0) {
+            http_connection->buffer_size = buffer_size;
+            http_connection->buffer = (unsigned char *) MALLOC(http_connection->buffer_size);
+        }
     }
     /* in case the HTTP connection buffer is currently set but the available
-    space is not enough must reallocate the buffer (increment size) in order
-    to hold the required space for the new contents */
+    space is not enough must make some space for the new contents */
     else if(http_connection->buffer_offset + buffer_size > http_connection->buffer_size) {
-        /* creates two strategies for the reallocation of the buffer, one based on the
-        minimal size required for the handling the memory copy (offset strategy) and
-        another that aims at pre-allocating size for the complete message buffer (content
-        length strategy) the maximum value of both is selected as the new buffer size
-        and is used for the reallocation of the buffer */
-        size_offset = http_connection->buffer_offset + buffer_size;
-        size_length = http_connection->buffer_size + content_length;
-        http_connection->buffer_size = size_length > size_offset ? size_length : size_offset;
-        http_connection->buffer = REALLOC(
-            (void *) http_connection->buffer,
-            http_connection->buffer_size
+        /* retrieves the offset of the first byte in the buffer that is still
+        required (start of the message under processing), everything that is
+        placed before it belongs to processed messages and is discarded */
+        size_offset = http_connection->message_offset;
+        memmove(
+            http_connection->buffer,
+            &http_connection->buffer[size_offset],
+            http_connection->buffer_offset - size_offset
         );
+        http_connection->buffer_offset -= size_offset;
+        http_connection->read_offset -= size_offset;
+        http_connection->message_offset = 0;
+
+        /* converts the marks of the parser (if any) into offsets relative to
+        the new start of the buffer, as the buffer may change of position */
+        field_offset = http_parser->header_field_mark ?\
+            http_parser->header_field_mark - http_connection->buffer - size_offset : 0;
+        value_offset = http_parser->header_value_mark ?\
+            http_parser->header_value_mark - http_connection->buffer - size_offset : 0;
+        url_offset = http_parser->url_mark ?\
+            http_parser->url_mark - http_connection->buffer - size_offset : 0;
+
+        /* in case the space is still not enough grows the buffer to (at least)
+        the double of its size, note that the (remotely) announced content length
+        is not used as it may have no relation with the size to be received */
+        size_length = http_connection->buffer_offset + buffer_size;
+        if(size_length > http_connection->buffer_size) {
+            size_length = size_length > http_connection->buffer_size * 2 ?\
+                size_length : http_connection->buffer_size * 2;
+            http_connection->buffer_size = size_length;
+            http_connection->buffer = REALLOC(
+                (void *) http_connection->buffer,
+                http_connection->buffer_size
+            );
+        }
+
+        /* updates the marks of the parser (if any) so that they refer
+        to the same values in the current position of the buffer */
+        if(http_parser->header_field_mark) {
+            http_parser->header_field_mark = http_connection->buffer + field_offset;
+        }
+        if(http_parser->header_value_mark) {
+            http_parser->header_value_mark = http_connection->buffer + value_offset;
+        }
+        if(http_parser->url_mark) {
+            http_parser->url_mark = http_connection->buffer + url_offset;
+        }
     }
 
     /* retrieves the pointer reference to the current position in the
     buffer to be used for writing then copies the current buffer data
     into it and updates the buffer size */
-    _buffer = http_connection->buffer + http_connection->buffer_offset;
-    memcpy(_buffer, buffer, buffer_size);
-    http_connection->buffer_offset += buffer_size;
+    if(buffer_size > 0) {
+        _buffer = http_connection->buffer + http_connection->buffer_offset;
+        memcpy(_buffer, buffer, buffer_size);
+        http_connection->buffer_offset += buffer_size;
+    }
 
     /* iterates continuously, this allows the stream handler
     to split the stream into possible multiple messages, usefull
@@ -253,6 +296,10 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         processing of messages in the same connection */
         if(http_connection->lock) { break; }
 
+        /* in case there's no data pending to be processed there's
+        nothing remaining to be done (no more data available) */
+        if(_read_size == 0) { break; }
+
         /* in case there's currently no HTTP handler associated with the
         HTTP connection (need to create one) */
         if(http_connection->http_handler == NULL) {
@@ -289,31 +336,29 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         /* in case the current state in the HTTP parser is the
         start state, the message is considered to be completly
         parsed (new message may come after) */
-        if(http_connection->http_parser->state == STATE_START_RES) {
-            /* resets the HTTP parser state */
-            http_connection->http_parser->type = 2;
-            http_connection->http_parser->flags = 6;
-            http_connection->http_parser->state = STATE_START_REQ;
-            http_connection->http_parser->header_state = 0;
-            http_connection->http_parser->read_count = 0;
-            http_connection->http_parser->content_length = -1;
-            http_connection->http_parser->http_major = 0;
-            http_connection->http_parser->http_minor = 0;
-            http_connection->http_parser->status_code = 0;
-            http_connection->http_parser->method = 0;
-            http_connection->http_parser->upgrade = 0;
-            http_connection->http_parser->_content_length = 0;
+        if(http_parser->state == STATE_START_REQ) {
+            /* resets the HTTP parser state, so that no value from
+            the message that has just been parsed is going to be
+            re-used in the parsing of the next one */
+            http_parser->header_state = 0;
+            http_parser->read_count = 0;
+            http_parser->content_length = -1;
+            http_parser->upgrade = 0;
+            http_parser->_content_length = 0;
 
             /* resets the internal parser state values */
-            http_connection->http_parser->header_field_mark = 0;
-            http_connection->http_parser->header_value_mark = 0;
-            http_connection->http_parser->url_mark = 0;
+            http_parser->header_field_mark = 0;
+            http_parser->header_value_mark = 0;
+            http_parser->url_mark = 0;
+
+            /* updates the offset to the beginning of the next message,
+            the data located before it is no longer required */
+            http_connection->message_offset = http_connection->read_offset;
 
             /* in case the current HTTP connection read offset has reached
-            the buffer size it's time to reset the buffer (no more data to
-            be processed), the buffer size should come from the content length
-            value of the actual message */
-            if(http_connection->read_offset == http_connection->buffer_size) {
+            the buffer offset it's time to reset the buffer (no more data to
+            be processed) */
+            if(http_connection->read_offset == http_connection->buffer_offset) {
                 /* releases the current HTTP connection buffer and then
                 unsets the buffer from the connection and updates the size
                 of it to the initial empty value (buffer reset) */
@@ -322,13 +367,10 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
                 http_connection->buffer_size = 0;
                 http_connection->buffer_offset = 0;
                 http_connection->read_offset = 0;
+                http_connection->message_offset = 0;
             }
         }
 
-        /* in case all the data has been read from the connection
-        buffer must break the loop */
-        if(http_connection->read_offset == http_connection->buffer_size) { break; }
-
         /* in case all the remaining data has been processed
         no need to process more HTTP data (breaks the loop) */
         if(processed_size == 0 || (size_t) processed_size == _read_size) { break; }
diff --git a/src/viriatum/stream/stream_http.h b/src/viriatum/stream/stream_http.h
index 128b11a..7c54317 100644
--- a/src/viriatum/stream/stream_http.h
+++ b/src/viriatum/stream/stream_http.h
@@ -227,6 +227,13 @@ typedef struct http_connection_t {
      */
     size_t read_offset;
 
+    /**
+     * The offset to the first byte of the message currently
+     * under processing (or the next one) in the buffer, the
+     * data located before it is no longer required.
+     */
+    size_t message_offset;
+
     /**
      * The lock flag that controls the data stream flood, this
      * way only one message is processed at a given time, even
-- 
2.43.0


From a952f4aa08818f02bf74aa8074a59b46635095f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 05/71] fix: accept chunked and upgrade requests, reject
 overflowing lengths

A chunked body aborted the process (assertion on a counter that is never
incremented), a request with an upgrade header left the parser in the state
of a previous read and a content length or chunk size overflowed its type.
---
 src/viriatum/http/http_parser.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index d24946e..710efd8 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -29,6 +29,8 @@
 
 #include "http_parser.h"
 
+#include <limits.h>
+
 int http_should_keep_alive(struct http_parser_t *http_parser) {
     /* in case the request is of type HTTP 1.1 */
     if(http_parser->http_major > 0 && http_parser->http_minor > 0) {
@@ -1387,6 +1389,13 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             goto error;
                         }
 
+                        /* verifies that the content length fits the value that
+                        is used to represent it (avoids overflow) */
+                        if(http_parser->content_length > (INT_MAX - (byte - '0')) / 10) {
+                            /*SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);*/
+                            goto error;
+                        }
+
                         http_parser->content_length *= 10;
                         http_parser->content_length += byte - '0';
 
@@ -1537,13 +1546,9 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         }
                     }
 
-                    /* Exit, the rest of the connect is in a different protocol. */
-                    if(http_parser->upgrade) {
-                        HTTP_CALLBACK(message_complete);
-
-                        return (int) (pointer - data) + 1;
-                    }
-
+                    /* note that no upgrade of protocol is ever accepted by the
+                    handlers and so the message is going to be processed as any
+                    other message (the upgrade header is ignored) */
                     if(http_parser->flags & FLAG_SKIPBODY) {
                         HTTP_CALLBACK(message_complete);
                         state = NEW_MESSAGE();
@@ -1621,7 +1626,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                 break;
 
             case STATE_CHUNK_SIZE_START:
-                assert(read_count == 1);
                 assert(http_parser->flags & FLAG_CHUNKED);
 
                 unhex_value = unhex[byte];
@@ -1661,6 +1665,13 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     goto error;
                 }
 
+                /* verifies that the chunk size fits the value that
+                is used to represent it (avoids overflow) */
+                if(http_parser->content_length > (INT_MAX - unhex_value) / 16) {
+                    /*SET_ERRNO(HPE_INVALID_CHUNK_SIZE);*/
+                    goto error;
+                }
+
                 http_parser->content_length *= 16;
                 http_parser->content_length += unhex_value;
 
-- 
2.43.0


From 69d3e4b09717ff16a16918d3230a30bd8da11f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 06/71] fix: do not close the service socket twice

The listening socket closed with its connection (or by an error in the start
of the service) was closed again when the service was deleted.
---
 src/viriatum/system/service.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 69b19c6..b6fcdc8 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -84,6 +84,12 @@ void delete_service(struct service_t *service) {
         SOCKET_CLOSE(service->service_socket_handle);
     }
 
+    /* in case the (ip6) service socket handle is defined and set
+    must close the it using the safe approach (gracefully) */
+    if(service->service_socket6_handle) {
+        SOCKET_CLOSE(service->service_socket6_handle);
+    }
+
     /* in case the service configuration is defined and set
     must close the it using the safe approach (gracefully) */
     if(service->configuration) {
@@ -596,6 +602,7 @@ ERROR_CODE start_service(struct service_t *service) {
     if(SOCKET_TEST_ERROR(service->service_socket_handle)) {
         SOCKET_ERROR_CODE creating_error_code = SOCKET_GET_ERROR_CODE(socket_result);
         V_ERROR_F("Problem creating socket: %d\n", creating_error_code);
+        service->service_socket_handle = 0;
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem creating socket"
@@ -627,6 +634,7 @@ ERROR_CODE start_service(struct service_t *service) {
         SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
         V_ERROR_F("Problem setting socket option: %d\n", option_error_code);
         SOCKET_CLOSE(service->service_socket_handle);
+        service->service_socket_handle = 0;
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem setting socket option"
@@ -707,6 +715,7 @@ ERROR_CODE start_service(struct service_t *service) {
         if(SOCKET_TEST_ERROR(service->service_socket6_handle)) {
             SOCKET_ERROR_CODE creating_error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem creating ip6 socket: %d\n", creating_error_code);
+            service->service_socket6_handle = 0;
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem creating ip6 socket"
@@ -741,6 +750,7 @@ ERROR_CODE start_service(struct service_t *service) {
             SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem setting ip6 socket option: %d\n", option_error_code);
             SOCKET_CLOSE(service->service_socket6_handle);
+            service->service_socket6_handle = 0;
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem setting ip6 socket option"
@@ -764,6 +774,7 @@ ERROR_CODE start_service(struct service_t *service) {
             SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem setting ip6 socket option: %d\n", option_error_code);
             SOCKET_CLOSE(service->service_socket6_handle);
+            service->service_socket6_handle = 0;
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem setting ip6 socket option"
@@ -809,6 +820,7 @@ ERROR_CODE start_service(struct service_t *service) {
         if it did closes the socket and returns in error (major problem) */
         if(SOCKET_EX_TEST_ERROR(socket_result)) {
             SOCKET_CLOSE(service->service_socket_handle);
+            service->service_socket_handle = 0;
             V_ERROR("Problem loading the ssl certificate file (*.crt)\n");
             V_WARNING_F("Using certificate file path (%s)\n", _config_path);
             RAISE_ERROR_M(
@@ -839,6 +851,7 @@ ERROR_CODE start_service(struct service_t *service) {
         if it did closes the socket and returns in error (major problem) */
         if(SOCKET_EX_TEST_ERROR(socket_result)) {
             SOCKET_CLOSE(service->service_socket_handle);
+            service->service_socket_handle = 0;
             V_ERROR("Problem loading the ssl key file (*.key)\n");
             V_WARNING_F("Using key file path (%s)\n", _config_path);
             RAISE_ERROR_M(
@@ -862,6 +875,7 @@ ERROR_CODE start_service(struct service_t *service) {
         /* closes the service socket and raises an error indicating
         the problem binding the socket */
         SOCKET_CLOSE(service->service_socket_handle);
+        service->service_socket_handle = 0;
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem binding socket"
@@ -881,6 +895,7 @@ ERROR_CODE start_service(struct service_t *service) {
         /* closes the service socket and raises an error indicating
         the problem listening the socket */
         SOCKET_CLOSE(service->service_socket_handle);
+        service->service_socket_handle = 0;
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem listening socket"
@@ -919,6 +934,7 @@ ERROR_CODE start_service(struct service_t *service) {
             /* closes the service socket and raises an error indicating
             the problem listening the socket */
             SOCKET_CLOSE(service->service_socket_handle);
+            service->service_socket_handle = 0;
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem binding socket"
@@ -938,6 +954,7 @@ ERROR_CODE start_service(struct service_t *service) {
             /* closes the service socket and raises an error indicating
             the problem listening the socket */
             SOCKET_CLOSE(service->service_socket_handle);
+            service->service_socket_handle = 0;
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem listening socket"
@@ -1220,6 +1237,11 @@ ERROR_CODE close_connections_service(struct service_t *service) {
         current_connection->close_connection(current_connection);
     }
 
+    /* unsets the handles of the service sockets as these sockets have
+    just been closed together with the connections that owned them */
+    service->service_socket_handle = 0;
+    service->service_socket6_handle = 0;
+
 #ifdef VIRIATUM_SSL
     /* closes the ssl context for the current serice, this should disable
     all the metadata access to the ssl */
-- 
2.43.0


From 8e60e589742caa846d782a1a1afb1dd09a050034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 07/71] fix: send no body in the response to HEAD requests

---
 .../src/viriatum_mod_diag/module/handler.c    |  6 ++++--
 .../src/viriatum_mod_gif/module/handler.c     |  6 ++++--
 src/viriatum/handlers/handler_file.c          | 14 ++++++++++---
 src/viriatum/http/http_util.c                 | 21 +++++++++++++++++--
 4 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/modules/mod_diag/src/viriatum_mod_diag/module/handler.c b/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
index c833e36..f34b826 100644
--- a/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
+++ b/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
@@ -142,8 +142,10 @@ ERROR_CODE _send_response_handler_diag(struct http_parser_t *http_parser) {
         CONTENT_TYPE_H ": %s\r\n\r\n",
         "application/json"
     );
-    memcpy(&buffer[count], info, info_size);
-    count += info_size;
+    if(http_parser->method != HTTP_HEAD) {
+        memcpy(&buffer[count], info, info_size);
+        count += info_size;
+    }
 
     /* writes the response to the connection, this will write the
     complete message to the connection, upon finishing the sent operation
diff --git a/modules/mod_gif/src/viriatum_mod_gif/module/handler.c b/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
index f0bb13b..cd8b44f 100644
--- a/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
+++ b/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
@@ -103,8 +103,10 @@ ERROR_CODE _send_response_handler_gif(struct http_parser_t *http_parser) {
         CONTENT_TYPE_H ": %s\r\n\r\n",
         "image/gif"
     );
-    memcpy(&buffer[count], _empty_gif, _empty_gif_size);
-    count += _empty_gif_size;
+    if(http_parser->method != HTTP_HEAD) {
+        memcpy(&buffer[count], _empty_gif, _empty_gif_size);
+        count += _empty_gif_size;
+    }
 
     /* writes the response to the connection, this will write the
     complete message to the connection, upon finishing the sent operation
diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f68fc89..5de6b12 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -456,6 +456,10 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     HTTP message processing or not */
     unsigned char keep_alive;
 
+    /* allocates space for the flag that controls if only the headers
+    of the response are meant to be sent (no body) */
+    unsigned char is_head;
+
     /* allocates space for the size of the url string to
     be calculates and for the folder path variable */
     size_t url_size;
@@ -499,6 +503,10 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     this values is going to be used for headers generation */
     keep_alive = flags & FLAG_KEEP_ALIVE;
 
+    /* verifies if the request is a HEAD one, the response to this kind
+    of requests must include no body (message ends with the headers) */
+    is_head = http_parser->method == HTTP_HEAD;
+
     /* acquires the lock on the HTTP connection, this will avoids further
     messages to be processed, no parallel request handling problems */
     http_connection->acquire(http_connection);
@@ -755,7 +763,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_data_handler_file,
+            is_head ? _cleanup_handler_file : _send_data_handler_file,
             handler_file_context
         );
     }
@@ -834,7 +842,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_chunk_handler_file,
+            is_head ? _cleanup_handler_file : _send_chunk_handler_file,
             handler_file_context
         );
     }
@@ -891,7 +899,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_chunk_handler_file,
+            is_head ? _cleanup_handler_file : _send_chunk_handler_file,
             handler_file_context
         );
     }
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 1d4eeb0..811ef4e 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -28,6 +28,21 @@
 #include "stdafx.h"
 
 #include "http_util.h"
+#include "../stream/stream.h"
+
+/**
+ * Verifies if the message under processing in the provided
+ * connection is a HEAD request, as the response to this kind
+ * of request includes no body (only the headers).
+ *
+ * @param connection The (HTTP) connection to be verified.
+ * @return If the request in the connection is a HEAD request.
+ */
+static unsigned char _is_head_http(struct connection_t *connection) {
+    struct io_connection_t *io_connection = (struct io_connection_t *) connection->lower;
+    struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
+    return http_connection->http_parser->method == HTTP_HEAD;
+}
 
 size_t write_http_headers(
     struct connection_t *connection,
@@ -170,7 +185,7 @@ size_t write_http_headers_m(
         cache,
         TRUE
     );
-    memcpy(&buffer[count], message, content_length + 1);
+    if(!_is_head_http(connection)) { memcpy(&buffer[count], message, content_length + 1); }
 
     /* returns the number of bytes written into the buffer */
     return count;
@@ -360,7 +375,9 @@ ERROR_CODE write_http_error_a(
         the headers and then the resulting contents from the template handler */
         create_string_buffer(&string_buffer);
         append_string_buffer(string_buffer, (unsigned char *) headers_buffer);
-        append_string_buffer(string_buffer, template_handler->string_value);
+        if(!_is_head_http(connection)) {
+            append_string_buffer(string_buffer, template_handler->string_value);
+        }
         join_string_buffer(string_buffer, &result_buffer);
         result_length = string_buffer->string_length;
         delete_string_buffer(string_buffer);
-- 
2.43.0


From 99c8dec88d7b5fc9674e036fef1e12b52e230aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:40 +0000
Subject: [PATCH 08/71] fix: bound the request values copied by the file
 handler

---
 src/viriatum/handlers/handler_file.c | 267 ++++++++++++++++-----------
 1 file changed, 155 insertions(+), 112 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 5de6b12..25c3a9f 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -29,6 +29,110 @@
 
 #include "handler_file.h"
 
+/**
+ * Copies the value of an header into the (fixed size) buffer
+ * of the context, values that do not fit are ignored.
+ *
+ * @param buffer The buffer to be populated with the value.
+ * @param size The size of the buffer.
+ * @param data The value of the header.
+ * @param data_size The size of the value of the header.
+ * @return The resulting status of the header (two in case
+ * the value was copied).
+ */
+static unsigned char _copy_value_handler_file(unsigned char *buffer, size_t size, const unsigned char *data, size_t data_size) {
+    if(data_size >= size) { return 1; }
+    memcpy(buffer, data, data_size);
+    buffer[data_size] = '\0';
+    return 2;
+}
+
+/**
+ * Sets the url (and the decoded url) in the context from
+ * the path part of the request, an url that does not fit
+ * in the context is considered to be empty.
+ *
+ * @param handler_file_context The context to be updated.
+ * @param data The path of the request.
+ * @param data_size The size of the path of the request.
+ */
+static void _set_url_handler_file(struct handler_file_context_t *handler_file_context, const unsigned char *data, size_t data_size) {
+    /* allocates memory for the size of the decoded url */
+    size_t decoded_size;
+    ERROR_CODE error_code;
+
+    /* copies the memory from the data to the url and then
+    puts the end of string in the url */
+    if(data_size >= VIRIATUM_MAX_URL_SIZE) { data_size = 0; }
+    memcpy(handler_file_context->url, data, data_size);
+    handler_file_context->url[data_size] = '\0';
+
+    /* decodes the url for the percent encoding, this method
+    uses constant (pre-allocated) memory for fast performance */
+    error_code = decode_percent(
+        handler_file_context->url,
+        data_size,
+        handler_file_context->url_d,
+        &decoded_size
+    );
+    if(IS_ERROR_CODE(error_code)) { handler_file_context->url_d[0] = '\0'; }
+}
+
+/**
+ * Sets the (decoded) file path in the context by joining the
+ * base path with the (percent encoded) partial url. In case the
+ * url is not valid the file path is set to an empty string, a
+ * path for which there's no file.
+ *
+ * @param handler_file_context The context to be updated.
+ * @param base_path The base path for the file.
+ * @param prefix The prefix to be added to the partial url.
+ * @param partial_url The url relative to the base path.
+ */
+static void _set_path_handler_file(struct handler_file_context_t *handler_file_context, const char *base_path, const char *prefix, const unsigned char *partial_url) {
+    /* allocates memory for the sizes of the various
+    parts of the path and for the error code */
+    size_t base_size;
+    size_t file_path_size;
+    size_t decoded_size;
+    ERROR_CODE error_code;
+
+    /* retrieves the reference to the buffer that is going to
+    hold the decoded path and starts it with the empty string */
+    unsigned char *file_path_d = handler_file_context->file_path_d;
+    file_path_d[0] = '\0';
+
+    /* in case there's no valid url (eg: it's too long) no
+    file is able to be found for the request */
+    if(handler_file_context->url[0] == '\0') { return; }
+
+    /* creates the file path using the base path and verifies
+    that the complete path fits in the buffer */
+    base_size = strlen(base_path) + strlen(prefix);
+    file_path_size = SPRINTF(
+        (char *) handler_file_context->file_path,
+        VIRIATUM_MAX_PATH_SIZE,
+        "%s%s%s",
+        base_path,
+        prefix,
+        partial_url
+    );
+    if(file_path_size >= VIRIATUM_MAX_PATH_SIZE) { return; }
+
+    /* decodes the url part of the path for the percent encoding
+    a path with an encoded end of string is not valid */
+    memcpy(file_path_d, handler_file_context->file_path, base_size);
+    error_code = decode_percent(
+        &handler_file_context->file_path[base_size],
+        file_path_size - base_size,
+        &file_path_d[base_size],
+        &decoded_size
+    );
+    if(IS_ERROR_CODE(error_code) || strlen((char *) &file_path_d[base_size]) != decoded_size) {
+        file_path_d[0] = '\0';
+    }
+}
+
 ERROR_CODE create_file_handler(struct file_handler_t **file_handler_pointer, struct http_handler_t *http_handler) {
     /* retrieves the file handler size */
     size_t file_handler_size = sizeof(struct file_handler_t);
@@ -253,14 +357,6 @@ ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser
 }
 
 ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context =\
         (struct handler_file_context_t *) http_parser->context;
@@ -270,42 +366,22 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
-    /* copies the memory from the data to the url and then
-    puts the end of string in the url, note that only the path
-    part of the string is used for the url */
-    memcpy(handler_file_context->url, data, path_size);
-    handler_file_context->url[path_size] = '\0';
+    /* copies the memory from the data to the url, note that
+    only the path part of the string is used for the url */
+    _set_url_handler_file(handler_file_context, data, path_size);
 
     /* prints a debug message */
     V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
 
     /* creates the file path using the base viriatum path
     this should be the complete absolute path */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s%s",
+    _set_path_handler_file(
+        handler_file_context,
         VIRIATUM_CONTENTS_PATH,
         VIRIATUM_BASE_PATH,
         handler_file_context->url
     );
 
-    /* decodes the url and file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance the resulting
-    value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        path_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
-
     /* raise no error */
     RAISE_NO_ERROR;
 }
@@ -373,27 +449,39 @@ ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser,
     to undefined no parsing will exist */
     switch(handler_file_context->next_header) {
         case ETAG:
-            memcpy(handler_file_context->etag, data, 10);
-            handler_file_context->etag[10] = '\0';
-            handler_file_context->etag_status = 2;
+            handler_file_context->etag_status = _copy_value_handler_file(
+                handler_file_context->etag,
+                sizeof(handler_file_context->etag),
+                data,
+                data_size
+            );
             break;
 
         case CACHE_CONTROL:
-            memcpy(handler_file_context->cache_control, data, data_size);
-            handler_file_context->cache_control[data_size] = '\0';
-            handler_file_context->cache_control_status = 2;
+            handler_file_context->cache_control_status = _copy_value_handler_file(
+                handler_file_context->cache_control,
+                sizeof(handler_file_context->cache_control),
+                data,
+                data_size
+            );
             break;
 
         case AUTHORIZATION:
-            memcpy(handler_file_context->authorization, data, data_size);
-            handler_file_context->authorization[data_size] = '\0';
-            handler_file_context->authorization_status = 2;
+            handler_file_context->authorization_status = _copy_value_handler_file(
+                handler_file_context->authorization,
+                sizeof(handler_file_context->authorization),
+                data,
+                data_size
+            );
             break;
 
         case RANGE:
-            memcpy(handler_file_context->range, data, data_size);
-            handler_file_context->range[data_size] = '\0';
-            handler_file_context->range_status = 2;
+            handler_file_context->range_status = _copy_value_handler_file(
+                handler_file_context->range,
+                sizeof(handler_file_context->range),
+                data,
+                data_size
+            );
             break;
 
         default:
@@ -437,7 +525,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the new location value for
     redirect request cases and for the path to the
     template (for directory listing) */
-    unsigned char location[VIRIATUM_MAX_PATH_SIZE];
+    unsigned char location[VIRIATUM_MAX_URL_SIZE + 1];
     unsigned char template_path[VIRIATUM_MAX_PATH_SIZE];
 
     /* allocates space for the computation of the time
@@ -463,7 +551,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the size of the url string to
     be calculates and for the folder path variable */
     size_t url_size;
-    char folder_path[VIRIATUM_MAX_PATH_SIZE];
+    char folder_path[VIRIATUM_MAX_URL_SIZE];
 
     /* allocates space for the temporary buffer that will hold
     the description of the error to be sent to the client in case
@@ -536,12 +624,13 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     if(is_directory) {
         /* in case the current url does not ends with the trailing slash must
         redirect the user agent to the same location but with the trauling slash */
-        if(handler_file_context->url[strlen((char *) handler_file_context->url) - 1] != '/') {
+        url_size = strlen((char *) handler_file_context->url);
+        if(url_size == 0 || handler_file_context->url[url_size - 1] != '/') {
             /* creates the new location by adding the slash character to the current
             handler file context url (avoids directory confusion) */
-            memcpy(location, handler_file_context->url, strlen((char *) handler_file_context->url));
-            location[strlen((char *) handler_file_context->url)] = '/';
-            location[strlen((char *) handler_file_context->url) + 1] = '\0';
+            memcpy(location, handler_file_context->url, url_size);
+            location[url_size] = '/';
+            location[url_size + 1] = '\0';
 
             /* sets the is redirect flag (forces temporary redirect) */
             is_redirect = TRUE;
@@ -909,25 +998,15 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
 }
 
 ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* retrieves the handler file context from the HTTP parser
     and uses it to retrieve the reference to the base path in context */
     struct handler_file_context_t *handler_file_context =\
         (struct handler_file_context_t *) http_parser->context;
     unsigned char *base_path = handler_file_context->base_path;
 
-    /* copies the memory from the data to the url and then
-    puts the end of string in the url, note that only the path
-    part of the string is used for the url */
-    memcpy(handler_file_context->url, data, data_size);
-    handler_file_context->url[data_size] = '\0';
+    /* copies the memory from the data to the url, note that
+    only the path part of the string is used for the url */
+    _set_url_handler_file(handler_file_context, data, data_size);
 
     /* prints a debug message */
     V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
@@ -937,10 +1016,8 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
     if(base_path == NULL) {
         /* creates the file path using the base viriatum path
         this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s%s",
+        _set_path_handler_file(
+            handler_file_context,
             VIRIATUM_CONTENTS_PATH,
             VIRIATUM_BASE_PATH,
             handler_file_context->url
@@ -951,44 +1028,19 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
     else {
         /* creates the file path using the base viriatum path
         this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s",
-            base_path,
+        _set_path_handler_file(
+            handler_file_context,
+            (char *) base_path,
+            "",
             handler_file_context->url
         );
     }
 
-    /* decodes the url and file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance the resulting
-    value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        data_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
-
     /* raise no error */
     RAISE_NO_ERROR;
 }
 
 ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, size_t index, size_t offset) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* allocates space for the partial url, resulting from the
     remaining part from the matching of the location */
     unsigned char *partial_url;
@@ -1020,29 +1072,20 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
     if(location->base_path == NULL) { RAISE_NO_ERROR; }
 
     /* retrieves the partial url match by "removing" the initial part
-    of the url in context */
+    of the url in context (that is empty in case it's too long) */
+    if(offset > strlen((char *) handler_file_context->url)) { RAISE_NO_ERROR; }
     partial_url = &handler_file_context->url[offset];
 
     /* creates the file path using the base viriatum path
     this should be the complete absolute path, note that
     only the partial url is used (offset from location) */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s",
-        location->base_path,
+    _set_path_handler_file(
+        handler_file_context,
+        (char *) location->base_path,
+        "",
         partial_url
     );
 
-    /* decodes the file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance */
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
-
     /* raise no error */
     RAISE_NO_ERROR;
 }
-- 
2.43.0


From 11ff0c40d937d34f4b9d054c61369b9f15602e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:41 +0000
Subject: [PATCH 09/71] fix: match the locations against the decoded path

---
 src/viriatum/handlers/handler_dispatch.c | 156 +++++++++++++++--------
 1 file changed, 101 insertions(+), 55 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index d608614..6d6e7f0 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -178,15 +178,81 @@ ERROR_CODE message_begin_callback_handler_dispatch(struct http_parser_t *http_pa
     RAISE_NO_ERROR;
 }
 
-ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
 #ifdef VIRIATUM_PCRE
+/**
+ * Matches the path against the regular expressions of the
+ * locations. The match is done using the decoded version of
+ * the path (percent encoding, duplicated slashes and current
+ * directory references are resolved), so that all of the names
+ * of a resource select the same location.
+ *
+ * @param dispatch_handler The dispatch handler that contains
+ * the regular expressions.
+ * @param path The path to be matched.
+ * @param path_size The size of the path to be matched, should
+ * be smaller than the maximum url size.
+ * @param offset The pointer to the offset (in the original path)
+ * to the virtual url, set in case there's a match.
+ * @return The index of the location that matched the path or the
+ * number of locations in case there's no match.
+ */
+static size_t _match_handler_dispatch(struct dispatch_handler_t *dispatch_handler, const unsigned char *path, size_t path_size, size_t *offset) {
+    unsigned char byte;
     int matching;
     size_t index;
-    size_t _index;
-    size_t match_size;
-    size_t virtual_url_offset;
+    size_t size = 0;
+    size_t position = 0;
     int offsets[3] = { 0, 0, 0 };
-    char regex_match = 0;
+
+    /* allocates space for the decoded path and for the position
+    of each of its bytes in the original path */
+    char path_d[VIRIATUM_MAX_URL_SIZE];
+    size_t positions[VIRIATUM_MAX_URL_SIZE];
+
+    /* iterates over the complete path to decode it */
+    while(position < path_size) {
+        positions[size] = position;
+        byte = path[position++];
+        if(byte == '%' && position + 1 < path_size) {
+            byte = from_hex(path[position]) << 4 | from_hex(path[position + 1]);
+            position += 2;
+        } else if(byte == '+') { byte = ' '; }
+        if(byte == '/' && size > 0 && path_d[size - 1] == '/') { continue; }
+        if(byte == '/' && size > 1 && path_d[size - 1] == '.' && path_d[size - 2] == '/') { size--; continue; }
+        path_d[size++] = byte;
+    }
+    positions[size] = position;
+
+    /* iterates over all the regular expressions so that they
+    may be tested agains the current path */
+    for(index = 0; index < dispatch_handler->regex_count; index++) {
+        /* tries to match the current path against the registered
+        regular expression in case it fails continues the loop */
+        matching = pcre_exec(
+            dispatch_handler->regex[index], NULL, path_d,
+            size, 0, 0, offsets, 3
+        );
+        if(matching < 0) { continue; }
+
+        /* calculates the offset to the virtual url taking into account
+        if the matched value ends with a slash value for such cases the
+        offset to the virtual url must be reduced otherwise abnormal values
+        to the url would be considered (creating additional path problems) */
+        *offset = offsets[1] > 0 && path_d[offsets[1] - 1] == '/' ?\
+            positions[offsets[1] - 1] : positions[offsets[1]];
+        break;
+    }
+
+    /* returns the index of the location that was matched */
+    return index;
+}
+#endif
+
+ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
+#ifdef VIRIATUM_PCRE
+    size_t index;
+    size_t _index;
+    size_t virtual_url_offset = 0;
 #endif
 
     /* allocates space for the pointer to the index file name
@@ -199,9 +265,11 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     used for the dispatching operation (target handler) */
     unsigned char *handler_name;
 
-    /* allocates the required space for the path and the
-    base path, this is done through static allocation */
+    /* allocates the required space for the path (and its decoded
+    version) and the base path, this is done through static allocation */
+    size_t decoded_size;
     unsigned char path[VIRIATUM_MAX_URL_SIZE];
+    unsigned char path_d[VIRIATUM_MAX_URL_SIZE];
     unsigned char base_path[VIRIATUM_MAX_URL_SIZE];
 
     /* retrieves the various connection elements and lower substrates
@@ -222,6 +290,13 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
+    /* in case the path is too long to be handled returns immediately
+    keeping the current handler (an error is sent to the client) */
+    if(path_size + sizeof(options->index[0]) > VIRIATUM_MAX_URL_SIZE) {
+        V_ERROR("The path of the request is too long\n");
+        RAISE_NO_ERROR;
+    }
+
     /* copies the memory from the data to the path (partial url),
     then puts the end of string in the path */
     memcpy(path, data, path_size);
@@ -232,24 +307,10 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     handler_name = (unsigned char *) DISPATCH_DEFAULT_HANDLER;
 
 #ifdef VIRIATUM_PCRE
-    /* iterates over all the regular expressions so that they
-    may be tested agains the current path */
-    for(index = 0; index < dispatch_handler->regex_count; index++) {
-        /* tries to match the current path against the registered
-        regular expression in case it fails continues the loop */
-        matching = pcre_exec(
-            dispatch_handler->regex[index], NULL, (char *) path,
-            path_size, 0, 0, offsets, 3
-        );
-        if(matching < 0) { continue; }
-
-        /* sets the name of the handler as the name in the current index
-        and updates the match flag and the breaks the loop to process it */
-        handler_name = dispatch_handler->names[index];
-        regex_match = 1;
-        match_size = (size_t) offsets[1];
-        break;
-    }
+    /* matches the path against the various locations and in case
+    there's a match uses the handler defined for the location */
+    index = _match_handler_dispatch(dispatch_handler, path, path_size, &virtual_url_offset);
+    if(index < dispatch_handler->regex_count) { handler_name = dispatch_handler->names[index]; }
 
     /* prints a debug message about the selection of the handler
     using the current regular expression engine */
@@ -273,7 +334,8 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             /* creates the base path from the viriatum contents path
             and the current provided path and then runs the file existence
             validation process using the index array provided */
-            SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", VIRIATUM_CONTENTS_PATH, path);
+            if(IS_ERROR_CODE(decode_percent(path, path_size, path_d, &decoded_size))) { path_d[0] = '\0'; }
+            SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", VIRIATUM_CONTENTS_PATH, path_d);
             index_ = validate_file((char *) base_path, (char *) options->index, 32, 128);
 
             /* in case the index file resolution was successfull
@@ -292,34 +354,23 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                 path[path_size] = '\0';
 
 #ifdef VIRIATUM_PCRE
-                /* saves the current match index so that it's possible
-                to detect if the index file resolution changed the handler
-                for the current request */
-                _index = index;
-
-                /* iterates over all the regular expressions so that they
-                may be tested agains the current path */
-                for(index = 0; index < dispatch_handler->regex_count; index++) {
-                    /* tries to match the current path against the registered
-                    regular expression in case it fails continues the loop */
-                    matching = pcre_exec(dispatch_handler->regex[index], NULL, (char *) path, path_size, 0, 0, offsets, 3);
-                    if(matching < 0) { continue; }
-
-                    /* sets the name of the handler as the name in the current index
-                    and updates the match flag and the breaks the loop to process it */
+                /* matches the new path, as the index file resolution may change
+                the location (and the handler) for the current request, the
+                current location is kept in case there's no match */
+                _index = _match_handler_dispatch(dispatch_handler, path, path_size, &virtual_url_offset);
+                if(_index < dispatch_handler->regex_count) {
+                    index = _index;
                     handler_name = dispatch_handler->names[index];
-                    regex_match = 1;
-                    match_size = (size_t) offsets[1];
-                    break;
+                    get_value_string_hash_map(service->http_handlers_map, handler_name, (void **) &handler);
                 }
-
-                /* in case the matching index has changed a new handler reference
-                must be retrieved from the map containing the HTTP handlers */
-                if(index != _index) { get_value_string_hash_map(service->http_handlers_map, handler_name, (void **) &handler); }
 #endif
             }
         }
+    }
 
+    /* verifies (again) that there's a valid handler, as the index
+    file resolution may have selected a different one */
+    if(handler) {
         /* retrieves the current handler and then unsets it
         from the connection (detach) then sets the the proper
         handler in the connection and notifies it of the url */
@@ -335,19 +386,14 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
         must also notify the handler about the "new" location sending
         both the index of the location in the service locations and the
         offset in the matched path of the url for virtual path resolution */
-        if(regex_match) {
-            /* calculates the offset to the virtual url taking into account
-            if the matched value starts with a slash value for such cases the
-            offset to the virtual url must be reduced otherwise abnormal values
-            to the url would be considered (creating additional path problems) */
-            virtual_url_offset = match_size > 0 && data[match_size - 1] == '/' ?\
-                match_size - 1 : match_size;
+        if(index < dispatch_handler->regex_count) {
             CALL_V(
                 http_connection->http_settings->on_location,
                 http_parser,
                 index,
                 virtual_url_offset
             );
+            if(virtual_url_offset > data_size) { virtual_url_offset = data_size; }
             CALL_V(
                 http_connection->http_settings->on_virtual_url,
                 http_parser,
-- 
2.43.0


From c2183d17ab6d06382215a5078870735f34f48695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:41 +0000
Subject: [PATCH 10/71] fix: do not serve files outside of the served directory

---
 src/viriatum/handlers/handler_file.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 25c3a9f..3d46cef 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -78,6 +78,26 @@ static void _set_url_handler_file(struct handler_file_context_t *handler_file_co
     if(IS_ERROR_CODE(error_code)) { handler_file_context->url_d[0] = '\0'; }
 }
 
+/**
+ * Verifies if the provided (decoded) path contains a segment
+ * that references the parent directory, such path may be used
+ * to leave the directory being served.
+ *
+ * @param path The path to be verified.
+ * @return If the path contains a reference to a parent directory.
+ */
+static unsigned char _has_parent_handler_file(const char *path) {
+    const char *pointer = path;
+    while((pointer = strstr(pointer, "..")) != NULL) {
+        if((pointer == path || pointer[-1] == '/' || pointer[-1] == '\\') &&
+            (pointer[2] == '\0' || pointer[2] == '/' || pointer[2] == '\\')) {
+            return TRUE;
+        }
+        pointer++;
+    }
+    return FALSE;
+}
+
 /**
  * Sets the (decoded) file path in the context by joining the
  * base path with the (percent encoded) partial url. In case the
@@ -130,6 +150,13 @@ static void _set_path_handler_file(struct handler_file_context_t *handler_file_c
     );
     if(IS_ERROR_CODE(error_code) || strlen((char *) &file_path_d[base_size]) != decoded_size) {
         file_path_d[0] = '\0';
+        return;
+    }
+
+    /* in case the url part of the path tries to reach a parent
+    directory the path is not considered to be valid */
+    if(_has_parent_handler_file((char *) &file_path_d[base_size])) {
+        file_path_d[0] = '\0';
     }
 }
 
-- 
2.43.0


From 43efc9c003184d65c1d6299e1a0c5ba2cc6ae79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 11/71] fix: reject base 64 values with an invalid size

---
 src/viriatum_commons/encoding/base_64.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 4913570..721efaf 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -65,6 +65,15 @@ ERROR_CODE decode_base64(
     /* retrieves the padding count from the encoded buffer */
     unsigned int padding_count = _get_padding_count(encoded_buffer, encoded_buffer_length);
 
+    /* verifies that the encoded buffer has a valid size (and padding)
+    otherwise the decoding would exceed the size of the buffers */
+    if(encoded_buffer_length % 4 != 0 || padding_count > 2) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid base 64 value"
+        );
+    }
+
     /* allocates the decoded buffer according to the pre-defined
     rules and then assigns the decoded buffer length */
     _allocate_decoded_buffer(
@@ -295,6 +304,9 @@ unsigned int _get_padding_count(unsigned char *encoded_buffer, size_t encoded_bu
     /* allocates the padding count */
     int padding_count = 0;
 
+    /* in case the buffer is empty there's no padding */
+    if(encoded_buffer_length == 0) { return 0; }
+
     /* iterates over the encoded buffer */
     for(index = (unsigned int) encoded_buffer_length - 1; index > 0 ; index--) {
         /* retireve the current value */
-- 
2.43.0


From a08c629b90a7ce0c6d0ec8376496cedfd9d3cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 12/71] fix: load the last line of the passwd file and survive
 its errors

---
 src/viriatum_commons/formats/passwd.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 6bedccf..2ba4eb5 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -56,6 +56,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     (static memory) as it's not going to be stored in map */
     char username[128];
     char *password;
+    char *previous;
 
     /* creates the "final" hash map that is going to be used to
     associated a username with a password and then allocates the
@@ -67,6 +68,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     provided path an in case an error occurs re-raises it */
     return_value = read_file(file_path, &buffer, &size);
     if(IS_ERROR_CODE(return_value)) {
+        delete_hash_map(passwd);
         RAISE_ERROR_F(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading file %s",
@@ -80,11 +82,12 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     state = PASSWD_USER;
 
     /* iterates over the buffer contents in its range to parse
-    it and populate the passwd hash map structure */
-    for(index = 0; index < size; index++) {
+    it and populate the passwd hash map structure, the end of
+    the buffer is handled as the end of its last line */
+    for(index = 0; index <= size; index++) {
         /* retrieves the current byte in iteration and the pointer
         address to the current buffer position */
-        current = buffer[index];
+        current = index < size ? buffer[index] : '\n';
         pointer = &buffer[index];
 
         /* switches over the current state to operate over the current
@@ -95,10 +98,14 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
                     case ':':
                     case '\n':
                         length = pointer - mark;
-                        memcpy(username, mark, length);
-                        username[length] = '\0';
                         mark = pointer + 1;
                         state = current == ':' ? PASSWD_PASSWORD : PASSWD_USER;
+                        if(length >= sizeof(username)) {
+                            state = current == ':' ? PASSWD_COMMENT : PASSWD_USER;
+                            break;
+                        }
+                        memcpy(username, pointer - length, length);
+                        username[length] = '\0';
                         break;
                 }
 
@@ -113,6 +120,12 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
                         memcpy(password, mark, length);
                         password[length] = '\0';
                         mark = pointer + 1;
+                        get_value_string_hash_map(
+                            passwd,
+                            (unsigned char *) username,
+                            (void **) &previous
+                        );
+                        if(previous != NULL) { FREE(previous); }
                         set_value_string_hash_map(
                             passwd,
                             (unsigned char *) username,
-- 
2.43.0


From 45266eda8cd21e917db3d3a8ed9c4892ce5da455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 13/71] fix: refuse malformed credentials in the HTTP
 authorization

---
 src/viriatum/http/http_util.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 811ef4e..1913239 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -561,7 +561,14 @@ ERROR_CODE log_http_request(char *host, char *identity, char *user, char *method
 }
 
 ERROR_CODE auth_http(char *auth_file, char *authorization, unsigned char *result) {
-    unsigned char is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
+    unsigned char is_default;
+
+    /* the authorization is only valid in case there's an explicit
+    confirmation of it (errors in the process invalidate it) */
+    *result = FALSE;
+    if(auth_file == NULL) { RAISE_NO_ERROR; }
+
+    is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
     if(is_default) { auth_default_http(auth_file, authorization, result); }
     else { auth_file_http(auth_file, authorization, result); }
     RAISE_NO_ERROR;
@@ -647,6 +654,16 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     username_size = password_pointer - authorization_d - 1;
     password_size = authorization_d + authorization_size - password_pointer;
 
+    /* verifies that both values fit in the buffers, longer
+    values are not supported (considered not valid) */
+    if(username_size >= sizeof(username) || password_size >= sizeof(password)) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Authorization value is too long"
+        );
+    }
+
     /* copies both the username and the password values to
     the apropriate internal buffers (to be used in comparision) */
     memcpy(username, authorization_d, username_size);
@@ -657,7 +674,14 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     /* processes the passwd file using the provided file path
     for it, this is an expensive io driven operation, and must
     be used wth care */
-    process_passwd_file(auth_file, &passwd);
+    return_value = process_passwd_file(auth_file, &passwd);
+    if(IS_ERROR_CODE(return_value)) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem processing the passwd file"
+        );
+    }
 
     /* retrieves the password verification value for the
     retrieved username and in case it's valid compares it
-- 
2.43.0


From 9b5a83a938fd2a7b1252ac271496306099fc9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 14/71] fix: serve only the ranges that exist in the file

---
 src/viriatum/handlers/handler_file.c | 14 ++---
 src/viriatum/http/http_util.c        | 94 +++++++++++-----------------
 2 files changed, 42 insertions(+), 66 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 3d46cef..e774d4c 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -913,18 +913,16 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         );
     }
     /* in case the range value is set for the current file request
-    must calculate the range and retrive the associated file chunk */
-    else if(handler_file_context->range_status == 2) {
-        /* retrieves the initial and final bytes for the requested
-        range, the final range is set in accordance with the file
-        size that is provided */
-        get_http_range_limits(
+    must retrive the associated file chunk, the initial and final bytes
+    for the requested range are set in accordance with the file size, in
+    case the range is not valid it's ignored (complete file is sent) */
+    else if(handler_file_context->range_status == 2 &&\
+        !IS_ERROR_CODE(get_http_range_limits(
             handler_file_context->range,
             &handler_file_context->initial_byte,
             &handler_file_context->final_byte,
             file_size
-        );
-
+        ))) {
         /* writes the HTTP static headers to the response indicating
         that only a part of the file is going to be retrieved, then
         writes also the content range header indicating which bytes
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 1913239..9dc31fb 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -444,75 +444,53 @@ ERROR_CODE write_http_error_a(
 }
 
 ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, size_t *final_byte, size_t size) {
-    /* allocates space for the byte to be used in the iteration,
-    for the mark value and for the iteration index counter */
-    char byte;
+    /* allocates space for the pointers to be used in the parsing
+    of the range, the start and end are the limits of a number */
     char *start;
     char *end;
-    size_t mark;
-    size_t index;
+    char *pointer;
 
-    /* creates the inital and final local values and starts them
-    at the invalid (unset) values (intial state) */
-    long long initial_byte_v = -1;
-    long long final_byte_v = -1;
-
-    /* retrieves the size of the range string using the normal
-    length if a string function */
-    size_t range_s = strlen((char *) range);
-
-    /* initializes the mark value with a zero indicating that the
-    equals separator may not be found (avoids critical problems) */
-    mark = 0;
-
-    /* iterates over the range string character values to try to
-    find the various key values in it from the byte */
-    for(index = 0; index < range_s; index++) {
-        /* retrieves the current byte in iteration and runs the
-        switch testing against it */
-        byte = range[index];
-        switch(byte) {
-            case '=':
-                mark = index + 1;
-                break;
+    /* allocates space for the values of both limits */
+    unsigned long long initial_byte_v;
+    unsigned long long final_byte_v;
 
-            case '-':
-                if(index == 0) { initial_byte_v = 0; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
-                mark = index + 1;
-                break;
+    /* only the (single) byte ranges are supported, the separator
+    between both limits must also be present in the range */
+    start = (char *) range + sizeof("bytes=") - 1;
+    pointer = strncmp((char *) range, "bytes=", sizeof("bytes=") - 1) == 0 ? strchr(start, '-') : NULL;
+    if(pointer == NULL || strspn(start, "0123456789-") != strlen(start) || strchr(pointer + 1, '-') != NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Range not supported"
+        );
+    }
 
-            case '\0':
-            case ',':
-                if(index == mark) { final_byte_v = size - 1; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
-                break;
-        }
+    /* parses both limits of the range, the end of the file is going to
+    be used for the final limit in case it's not set (or is too large) */
+    initial_byte_v = (unsigned long long) STROULL(start, &end, 10);
+    final_byte_v = pointer[1] == '\0' ? size : (unsigned long long) STROULL(pointer + 1, &end, 10);
+
+    /* in case the initial limit is not set the final one represents
+    the number of bytes (from the end of the file) to be retrieved */
+    if(pointer == start) {
+        if(pointer[1] == '\0' || final_byte_v == 0) { initial_byte_v = size; }
+        else { initial_byte_v = final_byte_v < size ? size - final_byte_v : 0; }
+        final_byte_v = size;
     }
 
-    /* in case the final byte value hasn't been already
-    set time to update its value with the final byte */
-    if(final_byte_v == -1) {
-        if(index == mark) { final_byte_v = size - 1; }
-        else {
-            start = (char *) &range[mark];
-            end = (char *) &range[index - 1];
-            final_byte_v = (long long) STROULL(start, &end, 10);
-        }
+    /* in case there's nothing to be retrieved for the range
+    raises an error as the range is not satisfiable */
+    if(initial_byte_v >= size || final_byte_v < initial_byte_v) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Range not satisfiable"
+        );
     }
 
     /* updates both the initial and the final byte pointer
     references with the appropriate values */
-    *initial_byte = initial_byte_v > 0 ? (size_t) initial_byte_v : 0;
-    *final_byte = final_byte_v > 0 ? (size_t) final_byte_v : 0;
+    *initial_byte = (size_t) initial_byte_v;
+    *final_byte = final_byte_v < size ? (size_t) final_byte_v : size - 1;
 
     /* raises no error as both the initial and the final
     byte values have been computed with success */
-- 
2.43.0


From 8e20818f25b8e54b8426fe426bc0d1520a107b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 15/71] fix: close the connection when a file can not be
 completely sent

---
 src/viriatum/handlers/handler_file.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index e774d4c..9dd5382 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -1277,6 +1277,14 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
         that the proper encoding is set for the path */
         open_file((char *) file_path, "rb", &file);
 
+        /* in case it was not possible to open the file there's no way
+        to send the announced contents, must close the connection */
+        if(file == NULL) {
+            handler_file_context->flags &= ~FLAG_KEEP_ALIVE;
+            _cleanup_handler_file(connection, data, parameters);
+            RAISE_NO_ERROR;
+        }
+
         /* seeks to the end of the file and then to the
         beginig in order to correctly retrieve the size
         of the current file for reading */
@@ -1325,6 +1333,11 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
         /* unsets the file from the handler file context */
         handler_file_context->file = NULL;
 
+        /* in case there are bytes missing (eg: read error or truncated
+        file) the connection must be closed, as it's not possible to
+        send the complete set of (announced) contents */
+        if(remaining > 0) { handler_file_context->flags &= ~FLAG_KEEP_ALIVE; }
+
         /* runs the cleanup handler file (releases internal structures) */
         _cleanup_handler_file(connection, data, parameters);
 
-- 
2.43.0


From c4b187054dbc1b9b5c17c1882d789248b9679a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 16/71] fix: report the errors of the file operations

---
 src/viriatum_commons/io/file.c | 42 ++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 0a1e0a3..2efd1c8 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -93,6 +93,16 @@ ERROR_CODE read_file(char *file_path, unsigned char **buffer_pointer, size_t *fi
     file_size = ftell(file);
     fseek(file, 0, SEEK_SET);
 
+    /* in case it's not possible to retrieve the size of the
+    file closes it and raises an error */
+    if(file_size == (size_t) -1) {
+        fclose(file);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem retrieving size of file"
+        );
+    }
+
     /* allocates space for the file buffer and then stores the
     complete set of contents from the file in it */
     file_buffer = (unsigned char *) MALLOC(file_size);
@@ -101,6 +111,8 @@ ERROR_CODE read_file(char *file_path, unsigned char **buffer_pointer, size_t *fi
     /* in case the number of read bytes is not the
     same as the total bytes in file (error) */
     if(number_bytes != file_size) {
+        fclose(file);
+        FREE(file_buffer);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading from file"
@@ -123,6 +135,11 @@ ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size
     /* allocates space for the file */
     FILE *file;
 
+    /* allocates space for the number of bytes written
+    and for the result of the close operation */
+    size_t number_bytes;
+    int close_result;
+
     /* ensures that the file path is correctly converted
     into the proper system path, through encoding conversion */
     SYSTEM_PATH(file_path);
@@ -131,8 +148,23 @@ ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size
     from the provided buffer into it and closes the file to avoid
     any memory leaks */
     FOPEN(&file, file_path, "wb");
-    fwrite(buffer, sizeof(char), buffer_size, file);
-    fclose(file);
+    if(file == NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem opening file"
+        );
+    }
+    number_bytes = fwrite(buffer, sizeof(char), buffer_size, file);
+    close_result = fclose(file);
+
+    /* in case the complete set of contents was not stored
+    in the file raises an error (eg: no space left) */
+    if(number_bytes != buffer_size || close_result != 0) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem writing to file"
+        );
+    }
 
     /* raise no error */
     RAISE_NO_ERROR;
@@ -167,6 +199,12 @@ ERROR_CODE count_file(char *file_path, size_t *file_size_pointer) {
     fseek(file, 0, SEEK_END);
     file_size = ftell(file);
     fclose(file);
+    if(file_size == (size_t) -1) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem retrieving size of file"
+        );
+    }
 
     /* sets the file size as the file size pointer */
     *file_size_pointer = file_size;
-- 
2.43.0


From ffbf87fda76e8e2d2797fe34bee709c440fb2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 17/71] fix: match the names of the request headers without
 case

---
 src/viriatum/handlers/handler_file.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 9dd5382..24e94b1 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -29,6 +29,24 @@
 
 #include "handler_file.h"
 
+/**
+ * Verifies if the name of the header is the expected one, the
+ * comparison ignores the case of the characters.
+ *
+ * @param data The name of the header.
+ * @param name The expected name (in lower case), must have the
+ * same size as the name of the header.
+ * @param size The size of both names.
+ * @return If the name of the header is the expected one.
+ */
+static unsigned char _is_header_handler_file(const unsigned char *data, const char *name, size_t size) {
+    size_t index;
+    for(index = 0; index < size; index++) {
+        if(tolower(data[index]) != name[index]) { return FALSE; }
+    }
+    return TRUE;
+}
+
 /**
  * Copies the value of an header into the (fixed size) buffer
  * of the context, values that do not fit are ignored.
@@ -421,7 +439,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
     that was provided (used for faster parsing) */
     switch(data_size) {
         case 5:
-            if(data[0] == 'R' && data[1] == 'a' && data[2] == 'n' && data[3] == 'g') {
+            if(_is_header_handler_file(data, "range", data_size)) {
                 /* updates the range status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->range_status = 1;
@@ -434,7 +452,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
             break;
 
         case 13:
-            if(data[0] == 'I' && data[1] == 'f' && data[2] == '-' && data[3] == 'N') {
+            if(_is_header_handler_file(data, "if-none-match", data_size)) {
                 /* updates the etag status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->etag_status = 1;
@@ -442,7 +460,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
                 break;
             }
 
-            if(data[0] == 'C' && data[1] == 'a' && data[2] == 'c' && data[3] == 'h') {
+            if(_is_header_handler_file(data, "cache-control", data_size)) {
                 /* updates the cache control status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->cache_control_status = 1;
@@ -450,7 +468,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
                 break;
             }
 
-            if(data[0] == 'A' && data[1] == 'u' && data[2] == 't' && data[3] == 'h') {
+            if(_is_header_handler_file(data, "authorization", data_size)) {
                 /* updates the authorization status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->authorization_status = 1;
-- 
2.43.0


From dbc0df7c8b758d4ddc2d8840090ba5d8b595b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:04 +0000
Subject: [PATCH 18/71] fix: honor the size of the buffers in the formatted
 prints

---
 src/viriatum_commons/system/system_util.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/system/system_util.h b/src/viriatum_commons/system/system_util.h
index fb8fc25..3e1a0cf 100644
--- a/src/viriatum_commons/system/system_util.h
+++ b/src/viriatum_commons/system/system_util.h
@@ -62,8 +62,8 @@
 #define LOCAL_TIME(local_time_value, time_value) local_time_value = localtime(time_value)
 #define SLEEP(miliseconds) usleep((useconds_t) miliseconds * 1000)
 #define GET_PID() getpid()
-#define SPRINTF(buffer, size, format, ...) sprintf(buffer, format, __VA_ARGS__)
-#define VSPRINTF(buffer, size, format, arg) vsprintf(buffer, format, arg)
+#define SPRINTF(buffer, size, format, ...) snprintf(buffer, size, format, __VA_ARGS__)
+#define VSPRINTF(buffer, size, format, arg) vsnprintf(buffer, size, format, arg)
 #define SSCANF(buffer, format, ...) sscanf(buffer, format, __VA_ARGS__)
 #define STRTOK(string, delimiter, context) strtok(string, delimiter); dump((void *) &context)
 #define STRCPY(destination, size, source) strcpy(destination, source)
@@ -92,8 +92,8 @@
 
 #ifdef VIRIATUM_PLATFORM_MINGW
 #define LOCAL_TIME(local_time_value, time_value) local_time_value = localtime(time_value)
-#define SPRINTF(buffer, size, format, ...) sprintf(buffer, format, __VA_ARGS__)
-#define VSPRINTF(buffer, size, format, arg) vsprintf(buffer, format, arg)
+#define SPRINTF(buffer, size, format, ...) snprintf(buffer, size, format, __VA_ARGS__)
+#define VSPRINTF(buffer, size, format, arg) vsnprintf(buffer, size, format, arg)
 #define SSCANF(buffer, format, ...) sscanf(buffer, format, __VA_ARGS__)
 #define STRTOK(string, delimiter, context) strtok(string, delimiter); dump((void *) &context)
 #define STRCPY(destination, size, source) strcpy(destination, source)
-- 
2.43.0


From 803f8e1bd380635a1079e56e91e47fa5b8aa4391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 19/71] fix: challenge for credentials when the errors use no
 template

---
 src/viriatum/http/http_util.c | 44 ++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 9dc31fb..821886c 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -414,19 +414,37 @@ ERROR_CODE write_http_error_a(
         );
 
         /* writes the HTTP static headers to the response and
-        then writes the error description itself */
-        write_http_headers_m(
-            connection,
-            headers_buffer,
-            size,
-            version,
-            error_code,
-            error_message,
-            keep_alive,
-            strlen(_error_description),
-            NO_CACHE,
-            _error_description
-        );
+        then writes the error description itself, the apropriate
+        method is chosen based on the existence of the realm */
+        if(realm == NULL) {
+            write_http_headers_m(
+                connection,
+                headers_buffer,
+                size,
+                version,
+                error_code,
+                error_message,
+                keep_alive,
+                strlen(_error_description),
+                NO_CACHE,
+                _error_description
+            );
+        } else {
+            write_http_headers_a(
+                connection,
+                headers_buffer,
+                size,
+                version,
+                error_code,
+                error_message,
+                keep_alive,
+                strlen(_error_description),
+                NO_CACHE,
+                realm,
+                TRUE
+            );
+            if(!_is_head_http(connection)) { strcat(headers_buffer, _error_description); }
+        }
 
         /* writes both the headers to the connection, an then
         registers for the appropriate callbacks */
-- 
2.43.0


From 599f0fa36e4ec5b55dec51de76454568a59c78e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:19 +0000
Subject: [PATCH 20/71] fix: report the directories that can not be listed

---
 src/viriatum/handlers/handler_file.c |  8 ++++++--
 src/viriatum_commons/io/file.c       | 16 +++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 24e94b1..ce6d6f1 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -699,8 +699,12 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             create_linked_list(&directory_entries);
 
             /* lists the directory file into the directory
-            entries linked list and then converts them into maps */
-            list_directory_file((char *) handler_file_context->file_path_d, directory_entries);
+            entries linked list and then converts them into maps, in
+            case the directory may not be listed an error is sent */
+            error_code = list_directory_file(
+                (char *) handler_file_context->file_path_d,
+                directory_entries
+            );
             entries_to_map_file(directory_entries, &directory_entries_map);
 
             /* retrieves the current size of the url and copies into
diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 2efd1c8..8d67aea 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -774,9 +774,16 @@ ERROR_CODE get_write_time_file(char *file_path, struct date_time_t *date_time) {
     struct stat file_stat;
     struct tm time;
 
-    stat(file_path, &file_stat);
-
-    gmtime_r((const time_t *) &file_stat.st_mtime, &time);
+    /* retrieves the information on the file and converts the time of
+    the last write into its parts, in case it's not possible an error
+    is raised (no valid time is available) */
+    if(stat(file_path, &file_stat) != 0 ||
+        gmtime_r((const time_t *) &file_stat.st_mtime, &time) == NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem retrieving file time"
+        );
+    }
 
     /* populates the date time structure with the information
     on the file various parts */
@@ -888,8 +895,7 @@ ERROR_CODE list_directory_file(char *file_path, struct linked_list_t *entries) {
         the entry stat structure and then uses it to retrieve its size
         and it's last write time */
         join_path_file(file_path, entity->d_name, entry_full_name);
-        stat(entry_full_name, &entry_stat);
-        entry->size = entry_stat.st_size;
+        entry->size = stat(entry_full_name, &entry_stat) == 0 ? entry_stat.st_size : 0;
         get_write_time_file(entry_full_name, &entry->time);
 
         /* calculates the length of the entry name and uses
-- 
2.43.0


From 7ef25b85587ede6f3bbcd140a441c4712df201b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 21/71] fix: close the connection when a file can not be
 positioned

---
 src/viriatum/handlers/handler_file.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index ce6d6f1..a8d3db2 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -1309,10 +1309,16 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
 
         /* seeks to the end of the file and then to the
         beginig in order to correctly retrieve the size
-        of the current file for reading */
+        of the current file for reading, in case the initial
+        position is not reachable must close the connection */
         fseek(file, 0, SEEK_END);
         handler_file_context->file_size = ftell(file);
-        fseek(file, handler_file_context->initial_byte, SEEK_SET);
+        if(fseek(file, handler_file_context->initial_byte, SEEK_SET) != 0) {
+            fclose(file);
+            handler_file_context->flags &= ~FLAG_KEEP_ALIVE;
+            _cleanup_handler_file(connection, data, parameters);
+            RAISE_NO_ERROR;
+        }
 
         /* sets the file in the handler file context, this is
         the pointer that will be used for the sending of the
@@ -1334,7 +1340,7 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
     /* reads the file contents, should read either the size
     of a chunk or the size of the complete file in case it's
     shorter than the chunk size */
-    number_bytes = fread(file_buffer, 1, buffer_size, file);
+    number_bytes = offset == (size_t) -1 ? 0 : fread(file_buffer, 1, buffer_size, file);
 
     /* in case the number of read bytes is valid, there's
     data to be sent to the client side */
-- 
2.43.0


From 8a29873a159c722bd06ba1509b64388cca860c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 22/71] fix: accept the waiting connections after a failed
 accept

---
 src/viriatum/stream/stream_io.c |  6 ++++++
 src/viriatum/system/service.c   | 12 ++++++++++++
 src/viriatum/system/service.h   |  7 +++++++
 3 files changed, 25 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 537bb94..0f0adca 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -97,6 +97,12 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
 
         /* in case there was an error accepting the socket */
         if(SOCKET_TEST_ERROR(socket_handle)) {
+            /* in case there may still be connections to be accepted
+            the operation must be tried again (later), no new event is
+            going to be raised for them */
+            SOCKET_ERROR_CODE accept_error_code = SOCKET_GET_ERROR_CODE(socket_handle);
+            if(accept_error_code != SOCKET_WOULDBLOCK) { connection->service->accept_pending = TRUE; }
+
             /* breaks the loop, nothing to be handled not possible
             to accept the connection for now */
             break;
diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index b6fcdc8..b43a770 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -45,6 +45,7 @@ void create_service(struct service_t **service_pointer, unsigned char *name, uns
     service->configuration = NULL;
     service->service_socket_handle = 0;
     service->service_socket6_handle = 0;
+    service->accept_pending = FALSE;
     service->http_handler = NULL;
     service->register_signals = NULL;
     service->get_uptime = _get_uptime_service;
@@ -1161,6 +1162,17 @@ ERROR_CODE start_service(struct service_t *service) {
         using the polling (provider) */
         polling->poll(polling);
         polling->call(polling);
+
+        /* in case the previous accept operation has failed there may
+        be connections waiting that are not going to be notified again
+        by the polling (provider), must try to accept them */
+        if(service->accept_pending && service->status == STATUS_OPEN) {
+            service->accept_pending = FALSE;
+            service_connection->on_read(service_connection);
+#ifdef VIRIATUM_IP6
+            if(service_options->ip6) { service6_connection->on_read(service6_connection); }
+#endif
+        }
     }
 
     /* closes (all) the service connections and then
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index cb8d0b2..4322bcb 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -436,6 +436,13 @@ typedef struct service_t {
      */
     SOCKET_HANDLE service_socket6_handle;
 
+    /**
+     * Flag that controls if there may be connections
+     * waiting to be accepted, as the accept operation
+     * failed (eg: no more descriptors available).
+     */
+    unsigned char accept_pending;
+
     /**
      * The HTTP handler currently in use.
      * Only one HTTP (parser) handler can
-- 
2.43.0


From 15c9e27d9c617aa0f7bd83539c6070f8364e3129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:38 +0000
Subject: [PATCH 23/71] fix: detect directories without opening them

---
 src/viriatum_commons/io/file.c | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 8d67aea..ba48601 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -799,25 +799,12 @@ ERROR_CODE get_write_time_file(char *file_path, struct date_time_t *date_time) {
 }
 
 ERROR_CODE is_directory_file(char *file_path, unsigned int *is_directory) {
-    /* allocates space for the directory reference */
-    DIR *directory;
-
-    /* tries to open the directory for the file path */
-    directory = opendir(file_path);
-
-    /* in case the directory reference is not valid (null) */
-    if(directory == NULL) {
-        /* unsets the is directory flag */
-        *is_directory = 0;
-    }
-    /* otherwise the directory reference is valid */
-    else {
-        /* sets the is directory flag */
-        *is_directory = 1;
+    /* allocates space for the information on the file */
+    struct stat file_stat;
 
-        /* closes the directory reference */
-        closedir(directory);
-    }
+    /* retrieves the information on the file and sets the is directory
+    flag accordingly (no descriptor is required for the operation) */
+    *is_directory = stat(file_path, &file_stat) == 0 && S_ISDIR(file_stat.st_mode);
 
     /* raise no error */
     RAISE_NO_ERROR;
-- 
2.43.0


From 97298018c30d25d9e9d53410f10bd5c566b6d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 24/71] fix: look for the index files in the base path of the
 location

---
 src/viriatum/handlers/handler_dispatch.c | 35 +++++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 6d6e7f0..46c5ea6 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -253,6 +253,8 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     size_t index;
     size_t _index;
     size_t virtual_url_offset = 0;
+    void *value;
+    struct sort_map_t *configuration;
 #endif
 
     /* allocates space for the pointer to the index file name
@@ -261,6 +263,13 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     char *index_;
     size_t index_size;
 
+    /* allocates space for the values to be used in the resolution
+    of the index file, the directory where the contents are stored
+    and the (remaining) part of the path relative to it */
+    char *contents_path;
+    unsigned char *partial_path;
+    size_t partial_size;
+
     /* allocates space for the name of the handler to be
     used for the dispatching operation (target handler) */
     unsigned char *handler_name;
@@ -331,11 +340,29 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
         index configuration option */
         if(handler->resolve_index && options->default_index
             && (path_size == 0 || path[path_size - 1] == '/')) {
-            /* creates the base path from the viriatum contents path
-            and the current provided path and then runs the file existence
+            contents_path = VIRIATUM_CONTENTS_PATH;
+            partial_path = path;
+            partial_size = path_size;
+
+#ifdef VIRIATUM_PCRE
+            /* in case the matched location defines its own base path the
+            index file is meant to be found there and not in the contents path */
+            if(index < dispatch_handler->regex_count) {
+                configuration = service->locations.values[index].configuration;
+                get_value_string_sort_map(configuration, (unsigned char *) "base_path", &value);
+                if(value != NULL) {
+                    contents_path = (char *) value;
+                    partial_path = &path[virtual_url_offset];
+                    partial_size = path_size - virtual_url_offset;
+                }
+            }
+#endif
+
+            /* creates the base path from the contents path and the
+            current provided path and then runs the file existence
             validation process using the index array provided */
-            if(IS_ERROR_CODE(decode_percent(path, path_size, path_d, &decoded_size))) { path_d[0] = '\0'; }
-            SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", VIRIATUM_CONTENTS_PATH, path_d);
+            if(IS_ERROR_CODE(decode_percent(partial_path, partial_size, path_d, &decoded_size))) { path_d[0] = '\0'; }
+            SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", contents_path, path_d);
             index_ = validate_file((char *) base_path, (char *) options->index, 32, 128);
 
             /* in case the index file resolution was successfull
-- 
2.43.0


From ae1acee73d296c1c596b57755b356aad0f89f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 25/71] fix: count only the new keys in the size of the hash
 map

---
 src/viriatum_commons/structures/hash_map.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index e966013..f41579a 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -411,6 +411,10 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         }
     }
 
+    /* in case the element was not used until now the size of
+    the hash map is incremented (an overwrite must not count) */
+    if(element->used == 0) { hash_map->size++; }
+
     /* in case the key string is already defined in the
     element (must release it properly) unsets it */
     if(element->key_string != NULL) {
@@ -436,9 +440,6 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         element->key_string = (unsigned char *) MALLOC(key_string_size + 1);
         memcpy(element->key_string, key_string, key_string_size + 1);
     }
-
-    /* increments the hash map size */
-    hash_map->size++;
 }
 
 void _resize_hash_map(struct hash_map_t *hash_map) {
-- 
2.43.0


From 32db03dbd9306a07a651e14d0ec4c2fb3c0179d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 26/71] fix: close the socket of a failed client connection

---
 src/viriatum/system/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viriatum/system/client.c b/src/viriatum/system/client.c
index ad23739..4d398ca 100644
--- a/src/viriatum/system/client.c
+++ b/src/viriatum/system/client.c
@@ -63,6 +63,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     an error indicating the problem */
     server = SOCKET_GET_HOST_BY_NAME(hostname);
     if(server == NULL) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "No such host"
@@ -80,6 +81,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     a problem in the connection attempt, raises an error */
     error = SOCKET_CONNECT_SIZE(socket_handle, serv_addr, sizeof(SOCKET_ADDRESS_INTERNET));
     if(SOCKET_TEST_ERROR(error)) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem connecting to host"
-- 
2.43.0


From 5040a2887f2d5e7071ec7811314f2ca2ca4a4767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:42 +0000
Subject: [PATCH 27/71] fix: end the body of a response without length with its
 connection

---
 src/viriatum/http/http_parser.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 710efd8..4bd2a4a 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1570,7 +1570,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             value so that it can be used later */
                             http_parser->_content_length = http_parser->content_length;
                         } else {
-                            if(http_parser->type == HTTP_REQUEST || http_should_keep_alive(http_parser)) {
+                            if(http_parser->type == HTTP_REQUEST) {
                                 /* assumes content-length 0 - read the next */
                                 HTTP_CALLBACK(message_complete);
                                 state = NEW_MESSAGE();
@@ -1700,7 +1700,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                 if(http_parser->content_length == 0) {
                     http_parser->flags |= FLAG_TRAILING;
-                    HTTP_CALLBACK(line);
                     state = STATE_HEADER_FIELD_START;
                 } else {
                     state = STATE_CHUNK_DATA;
@@ -1752,12 +1751,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         }
     }
 
-    if(state == STATE_BODY_IDENTITY_EOF) {
-        HTTP_CALLBACK(message_complete);
-        state = NEW_MESSAGE();
-        parse_count++;
-    }
-
     /* updates (saves) the vaious parser state values into the
     proper structure so that they may be used latter in further
     parsing stages (partial parsing) */
-- 
2.43.0


From 76e3713c215b6d88ce09789b36bfe794495f1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:30 +0000
Subject: [PATCH 28/71] fix: forward the complete url and the version of the
 proxied requests

---
 src/viriatum/handlers/handler_proxy.c | 63 +++++++++++++++------------
 src/viriatum/handlers/handler_proxy.h |  3 +-
 2 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 32525db..5e59298 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -363,6 +363,29 @@ ERROR_CODE url_callback_handler_proxy(struct http_parser_t *http_parser, const u
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE line_callback_handler_proxy(struct http_parser_t *http_parser) {
+    /* retrieves the current proxy context and the string value of the
+    HTTP version of the request, that is only known at this stage */
+    struct handler_proxy_context_t *handler_proxy_context =\
+        (struct handler_proxy_context_t *) http_parser->context;
+    enum http_version_e version_e = get_http_version(
+        http_parser->http_major,
+        http_parser->http_minor
+    );
+    const char *version = get_http_version_string(version_e);
+
+    /* finishes the initial line of the HTTP message, the method and the
+    url are already in the buffer (placed by the virtual url callback) */
+    write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
+    write_proxy_buffer(handler_proxy_context, "\r\n", 2);
+
+    /*@todo: can put here the extra headers to be sent to the backend */
+    write_proxy_buffer(handler_proxy_context, "X-Viriatum-Proxy:1\r\n", 20);
+
+    /* raise no error */
+    RAISE_NO_ERROR;
+}
+
 ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
@@ -484,27 +507,11 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct custom_parameters_t *parameters;
     struct connection_t *connection_c;
 
-    /* sets space for the resulting size of the buffer that will hold
-    the status line to be sent to the backend connection */
-    size_t size_m;
-
-    /* allocates two buffers for temporary and local operations to
-    in the current callback function */
-    char buffer[1024];
-    char path[1024];
-
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
 
-    /* retrieves the enumeration representation of the version and then
-    uses it to retrieve the string value out of it, then retrieves the
-    proper HTTP method used in the current call */
-    enum http_version_e version_e = get_http_version(
-        http_parser->http_major,
-        http_parser->http_minor
-    );
-    const char *version = get_http_version_string(version_e);
+    /* retrieves the proper HTTP method used in the current call */
     const char *method = http_method_strings[http_parser->method - 1];
 
     /* retrieves the connection from the parser parameters and then uses
@@ -523,18 +530,14 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
 
-    /* copies the virtual url value into the local path buffer and then
-    closes it as a null terminated string */
-    memcpy(path, data, data_size);
-    path[data_size] = '\0';
-
-    /* writes the initial line of the HTTP message into the temporary buffer
-    and then sends this value to the current buffer for writing */
-    size_m = SPRINTF(buffer, 1024, "%s %s %s\r\n", method, path, version);
-    write_proxy_buffer(handler_proxy_context, buffer, size_m);
-
-    /*@todo: can put here the extra headers to be sent to the backend */
-    write_proxy_buffer(handler_proxy_context, "X-Viriatum-Proxy:1\r\n", 20);
+    /* writes the method and the url of the initial line of the HTTP message
+    directly into the current buffer for writing (no limit in the size of the
+    url), the url is made absolute in case the location consumed the slash */
+    write_proxy_buffer(handler_proxy_context, (char *) method, strlen(method));
+    write_proxy_buffer(handler_proxy_context, " ", 1);
+    if(data_size == 0 || data[0] != '/') { write_proxy_buffer(handler_proxy_context, "/", 1); }
+    write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    write_proxy_buffer(handler_proxy_context, " ", 1);
 
     /* updates the current proxy context object with the service connection
     pointer so that the internal client handlers are able to communicate "back"
@@ -1000,6 +1003,7 @@ ERROR_CODE _set_http_settings_handler_proxy(struct http_settings_t *http_setting
     processing of HTTP parser (runtime execution) */
     http_settings->on_message_begin = message_begin_callback_handler_proxy;
     http_settings->on_url = url_callback_handler_proxy;
+    http_settings->on_line = line_callback_handler_proxy;
     http_settings->on_header_field = header_field_callback_handler_proxy;
     http_settings->on_header_value = header_value_callback_handler_proxy;
     http_settings->on_headers_complete = headers_complete_callback_handler_proxy;
@@ -1016,6 +1020,7 @@ ERROR_CODE _unset_http_settings_handler_proxy(struct http_settings_t *http_setti
     /* unsets the various callback functions from the HTTP settings */
     http_settings->on_message_begin = NULL;
     http_settings->on_url = NULL;
+    http_settings->on_line = NULL;
     http_settings->on_header_field = NULL;
     http_settings->on_header_value = NULL;
     http_settings->on_headers_complete = NULL;
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 87b058c..3229700 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -210,6 +210,7 @@ ERROR_CODE unset_handler_proxy(struct http_connection_t *http_connection);
 ERROR_CODE reset_handler_proxy(struct http_connection_t *http_connection);
 ERROR_CODE message_begin_callback_handler_proxy(struct http_parser_t *http_parser);
 ERROR_CODE url_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
+ERROR_CODE line_callback_handler_proxy(struct http_parser_t *http_parser);
 ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE headers_complete_callback_handler_proxy(struct http_parser_t *http_parser);
@@ -247,7 +248,7 @@ static __inline void write_proxy_out_buffer(struct handler_proxy_context_t *cont
 static __inline void write_proxy_buffer(struct handler_proxy_context_t *context, char *data, size_t size) {
     if(context->buffer_size + size > context->buffer_max_size) {
         context->buffer_max_size = (context->buffer_size + size) * 2;
-        context->out_buffer = REALLOC(context->buffer, context->buffer_max_size);
+        context->buffer = REALLOC(context->buffer, context->buffer_max_size);
     }
 
     memcpy(&context->buffer[context->buffer_size], data, size);
-- 
2.43.0


From c266d229f70fd76a1d854d2ccc72812c75d107e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:42 +0000
Subject: [PATCH 29/71] fix: keep the chunks announced by the headers of the
 proxied bodies

---
 src/viriatum/handlers/handler_proxy.c | 69 ++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 12 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 5e59298..63739d2 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -389,6 +389,7 @@ ERROR_CODE line_callback_handler_proxy(struct http_parser_t *http_parser) {
 ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
 
     RAISE_NO_ERROR;
@@ -397,6 +398,7 @@ ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser
 ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
     write_proxy_buffer(handler_proxy_context, ": ", 2);
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_buffer(handler_proxy_context, "\r\n", 2);
@@ -411,9 +413,23 @@ ERROR_CODE headers_complete_callback_handler_proxy(struct http_parser_t *http_pa
 }
 
 ERROR_CODE body_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
+    /* retrieves the current proxy context and checks if the body
+    is chunked, the parser removes the chunks from it */
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+    unsigned char chunked = http_parser->flags & FLAG_CHUNKED;
+    char header[32];
+
+    /* writes the data into the buffer, in case the body is chunked
+    the data must be sent as a chunk (as the headers announce it) */
+    if(chunked) {
+        SPRINTF(header, sizeof(header), "%lx\r\n", (unsigned long) data_size);
+        write_proxy_buffer(handler_proxy_context, header, strlen(header));
+    }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    if(chunked) { write_proxy_buffer(handler_proxy_context, "\r\n", 2); }
+
+    /* raise no error */
     RAISE_NO_ERROR;
 }
 
@@ -434,6 +450,12 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
     struct http_connection_t *http_connection =\
         (struct http_connection_t *) io_connection->lower;
 
+    /* in case the body of the message is chunked the final chunk must
+    be sent to the backend (end of the body) */
+    if(http_parser->flags & FLAG_CHUNKED) {
+        write_proxy_buffer(handler_proxy_context, "0\r\n\r\n", 5);
+    }
+
     /* acquires the current HTTP connection this avoids the parallel usage of
     the connection, removing any issue arround paralel message handling */
     http_connection->acquire(http_connection);
@@ -833,6 +855,7 @@ ERROR_CODE line_callback_backend(struct http_parser_t *http_parser) {
 ERROR_CODE header_field_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
     RAISE_NO_ERROR;
 }
@@ -840,6 +863,7 @@ ERROR_CODE header_field_callback_backend(struct http_parser_t *http_parser, cons
 ERROR_CODE header_value_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
     write_proxy_out_buffer(handler_proxy_context, ": ", 2);
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_out_buffer(handler_proxy_context, "\r\n", 2);
@@ -891,15 +915,31 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     struct connection_t *connection = handler_proxy_context->connection;
     struct connection_t *connection_c = handler_proxy_context->connection_c;
 
-    /* allocates a buffer of the same size of the received body
-    data and then copies the data into this new buffer, then
-    writes the buffer into the current (proxy client) connection */
-    char *buffer = MALLOC(data_size);
-    memcpy(buffer, data, data_size);
+    /* checks if the body is chunked, the parser removes the chunks
+    from it and so they must be created again (as announced by the
+    headers) around the received data */
+    unsigned char chunked = http_parser->flags & FLAG_CHUNKED;
+
+    /* allocates a buffer able to hold the received body data and
+    the possible chunk markers and then copies the data into this
+    new buffer, then writes the buffer into the current (proxy
+    client) connection */
+    size_t size = 0;
+    char *buffer = MALLOC(data_size + 32);
+    if(chunked) {
+        SPRINTF(buffer, 32, "%lx\r\n", (unsigned long) data_size);
+        size = strlen(buffer);
+    }
+    memcpy(&buffer[size], data, data_size);
+    size += data_size;
+    if(chunked) {
+        memcpy(&buffer[size], "\r\n", 2);
+        size += 2;
+    }
     write_connection(
         connection,
         (unsigned char *) buffer,
-        data_size,
+        size,
         _pending_handler_proxy,
         (void *) handler_proxy_context
     );
@@ -908,7 +948,7 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     that are in the write buffer and then in case this values exceeds
     the maximum allowed and the read enabled in the client connection
     disables the read operations in the backend connection (avoids flooding) */
-    handler_proxy_context->pending_write += data_size;
+    handler_proxy_context->pending_write += size;
     if(connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
@@ -925,13 +965,18 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
         (struct handler_proxy_context_t *) http_parser->context;
     struct connection_t *connection = handler_proxy_context->connection;
 
-    /* writes the final (empty value) to the connection stream so that
-    the cleanup handler callback is called at the end of all the pending
-    write operations, this is a required "empty" operation */
+    /* in case a chunked body has been forwarded the last chunk must
+    be part of the final operation, to mark the end of the body */
+    unsigned char chunked = http_parser->flags & FLAG_CHUNKED &&\
+        !(http_parser->flags & FLAG_SKIPBODY);
+
+    /* writes the final (possibly empty) value to the connection stream so
+    that the cleanup handler callback is called at the end of all the pending
+    write operations, this is a required operation */
     write_connection_c(
         connection,
-        (unsigned char *) "",
-        0,
+        (unsigned char *) (chunked ? "0\r\n\r\n" : ""),
+        chunked ? 5 : 0,
         _cleanup_handler_proxy,
         (void *) (size_t) http_parser->flags,
         FALSE
-- 
2.43.0


From e2a07ef8bcc1c5b88526e61bdb73d7931a42accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:58 +0000
Subject: [PATCH 30/71] fix: status line of the proxied responses with unknown
 codes

---
 src/viriatum/http/http_util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/http/http_util.h b/src/viriatum/http/http_util.h
index c4ff195..2f2e19c 100644
--- a/src/viriatum/http/http_util.h
+++ b/src/viriatum/http/http_util.h
@@ -29,7 +29,9 @@
 
 #include "../system/service.h"
 
-#define GET_HTTP_STATUS(code) http_status_codes[(code / 100) - 1][code % 100]
+#define GET_HTTP_STATUS(code) ((code) >= 100 && (code) < 600 && (code) % 100 < 64 &&\
+    http_status_codes[((code) / 100) - 1][(code) % 100] != NULL ?\
+    http_status_codes[((code) / 100) - 1][(code) % 100] : "Unknown")
 
 /* forward references (avoids loop) */
 struct data_t;
@@ -131,7 +133,7 @@ static const char *http_status_codes[5][64] = {
         "Request Timeout",
         "Conflict",
         "Gone",
-        "Length Required"
+        "Length Required",
         "Precondition Failed",
         "Request Entity Too Large",
         "Request-URI Too Long",
-- 
2.43.0


From 9abaeef634106deca5a0e71202e2b14c615a455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:50 +0000
Subject: [PATCH 31/71] fix: process the responses of the backend server as a
 sequence of messages

---
 src/viriatum/handlers/handler_proxy.c | 171 ++++++++++++++++++++++----
 src/viriatum/handlers/handler_proxy.h |  48 ++++++++
 2 files changed, 198 insertions(+), 21 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 63739d2..70ea0dd 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -99,9 +99,14 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->out_buffer = MALLOC(1024);
     handler_proxy_context->out_buffer_size = 0;
     handler_proxy_context->out_buffer_max_size = 1024;
+    handler_proxy_context->in_buffer = NULL;
+    handler_proxy_context->in_buffer_size = 0;
+    handler_proxy_context->in_buffer_max_size = 0;
     handler_proxy_context->connection = NULL;
     handler_proxy_context->connection_c = NULL;
     handler_proxy_context->pending = FALSE;
+    handler_proxy_context->sent = FALSE;
+    handler_proxy_context->forwarded = FALSE;
     handler_proxy_context->pending_write = 0;
 
     /* creates a new set of HTTP settings and parser for the new
@@ -137,6 +142,7 @@ ERROR_CODE delete_handler_proxy_context(struct handler_proxy_context_t *handler_
     /* in case the output buffer for the current proxy context is
     defined it must be properly released to avoid memory leaks */
     if(handler_proxy_context->out_buffer) { FREE(handler_proxy_context->out_buffer); }
+    if(handler_proxy_context->in_buffer) { FREE(handler_proxy_context->in_buffer); }
 
     /* in case the HTTP settings structure is defined for the current
     context it must be release in order to avoid any leaks */
@@ -478,14 +484,19 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
             (void *) (size_t) http_parser->flags
         );
     } else {
-        write_connection_c(
+        /* the ownership of the buffer is moved to the connection, as the
+        context may be destroyed before the end of the sending operation */
+        write_connection(
             handler_proxy_context->connection_c,
             (unsigned char *) handler_proxy_context->buffer,
             handler_proxy_context->buffer_size,
             NULL,
-            NULL,
-            FALSE
+            NULL
         );
+        handler_proxy_context->buffer = NULL;
+        handler_proxy_context->buffer_size = 0;
+        handler_proxy_context->buffer_max_size = 0;
+        handler_proxy_context->sent = TRUE;
     }
 
     /* raises no error as no problem has arised from the
@@ -690,6 +701,12 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
     latter in the function */
     struct handler_proxy_context_t *handler_proxy_context;
 
+    /* allocates space for the size of the data to be processed, the result
+    of the processing and the offset of the data still not processed */
+    size_t size;
+    int processed_size = 0;
+    size_t offset = 0;
+
     /* retrieves the top level connection object from the io connection
     and then uses it to retrieve its parameters */
     struct connection_t *connection = io_connection->connection;
@@ -697,25 +714,83 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
         (struct custom_parameters_t *) connection->parameters;
 
     /* in case there're no custom parameters available for the current
-    backend connection, the connection is already disabled (but not closed)
-    and so the data operation should be ignored */
-    if(custom_parameters == NULL) { RAISE_NO_ERROR; }
+    backend connection there's no request in it, so the data received is not
+    expected and the connection must not be used for any other request */
+    if(custom_parameters == NULL) {
+        connection->close_connection(connection);
+        RAISE_NO_ERROR;
+    }
 
     /* retrieves the current proxy context structure from the custom parameters
     to be used for the processing of the current data received from the backend */
     handler_proxy_context =\
         (struct handler_proxy_context_t *) custom_parameters->parameters;
 
+    /* in case the head of the response was not forwarded until now the data is
+    gathered in the input buffer so that the head may be processed as a whole */
+    if(handler_proxy_context->sent && handler_proxy_context->forwarded == FALSE) {
+        write_proxy_in_buffer(handler_proxy_context, (char *) buffer, buffer_size);
+        buffer = (unsigned char *) handler_proxy_context->in_buffer;
+        buffer_size = handler_proxy_context->in_buffer_size;
+    }
+
     /* runs the process operation (parser iteration) using the buffer that contains
     the data that has been retrieved from the backend server, this should trigger a
-    series of callbacks for the various stages of the parsing, then returns the control
-    flow to the caller function (everything went well) */
-    process_data_http_parser(
-        handler_proxy_context->http_parser,
-        handler_proxy_context->http_settings,
-        buffer,
-        buffer_size
-    );
+    series of callbacks for the various stages of the parsing, the parser stops at
+    the end of each message (the final response may come after interim ones) */
+    while(offset < buffer_size) {
+        size = buffer_size - offset;
+
+        /* in case no response is expected in the current state (not requested or
+        already complete) the data received is not valid */
+        if(!handler_proxy_context->sent || !handler_proxy_context->pending) {
+            processed_size = -1;
+            break;
+        }
+
+        /* in case the head is not complete there's nothing more to be processed
+        now, unless the size of it is already considered to be invalid */
+        if(handler_proxy_context->forwarded == FALSE) {
+            size = _head_size_handler_proxy(&buffer[offset], size);
+            if(size == 0) {
+                if(buffer_size - offset > VIRIATUM_PROXY_HEAD_SIZE) { processed_size = -1; }
+                break;
+            }
+        }
+
+        processed_size = process_data_http_parser(
+            handler_proxy_context->http_parser,
+            handler_proxy_context->http_settings,
+            &buffer[offset],
+            size
+        );
+        if(processed_size <= 0) { processed_size = -1; break; }
+        offset += processed_size;
+
+        /* the head must have been processed as a whole, leaving the parser
+        in the body or in the start of the following response */
+        if(handler_proxy_context->forwarded == FALSE &&\
+            handler_proxy_context->http_parser->state != STATE_START_RES) {
+            processed_size = -1;
+            break;
+        }
+    }
+
+    /* in case the data is not valid the connection with the backend server can not
+    be used anymore and must be closed, the proxy client is notified by the handler */
+    if(processed_size == -1) {
+        connection->close_connection(connection);
+        RAISE_NO_ERROR;
+    }
+
+    /* removes the processed data from the input buffer, keeping there only the
+    part of the head of the response that is still not complete */
+    if(buffer == (unsigned char *) handler_proxy_context->in_buffer) {
+        memmove(buffer, &buffer[offset], buffer_size - offset);
+        handler_proxy_context->in_buffer_size = buffer_size - offset;
+    }
+
+    /* raises no error, everything went well */
     RAISE_NO_ERROR;
 }
 
@@ -871,6 +946,10 @@ ERROR_CODE header_value_callback_backend(struct http_parser_t *http_parser, cons
 }
 
 ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser) {
+    /* allocates space for the result of the operation, that controls
+    if the parser should expect a body in the response */
+    ERROR_CODE result = 0;
+
     /* retrieves the parser's context as the proxy context and then uses
     it to retrieve both the proxy client connection and the backend client
     connection to be used in the processing of the header's final */
@@ -879,18 +958,36 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     struct connection_t *connection = handler_proxy_context->connection;
     struct connection_t *connection_c = handler_proxy_context->connection_c;
 
+    /* retrieves the HTTP connection with the proxy client, its parser
+    contains the method of the request */
+    struct http_connection_t *http_connection = (struct http_connection_t *)
+        ((struct io_connection_t *) connection->lower)->lower;
+
+    /* in case this is an interim response it must be ignored, the final one
+    is going to be received after it (in the same connection) */
+    if(http_parser->status_code / 100 == 1 && http_parser->status_code != 101) {
+        handler_proxy_context->out_buffer_size = 0;
+        RAISE_ERROR(1);
+    }
+
+    /* the response to an head request and the responses with some status
+    codes never have a body, whatever their headers are */
+    if(http_connection->http_parser->method == HTTP_HEAD || http_parser->status_code == 101\
+        || http_parser->status_code == 204 || http_parser->status_code == 304) { result = 1; }
+
     /* writes the final header to body separator in the current output
     buffer of the proxy and then flushes (writes) the output buffer to
-    the proxy client connection (propagation) */
+    the proxy client connection (propagation), the ownership of the buffer
+    is moved to the connection */
     write_proxy_out_buffer(handler_proxy_context, "\r\n", 2);
-    write_connection_c(
+    write_connection(
         connection,
         (unsigned char *) handler_proxy_context->out_buffer,
         handler_proxy_context->out_buffer_size,
         _pending_handler_proxy,
-        (void *) handler_proxy_context,
-        FALSE
+        (void *) handler_proxy_context
     );
+    handler_proxy_context->forwarded = TRUE;
 
     /* adds the size of the current data to the counter of bytes
     that are in the write buffer and then in case this values exceeds
@@ -901,9 +998,12 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
     }
+    handler_proxy_context->out_buffer = NULL;
+    handler_proxy_context->out_buffer_size = 0;
+    handler_proxy_context->out_buffer_max_size = 0;
 
-    /* raises no error */
-    RAISE_NO_ERROR;
+    /* raises the result, an error value skips the body */
+    RAISE_ERROR(result);
 }
 
 ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
@@ -959,15 +1059,22 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
 }
 
 ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser) {
+    /* if the last chunk of a chunked body must be sent */
+    unsigned char chunked;
+
     /* retrieves the current proxy context reference from the parser object
     and uses it to retrieve the connection object to be used in the write operation */
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
     struct connection_t *connection = handler_proxy_context->connection;
 
+    /* in case this is the end of an interim response nothing is done
+    as it has been ignored, the response is still pending */
+    if(handler_proxy_context->forwarded == FALSE) { RAISE_NO_ERROR; }
+
     /* in case a chunked body has been forwarded the last chunk must
     be part of the final operation, to mark the end of the body */
-    unsigned char chunked = http_parser->flags & FLAG_CHUNKED &&\
+    chunked = http_parser->flags & FLAG_CHUNKED &&\
         !(http_parser->flags & FLAG_SKIPBODY);
 
     /* writes the final (possibly empty) value to the connection stream so
@@ -1035,7 +1142,10 @@ ERROR_CODE _reset_http_parser_handler_proxy(struct http_parser_t *http_parser) {
     should discard the values in the buffer */
     handler_proxy_context->buffer_size = 0;
     handler_proxy_context->out_buffer_size = 0;
+    handler_proxy_context->in_buffer_size = 0;
     handler_proxy_context->pending = FALSE;
+    handler_proxy_context->sent = FALSE;
+    handler_proxy_context->forwarded = FALSE;
     handler_proxy_context->pending_write = 0;
 
     /* raises no error */
@@ -1078,6 +1188,25 @@ ERROR_CODE _unset_http_settings_handler_proxy(struct http_settings_t *http_setti
     RAISE_NO_ERROR;
 }
 
+size_t _head_size_handler_proxy(unsigned char *data, size_t data_size) {
+    /* allocates space for the index to be used in the iteration and
+    for the number of characters in the current line */
+    size_t index;
+    size_t length = 0;
+
+    /* iterates over the complete set of bytes of the data trying to
+    find the (first) empty line, that ends the head of the message */
+    for(index = 0; index < data_size; index++) {
+        if(data[index] == '\r') { continue; }
+        if(data[index] != '\n') { length++; continue; }
+        if(length == 0) { return index + 1; }
+        length = 0;
+    }
+
+    /* returns zero as the head of the message is not complete */
+    return 0;
+}
+
 ERROR_CODE _pending_handler_proxy(struct connection_t *connection, struct data_t *data, void *parameters) {
     /* loads the parameters pointer as the proxy context structure and then
     retrieves the client connection from it to be used for its state update */
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 3229700..3493ffa 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -31,6 +31,12 @@
 #include "../system/system.h"
 #include "../stream/stream.h"
 
+/**
+ * The maximum size for the head (status line and headers)
+ * of the response of a backend server.
+ */
+#define VIRIATUM_PROXY_HEAD_SIZE 262144
+
 struct io_connection_t;
 
 /**
@@ -155,6 +161,25 @@ typedef struct handler_proxy_context_t {
      */
     size_t out_buffer_max_size;
 
+    /**
+     * The buffer that gathers the head (status line and headers) of the
+     * response of the backend until it's complete, the parser is not able
+     * to continue in the middle of an header using other buffer.
+     */
+    char *in_buffer;
+
+    /**
+     * The current size of the input buffer, number of bytes of the head
+     * of the response received until now.
+     */
+    size_t in_buffer_size;
+
+    /**
+     * The current maximum size of the input buffer (amount of memory
+     * allocated for the buffer).
+     */
+    size_t in_buffer_max_size;
+
     /**
      * The current service connection that "communicates" with the client
      * of the proxy service. This connection may be used to return the data
@@ -189,6 +214,18 @@ typedef struct handler_proxy_context_t {
      */
     char pending;
 
+    /**
+     * If the request has been completely received and its sending to the
+     * backend server was started, before this no response is expected.
+     */
+    char sent;
+
+    /**
+     * If the head of the (final) response of the backend server has already
+     * been forwarded to the proxy client.
+     */
+    char forwarded;
+
     /**
      * The amount of bytes that are currently pending to be writen in the
      * client proxy from data comming from the backend server. This value
@@ -232,6 +269,7 @@ ERROR_CODE _unset_http_parser_handler_proxy(struct http_parser_t *http_parser);
 ERROR_CODE _reset_http_parser_handler_proxy(struct http_parser_t *http_parser);
 ERROR_CODE _set_http_settings_handler_proxy(struct http_settings_t *http_settings);
 ERROR_CODE _unset_http_settings_handler_proxy(struct http_settings_t *http_settings);
+size_t _head_size_handler_proxy(unsigned char *data, size_t data_size);
 ERROR_CODE _pending_handler_proxy(struct connection_t *connection, struct data_t *data, void *parameters);
 ERROR_CODE _cleanup_handler_proxy(struct connection_t *connection, struct data_t *data, void *parameters);
 
@@ -245,6 +283,16 @@ static __inline void write_proxy_out_buffer(struct handler_proxy_context_t *cont
     context->out_buffer_size += size;
 }
 
+static __inline void write_proxy_in_buffer(struct handler_proxy_context_t *context, char *data, size_t size) {
+    if(context->in_buffer_size + size > context->in_buffer_max_size) {
+        context->in_buffer_max_size = (context->in_buffer_size + size) * 2;
+        context->in_buffer = REALLOC(context->in_buffer, context->in_buffer_max_size);
+    }
+
+    memcpy(&context->in_buffer[context->in_buffer_size], data, size);
+    context->in_buffer_size += size;
+}
+
 static __inline void write_proxy_buffer(struct handler_proxy_context_t *context, char *data, size_t size) {
     if(context->buffer_size + size > context->buffer_max_size) {
         context->buffer_max_size = (context->buffer_size + size) * 2;
-- 
2.43.0


From e2b4dc22b7f7b33b1186ad99ca797f4692e6732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 32/71] fix: notify the proxy client about the loss of the
 backend server

---
 src/viriatum/handlers/handler_proxy.c | 86 ++++++++++++++++++---------
 src/viriatum/handlers/handler_proxy.h |  1 +
 2 files changed, 60 insertions(+), 27 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 70ea0dd..e2b7e94 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -440,10 +440,6 @@ ERROR_CODE body_callback_handler_proxy(struct http_parser_t *http_parser, const
 }
 
 ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_parser) {
-    /* reserves space fot the pointer to the buffer that may
-    be created in case there's a problem in the gateway */
-    char *buffer;
-
     /* retrieves the parser's context as the proxy context and then
     uses it's parameters to retrieve the connection and then retrieves
     it's underlying layers of the connection */
@@ -470,19 +466,7 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
     in case it's not there must have been an error and it must be sent to the
     proxy client connection (service conneciont) */
     if(handler_proxy_context->connection_c == NULL) {
-        buffer = MALLOC(VIRIATUM_HTTP_SIZE);
-        write_http_error(
-            connection,
-            buffer,
-            VIRIATUM_HTTP_SIZE,
-            HTTP11,
-            502,
-            "Bad gateway",
-            "Invalid proxy connection",
-            http_parser->flags & FLAG_KEEP_ALIVE ? KEEP_ALIVE : KEEP_CLOSE,
-            _cleanup_handler_proxy,
-            (void *) (size_t) http_parser->flags
-        );
+        _error_handler_proxy(connection);
     } else {
         /* the ownership of the buffer is moved to the connection, as the
         context may be destroyed before the end of the sending operation */
@@ -874,15 +858,36 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
         /* in case there's data currently pending then the final connection cleanup
         operation has not been yet scheduled, so one must be scheduled to close
         the service (proxy client) connection */
-        if(handler_proxy_context->pending) {
-            write_connection_c(
-                connection,
-                (unsigned char *) "",
-                0,
-                _cleanup_handler_proxy,
-                NULL,
-                FALSE
-            );
+        if(handler_proxy_context->pending && handler_proxy_context->sent) {
+            /* in case the body of the response has no defined length the closing
+            of the connection is the end of it (the message is complete) */
+            if(handler_proxy_context->http_parser->state == STATE_BODY_IDENTITY_EOF) {
+                process_data_http_parser(
+                    handler_proxy_context->http_parser,
+                    handler_proxy_context->http_settings,
+                    NULL,
+                    0
+                );
+            }
+            /* in case nothing has been sent to the proxy client it's still possible
+            to notify it about the problem with the backend server */
+            else if(handler_proxy_context->forwarded == FALSE) {
+                _error_handler_proxy(connection_s);
+            }
+            /* otherwise the response is truncated and the only way to notify the
+            proxy client about it is the closing of its connection (no flags) */
+            else {
+                write_connection_c(
+                    connection_s,
+                    (unsigned char *) "",
+                    0,
+                    _cleanup_handler_proxy,
+                    NULL,
+                    FALSE
+                );
+            }
+
+            handler_proxy_context->pending = FALSE;
         }
     }
 
@@ -1049,7 +1054,7 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     the maximum allowed and the read enabled in the client connection
     disables the read operations in the backend connection (avoids flooding) */
     handler_proxy_context->pending_write += size;
-    if(connection_c->read_registered == TRUE &&\
+    if(connection_c != NULL && connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
     }
@@ -1188,6 +1193,33 @@ ERROR_CODE _unset_http_settings_handler_proxy(struct http_settings_t *http_setti
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE _error_handler_proxy(struct connection_t *connection) {
+    /* retrieves the HTTP parser of the request that is being
+    processed by the proxy client connection */
+    struct io_connection_t *io_connection = (struct io_connection_t *) connection->lower;
+    struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
+    struct http_parser_t *http_parser = http_connection->http_parser;
+
+    /* writes the error message indicating the problem with the
+    gateway to the proxy client connection */
+    char *buffer = MALLOC(VIRIATUM_HTTP_SIZE);
+    write_http_error(
+        connection,
+        buffer,
+        VIRIATUM_HTTP_SIZE,
+        HTTP11,
+        502,
+        "Bad gateway",
+        "Invalid proxy connection",
+        http_parser->flags & FLAG_KEEP_ALIVE ? KEEP_ALIVE : KEEP_CLOSE,
+        _cleanup_handler_proxy,
+        (void *) (size_t) http_parser->flags
+    );
+
+    /* raise no error */
+    RAISE_NO_ERROR;
+}
+
 size_t _head_size_handler_proxy(unsigned char *data, size_t data_size) {
     /* allocates space for the index to be used in the iteration and
     for the number of characters in the current line */
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 3493ffa..6e8f090 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -269,6 +269,7 @@ ERROR_CODE _unset_http_parser_handler_proxy(struct http_parser_t *http_parser);
 ERROR_CODE _reset_http_parser_handler_proxy(struct http_parser_t *http_parser);
 ERROR_CODE _set_http_settings_handler_proxy(struct http_settings_t *http_settings);
 ERROR_CODE _unset_http_settings_handler_proxy(struct http_settings_t *http_settings);
+ERROR_CODE _error_handler_proxy(struct connection_t *connection);
 size_t _head_size_handler_proxy(unsigned char *data, size_t data_size);
 ERROR_CODE _pending_handler_proxy(struct connection_t *connection, struct data_t *data, void *parameters);
 ERROR_CODE _cleanup_handler_proxy(struct connection_t *connection, struct data_t *data, void *parameters);
-- 
2.43.0


From e92de81a5f0451bedd4eee6fe7177ac927646195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:17 +0000
Subject: [PATCH 33/71] fix: keep alive the proxy client according to the
 forwarded headers

---
 src/viriatum/handlers/handler_proxy.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index e2b7e94..bc450ef 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -1072,6 +1072,16 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
     struct connection_t *connection = handler_proxy_context->connection;
+    struct http_connection_t *http_connection = (struct http_connection_t *)
+        ((struct io_connection_t *) connection->lower)->lower;
+
+    /* the connection with the proxy client is kept alive in case that is
+    announced by both the request and the (forwarded) response headers and
+    the end of the response is not the closing of the connection */
+    unsigned char keep_alive = http_should_keep_alive(http_parser) &&\
+        http_should_keep_alive(http_connection->http_parser) &&\
+        http_parser->status_code != 101 &&\
+        http_parser->state != STATE_BODY_IDENTITY_EOF;
 
     /* in case this is the end of an interim response nothing is done
     as it has been ignored, the response is still pending */
@@ -1090,7 +1100,7 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
         (unsigned char *) (chunked ? "0\r\n\r\n" : ""),
         chunked ? 5 : 0,
         _cleanup_handler_proxy,
-        (void *) (size_t) http_parser->flags,
+        (void *) (size_t) (keep_alive ? FLAG_KEEP_ALIVE : 0),
         FALSE
     );
 
-- 
2.43.0


From ddaecefdcc4ad82d2f8b73451900f514b2f92e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:41 +0000
Subject: [PATCH 34/71] fix: use the backend server of the location in every
 proxied request

---
 src/viriatum/handlers/handler_proxy.c | 25 +++++++++++++++++++++++++
 src/viriatum/handlers/handler_proxy.h |  7 +++++++
 2 files changed, 32 insertions(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index bc450ef..6c2ca34 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -53,6 +53,7 @@ ERROR_CODE create_proxy_handler(struct proxy_handler_t **proxy_handler_pointer,
     to resolve the proxy connection to the old set on close handler so that
     it's possible to propagate the on close callback call */
     create_hash_map(&proxy_handler->on_close_map, 0);
+    create_hash_map(&proxy_handler->pass_map, 0);
 
     /* sets the proxy handler in the proxy handler pointer and returns
     the control flow to the caller function with no error */
@@ -75,6 +76,7 @@ ERROR_CODE delete_proxy_handler(struct proxy_handler_t *proxy_handler) {
     with the proxy with the upper on close handler that has been replaced
     in order to provide the backend connection removal */
     delete_hash_map(proxy_handler->on_close_map);
+    delete_hash_map(proxy_handler->pass_map);
 
     /* releases the proxy handler, avoiding any memory leaks
     that may be raised from this main structure and then returns
@@ -524,6 +526,10 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct custom_parameters_t *parameters;
     struct connection_t *connection_c;
 
+    /* allocates space for the proxy pass value of the location used
+    by the existing backend connection */
+    void *proxy_pass;
+
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
@@ -570,6 +576,25 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
         (void **) &handler_proxy_context->connection_c
     );
 
+    /* in case the existing backend connection was created for other location
+    it must be closed as it's connected to a different backend server */
+    get_value_hash_map(
+        proxy_handler->pass_map,
+        (size_t) connection,
+        NULL,
+        &proxy_pass
+    );
+    if(handler_proxy_context->connection_c != NULL && proxy_pass != handler_proxy_context->proxy_pass) {
+        handler_proxy_context->connection_c->close_connection(handler_proxy_context->connection_c);
+        handler_proxy_context->connection_c = NULL;
+    }
+    set_value_hash_map(
+        proxy_handler->pass_map,
+        (size_t) connection,
+        NULL,
+        (void *) handler_proxy_context->proxy_pass
+    );
+
     /* creates the parameters object that is going to be passed to
     the connection and used on the open operation to guide it's
     creation, this is a custom protocol connection so the proper
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 6e8f090..003f3bf 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -100,6 +100,13 @@ typedef struct proxy_handler_t {
      * is able to call the old on close handler.
      */
     struct hash_map_t *on_close_map;
+
+    /**
+     * Map that associates the client connection with the proxy pass
+     * of the location its backend connection was created for, the
+     * backend connection must not be used for any other location.
+     */
+    struct hash_map_t *pass_map;
 } proxy_handler;
 
 /**
-- 
2.43.0


From fbe1790556b9e9a6950a3f8a58ca5600b47796fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:08 +0000
Subject: [PATCH 35/71] fix: join the folded header values of the proxied
 messages

---
 src/viriatum/handlers/handler_proxy.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 6c2ca34..180120d 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -407,7 +407,18 @@ ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
     if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
-    write_proxy_buffer(handler_proxy_context, ": ", 2);
+
+    /* in case the value continues the one of the previous line (folded
+    value) both are joined in a single line, otherwise it's the value of
+    the field that has just been written */
+    if(handler_proxy_context->buffer_size >= 2 &&\
+        handler_proxy_context->buffer[handler_proxy_context->buffer_size - 1] == '\n') {
+        handler_proxy_context->buffer_size -= 2;
+        write_proxy_buffer(handler_proxy_context, " ", 1);
+    }
+    else {
+        write_proxy_buffer(handler_proxy_context, ": ", 2);
+    }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_buffer(handler_proxy_context, "\r\n", 2);
     RAISE_NO_ERROR;
@@ -969,7 +980,18 @@ ERROR_CODE header_value_callback_backend(struct http_parser_t *http_parser, cons
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
     if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
-    write_proxy_out_buffer(handler_proxy_context, ": ", 2);
+
+    /* in case the value continues the one of the previous line (folded
+    value) both are joined in a single line, otherwise it's the value of
+    the field that has just been written */
+    if(handler_proxy_context->out_buffer_size >= 2 &&\
+        handler_proxy_context->out_buffer[handler_proxy_context->out_buffer_size - 1] == '\n') {
+        handler_proxy_context->out_buffer_size -= 2;
+        write_proxy_out_buffer(handler_proxy_context, " ", 1);
+    }
+    else {
+        write_proxy_out_buffer(handler_proxy_context, ": ", 2);
+    }
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_out_buffer(handler_proxy_context, "\r\n", 2);
     RAISE_NO_ERROR;
-- 
2.43.0


From ca407b86646d6ea77f58404329e62444d203b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:52 +0000
Subject: [PATCH 36/71] fix: clear the error queue before each SSL operation

---
 src/viriatum/stream/stream_io.c | 8 ++++++--
 src/viriatum/system/service.h   | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 0f0adca..9b371ad 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -183,7 +183,9 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
 
                 /* runs the accept operation in the ssl handle, this is possible to
                 break as this operation involves the handshake operation non blocking
-                sockets may block on this */
+                sockets may block on this, note that the error queue must be clean
+                or else the errors of other connections would be used for this one */
+                ERR_clear_error();
                 socket_result = SSL_accept(ssl_handle);
 
                 /* in case the socket result is zero the connection has been closed
@@ -654,7 +656,9 @@ ERROR_CODE handshake_handler_stream_io(struct connection_t *connection) {
 
     /* runs the accept operation in the ssl handle, this is possible to
     break as this operation involves the handshake operation non blocking
-    sockets may block on this */
+    sockets may block on this, note that the error queue must be clean
+    or else the errors of other connections would be used for this one */
+    ERR_clear_error();
     result = SSL_accept(connection->ssl_handle);
 
     /* in case the result of the accept operation in the ssl handle is not
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index 4322bcb..9d89e98 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -42,10 +42,10 @@ struct http_handler_t;
 #ifdef VIRIATUM_SSL
 #define CONNECTION_SEND(connection, buffer, length, flags) connection->ssl_handle == NULL ? \
     SOCKET_SEND(connection->socket_handle, buffer, length, flags) :\
-    SSL_write(connection->ssl_handle, buffer, length)
+    (ERR_clear_error(), SSL_write(connection->ssl_handle, buffer, length))
 #define CONNECTION_RECEIVE(connection, buffer, length, flags) connection->ssl_handle == NULL ? \
     SOCKET_RECEIVE(connection->socket_handle, buffer, length, flags) :\
-    SSL_read(connection->ssl_handle, buffer, length)
+    (ERR_clear_error(), SSL_read(connection->ssl_handle, buffer, length))
 #define CONNECTION_GET_ERROR_CODE(connection, error_code) connection->ssl_handle == NULL ? \
     SOCKET_GET_ERROR_CODE(error_code) :\
     SSL_get_error(connection->ssl_handle, error_code)
-- 
2.43.0


From 038e0661bf3922e50ac196dd6f98d4866f04f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:03 +0000
Subject: [PATCH 37/71] fix: resume the SSL handshake once the connection is
 writable

---
 src/viriatum/polling/polling_epoll.c  | 18 ++++++++++++++++++
 src/viriatum/polling/polling_select.c | 18 ++++++++++++++++++
 src/viriatum/stream/stream_io.c       | 15 +++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 4edab28..3e9f72e 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -636,6 +636,24 @@ ERROR_CODE _call_polling_epoll(
         performed, fast operations */
         current_connection->write_valid = TRUE;
 
+        /* in case the current connection is in the handshake section
+        the operation may be waiting for the connection to be writable
+        and must be resumed, notice that once it's complete there may
+        be already data in the connection waiting to be read */
+        if(current_connection->status == STATUS_HANDSHAKE &&\
+            current_connection->on_handshake != NULL) {
+            V_DEBUG("Calling on handshake handler\n");
+            CALL_V(current_connection->on_handshake, current_connection);
+            V_DEBUG("Finished calling on handshake handler\n");
+
+            if(current_connection->status == STATUS_OPEN &&\
+                current_connection->on_read != NULL) {
+                V_DEBUG("Calling on read handler\n");
+                CALL_V(current_connection->on_read, current_connection);
+                V_DEBUG("Finished calling on read handler\n");
+            }
+        }
+
         /* in case the current connection is open */
         if(current_connection->status == STATUS_OPEN &&\
             current_connection->on_write != NULL) {
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 82b05e6..ef48ca9 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -660,6 +660,24 @@ ERROR_CODE _call_polling_select(
         performed, fast operations */
         current_connection->write_valid = TRUE;
 
+        /* in case the current connection is in the handshake section
+        the operation may be waiting for the connection to be writable
+        and must be resumed, notice that once it's complete there may
+        be already data in the connection waiting to be read */
+        if(current_connection->status == STATUS_HANDSHAKE &&\
+            current_connection->on_handshake != NULL) {
+            V_DEBUG("Calling on handshake handler\n");
+            CALL_V(current_connection->on_handshake, current_connection);
+            V_DEBUG("Finished calling on handshake handler\n");
+
+            if(current_connection->status == STATUS_OPEN &&\
+                current_connection->on_read != NULL) {
+                V_DEBUG("Calling on read handler\n");
+                CALL_V(current_connection->on_read, current_connection);
+                V_DEBUG("Finished calling on read handler\n");
+            }
+        }
+
         /* in case the current connection is open */
         if(current_connection->status == STATUS_OPEN &&\
             current_connection->on_write != NULL) {
diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 9b371ad..e371a25 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -227,6 +227,12 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
                             status so that the complete handshake may be resumed */
                             client_connection->status = STATUS_HANDSHAKE;
 
+                            /* in case the handshake waits for the connection to be
+                            writable must be notified about such event */
+                            if(socket_result == SSL_ERROR_WANT_WRITE) {
+                                client_connection->register_write(client_connection);
+                            }
+
                             /* breaks the switch must try to accept
                             the connection again in a different loop */
                             break;
@@ -671,6 +677,10 @@ ERROR_CODE handshake_handler_stream_io(struct connection_t *connection) {
         /* udpates the status of the (client) connection to open
         so that any further data is correctly handled by read */
         connection->status = STATUS_OPEN;
+
+        /* the handshake no longer depends on the connection being
+        writable, any further write is going to be registered again */
+        if(connection->write_registered) { connection->unregister_write(connection); }
     } else if(result == 0) {
         /* retrieves the last ssl error code and then converts
         it into a readable error string so that it's possible to
@@ -704,6 +714,11 @@ ERROR_CODE handshake_handler_stream_io(struct connection_t *connection) {
                 of handshaking for the current connection*/
                 V_DEBUG_F("Skipping SSL handshake (%s)\n", ssl_error_codes[result]);
 
+                /* updates the registration for the write operation according
+                to the event the handshake is waiting for */
+                if(result == SSL_ERROR_WANT_WRITE) { connection->register_write(connection); }
+                else if(connection->write_registered) { connection->unregister_write(connection); }
+
                 /* breaks the switch must try to accept
                 the connection again in a different loop */
                 break;
-- 
2.43.0


From a84a51bb81fbd626638ef3f39ca61077c3dd25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:47 +0000
Subject: [PATCH 38/71] fix: read the last line of a configuration file without
 end of line

---
 src/viriatum_commons/ini/ini.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index e7d90e9..fa00315 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -107,12 +107,13 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
     state = INI_ENGINE_NORMAL;
 
     /* iterates over the byte range of the file, all the bytes
-    should be contained in the buffer "under" iteration */
-    for(index = 0; index < file_size; index++) {
+    should be contained in the buffer "under" iteration, the end
+    of the file ends the last line (even if it's not terminated) */
+    for(index = 0; index <= file_size; index++) {
         /* retrieves the current character from the
         file buffer and the retrieves the pointer to
         its position */
-        character = file_buffer[index];
+        character = index < file_size ? file_buffer[index] : '\n';
         pointer = &file_buffer[index];
 
         switch(state) {
-- 
2.43.0


From 0eab779858a05ff1280b840720fced811ef8228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 39/71] fix: ignore the spaces around sections, keys and values
 of the configuration

---
 src/viriatum_commons/ini/ini.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index fa00315..b74bb4b 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -128,7 +128,8 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
 
                     INI_MARK_N(comment_end, -1);
                     INI_CALLBACK(comment_start);
-                } else if(character == '\n' || character == '\r') {
+                } else if(character == '\n' || character == '\r' ||\
+                    character == ' ' || character == '\t') {
                     state = INI_ENGINE_NORMAL;
                 } else {
                     state = INI_ENGINE_KEY;
@@ -164,6 +165,10 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
                     INI_MARK_N(value_end, -1);
                     INI_CALLBACK_DATA(key_end);
                     INI_CALLBACK(value_start);
+                } else if(character == '\n' || character == '\r') {
+                    /* the line has no value, it must not take
+                    the name of the next line with it */
+                    state = INI_ENGINE_NORMAL;
                 }
 
                 break;
@@ -223,9 +228,10 @@ ERROR_CODE _ini_value_end_callback(struct ini_engine_t *ini_engine, const unsign
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
-    size_t offset = ini_handler->remove_spaces ? leading_offset((char *) pointer, size) : 0;
+    size_t offset = ini_handler->remove_spaces && size > 0 ? leading_offset((char *) pointer, size) : 0;
     size_t _size = size - offset;
     char *value = MALLOC(_size + 1);
+    if(ini_handler->remove_spaces && _size > 0) { _size = trailing_size((char *) pointer + offset, _size); }
     memcpy(value, pointer + offset, _size);
     value[_size] = '\0';
 
-- 
2.43.0


From 251d33568a588a93b3c84edfa84efdf4dd25cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:09 +0000
Subject: [PATCH 40/71] fix: bound the names of the sections and keys of the
 configuration

---
 src/viriatum_commons/ini/ini.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index b74bb4b..48f7dea 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -90,6 +90,11 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
     characters should be removesd from key and values */
     ini_handler_s.remove_spaces = 1;
 
+    /* no section and no key have been found up to this point,
+    values outside of the sections have no section name */
+    ini_handler_s.section[0] = '\0';
+    ini_handler_s.key[0] = '\0';
+
     /* reads the file contained in the provided file path
     and then tests the error code for error, in case there is an
     error prints it to the error stream output */
@@ -196,6 +201,7 @@ ERROR_CODE _ini_section_end_callback(struct ini_engine_t *ini_engine, const unsi
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) section */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
+    if(size > INI_KEY_MAX_SIZE - 1) { size = INI_KEY_MAX_SIZE - 1; }
     memcpy(ini_handler->section, pointer, size);
     ini_handler->section[size] = '\0';
 
@@ -212,7 +218,8 @@ ERROR_CODE _ini_key_end_callback(struct ini_engine_t *ini_engine, const unsigned
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
-    size = ini_handler->remove_spaces ? trailing_size((char *) pointer, size) : size;
+    size = ini_handler->remove_spaces && size > 0 ? trailing_size((char *) pointer, size) : size;
+    if(size > INI_KEY_MAX_SIZE - 1) { size = INI_KEY_MAX_SIZE - 1; }
     memcpy(ini_handler->key, pointer, size);
     ini_handler->key[size] = '\0';
 
-- 
2.43.0


From abb4234ca2472cb71b4381d140577ede05ae24d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 41/71] fix: keep the keys of a sort map when a value is set
 again

---
 src/viriatum_commons/structures/sort_map.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viriatum_commons/structures/sort_map.c b/src/viriatum_commons/structures/sort_map.c
index f447289..15d0561 100644
--- a/src/viriatum_commons/structures/sort_map.c
+++ b/src/viriatum_commons/structures/sort_map.c
@@ -59,6 +59,12 @@ void delete_sort_map(struct sort_map_t *sort_map) {
 void set_value_sort_map(struct sort_map_t *sort_map, size_t key, unsigned char *key_string, void *value) {
     struct hash_map_element_t *element;
 
+    /* in case the key is already present in the map only its
+    value changes, the key (and its string) must be kept as
+    they are referenced from the lists that keep the order */
+    get_hash_map(sort_map->hash_map, key, key_string, &element);
+    if(element->used) { element->value = value; return; }
+
     set_value_hash_map(sort_map->hash_map, key, key_string, value);
     get_hash_map(sort_map->hash_map, key, key_string, &element);
     append_value_linked_list(sort_map->key_list, (void *) key);
-- 
2.43.0


From cd083af2d46bda9c7d12562d2788cdb2389144d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 42/71] fix: refuse to start with a handler that does not exist

---
 src/viriatum/system/service.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index b43a770..331ae94 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -586,6 +586,16 @@ ERROR_CODE start_service(struct service_t *service) {
         (void **) &service->http_handler
     );
 
+    /* in case there's no handler with the requested name the service
+    is not able to handle any request (must not be started) */
+    if(service->http_handler == NULL) {
+        V_ERROR_F("Problem finding handler: %s\n", service_options->handler_name);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem finding handler"
+        );
+    }
+
     /* sets the socket address attributes in the socket address
     structure so that the connection is properly defined */
     socket_address.sin_family = SOCKET_INTERNET_TYPE;
-- 
2.43.0


From ea617d77113b24405e45d87f9f2b46b8ce75824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:25 +0000
Subject: [PATCH 43/71] fix: refuse to start with a host that is not an address

---
 src/viriatum/system/service.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 331ae94..65ce5ce 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -602,6 +602,16 @@ ERROR_CODE start_service(struct service_t *service) {
     socket_address.sin_addr.s_addr = inet_addr((char *) service_options->address);
     socket_address.sin_port = htons(service_options->port);
 
+    /* in case the host is not a valid address there's nothing to bind
+    to, the service would be running but would not be reachable */
+    if(socket_address.sin_addr.s_addr == INADDR_NONE) {
+        V_ERROR_F("Invalid host address: %s\n", service_options->address);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid host address"
+        );
+    }
+
     /* creates the service socket for the given types */
     service->service_socket_handle = SOCKET_CREATE(
         SOCKET_INTERNET_TYPE,
-- 
2.43.0


From e136952cb149b47a0ef115f9de1a25afaf2722c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:55 +0000
Subject: [PATCH 44/71] fix: refuse to start when the configuration file can
 not be read

---
 src/viriatum/system/service.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 65ce5ce..ee521fe 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2206,7 +2206,14 @@ ERROR_CODE _file_options_service(struct service_t *service, struct hash_map_t *a
     SPRINTF(config_path, VIRIATUM_MAX_PATH_SIZE, "%s/viriatum.ini", VIRIATUM_CONFIG_PATH);
     V_DEBUG_F("Loading configuration file (%s)\n", config_path);
     return_value = process_ini_file(config_path, &configuration);
-    if(IS_ERROR_CODE(return_value)) { CATCH_ERROR; }
+
+    /* in case the configuration file exists but it's not possible to
+    read it the service must not run without what it configures, only
+    a missing file means that the default values are to be used */
+    if(IS_ERROR_CODE(return_value)) {
+        if(FILE_EXISTS(config_path)) { RAISE_AGAIN(return_value); }
+        CATCH_ERROR;
+    }
 
     /* sets the configuraation structure under the service structure
     so that it may be latter used for operations */
-- 
2.43.0


From 34777893467e7faf10cd53d4ad8397436993440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:01 +0000
Subject: [PATCH 45/71] fix: close the connections that can not be added to the
 polling

---
 src/viriatum/handlers/handler_proxy.c | 10 +++++-
 src/viriatum/polling/polling_epoll.c  |  7 ++++
 src/viriatum/stream/stream_io.c       | 15 ++++++++-
 src/viriatum/system/service.c         | 47 ++++++++++++++++++++++-----
 4 files changed, 69 insertions(+), 10 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 180120d..8d4754f 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -664,7 +664,15 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
 
         /* opens the connection, starting the chain of events
         further action will only occur in callbacks */
-        connection_c->open_connection(connection_c);
+        return_value = connection_c->open_connection(connection_c);
+        if(IS_ERROR_CODE(return_value)) {
+            V_ERROR_F("Problem opening connection to backend (%s)\n", (char *) GET_ERROR());
+            SOCKET_CLOSE(connection_c->socket_handle);
+            delete_connection(connection_c);
+            handler_proxy_context->connection_c = NULL;
+            io_connection->on_close = on_close;
+            RAISE_NO_ERROR;
+        }
 
         /* updates the connection with the client (backend) value
         so that the current connection is allways going to use the
diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 3e9f72e..9c80e10 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -75,6 +75,13 @@ ERROR_CODE open_polling_epoll(struct polling_t *polling) {
     /* creates the polling epoll */
     create_polling_epoll(&polling_epoll, polling);
 
+    /* in case it's not possible to create the epoll (no more resources
+    are available) there's no way to poll the connections */
+    if(SOCKET_TEST_ERROR(polling_epoll->epoll_fd)) {
+        FREE(polling_epoll);
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem creating epoll");
+    }
+
     /* sets the polling epoll in the polling as
     the lower substrate */
     polling->lower = (void *) polling_epoll;
diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index e371a25..b9b14e6 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -58,6 +58,10 @@ void delete_io_connection(struct io_connection_t *io_connection) {
 }
 
 ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
+    /* allocates the value used to verify the result of the
+    opening of the (client) connection */
+    ERROR_CODE return_value;
+
     /* allocates the socket handle */
     SOCKET_HANDLE socket_handle;
 
@@ -159,7 +163,16 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
 
             /* opens the connection, this should add the client
             connection to the polling system */
-            client_connection->open_connection(client_connection);
+            return_value = client_connection->open_connection(client_connection);
+
+            /* in case it's not possible to add the connection the client
+            must be disconnected, as it would never be handled */
+            if(IS_ERROR_CODE(return_value)) {
+                V_WARNING_F("Problem opening connection: %d\n", socket_handle);
+                SOCKET_CLOSE(socket_handle);
+                delete_connection(client_connection);
+                continue;
+            }
 
 #ifdef VIRIATUM_SSL
             /* in case the connection "contains" an ssl context defined
diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index ee521fe..fbd5109 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -478,6 +478,10 @@ ERROR_CODE join_workers(struct service_t *service) { RAISE_NO_ERROR; }
 #endif
 
 ERROR_CODE start_service(struct service_t *service) {
+    /* allocates the value used to verify the result of the
+    operations that start the service */
+    ERROR_CODE return_value;
+
 #ifdef VIRIATUM_IP6
     /* allocates the socket address structure for the ip6
     connection elements */
@@ -1041,7 +1045,12 @@ ERROR_CODE start_service(struct service_t *service) {
 #endif
 
     /* opens the polling (provider) */
-    polling->open(polling);
+    return_value = polling->open(polling);
+    if(IS_ERROR_CODE(return_value)) {
+        SOCKET_CLOSE(service->service_socket_handle);
+        service->service_socket_handle = 0;
+        RAISE_AGAIN(return_value);
+    }
 
     /* creates the (service) connection and then resolves it so
     that all of is "resolved" elements are correctly populated */
@@ -1110,7 +1119,12 @@ ERROR_CODE start_service(struct service_t *service) {
     /* opens the (service) connection, this operation should trigger
     the normal event handling operations and then add this connection
     to the list of connections that are part of the service */
-    service_connection->open_connection(service_connection);
+    return_value = service_connection->open_connection(service_connection);
+    if(IS_ERROR_CODE(return_value)) {
+        SOCKET_CLOSE(service->service_socket_handle);
+        service->service_socket_handle = 0;
+        RAISE_AGAIN(return_value);
+    }
 
 #ifdef VIRIATUM_IP6
     /* in case the ip6 connection flag is set the ip6 connection
@@ -1136,7 +1150,12 @@ ERROR_CODE start_service(struct service_t *service) {
         service6_connection->on_read = accept_handler_stream_io;
 
         /* opens the (service) connection */
-        service6_connection->open_connection(service6_connection);
+        return_value = service6_connection->open_connection(service6_connection);
+        if(IS_ERROR_CODE(return_value)) {
+            SOCKET_CLOSE(service->service_socket6_handle);
+            service->service_socket6_handle = 0;
+            RAISE_AGAIN(return_value);
+        }
     }
 #endif
 
@@ -1462,10 +1481,12 @@ ERROR_CODE add_connection_service(struct service_t *service, struct connection_t
     /* retrieves the polling (provider) */
     struct polling_t *polling = service->polling;
 
-    /* adds the connection to the connections list and then
-    registes the connection in the polling (provider) */
+    /* registers the connection in the polling (provider) and then
+    adds it to the connections list, a connection that is not possible
+    to register would never be notified about its events */
+    ERROR_CODE return_value = polling->register_connection(polling, connection);
+    if(IS_ERROR_CODE(return_value)) { RAISE_AGAIN(return_value); }
     append_value_linked_list(service->connections_list, connection);
-    polling->register_connection(polling, connection);
 
     /* raises no error */
     RAISE_NO_ERROR;
@@ -1745,6 +1766,10 @@ ERROR_CODE write_connection_c(
 }
 
 ERROR_CODE open_connection(struct connection_t *connection) {
+    /* allocates the value used to verify the result of the
+    adding of the connection to the service */
+    ERROR_CODE return_value;
+
     /* in case the connection is (already) open, must return
     immediately with no error (duplicated operation) */
     if(connection->status == STATUS_OPEN) { RAISE_NO_ERROR; }
@@ -1755,8 +1780,14 @@ ERROR_CODE open_connection(struct connection_t *connection) {
     /* sets the connection status as open */
     connection->status = STATUS_OPEN;
 
-    /* adds the connection to the service select */
-    add_connection_service(connection->service, connection);
+    /* adds the connection to the service select, in case that's not
+    possible the connection remains closed (not handled by the service)
+    and it's up to the caller to release it */
+    return_value = add_connection_service(connection->service, connection);
+    if(IS_ERROR_CODE(return_value)) {
+        connection->status = STATUS_CLOSED;
+        RAISE_AGAIN(return_value);
+    }
 
     /* in case the on open handler is defined */
     if(connection->on_open != NULL) {
-- 
2.43.0


From 2a9615a254d65af318725e042d922599b7c0319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:45 +0000
Subject: [PATCH 46/71] fix: bound the index files and ignore repeated spaces
 between them

---
 src/viriatum/handlers/handler_dispatch.c |  2 +-
 src/viriatum/system/service.c            | 13 +++++-
 src/viriatum_commons/util/string_util.h  | 54 ++++++++++--------------
 3 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 46c5ea6..935695a 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -363,7 +363,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             validation process using the index array provided */
             if(IS_ERROR_CODE(decode_percent(partial_path, partial_size, path_d, &decoded_size))) { path_d[0] = '\0'; }
             SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", contents_path, path_d);
-            index_ = validate_file((char *) base_path, (char *) options->index, 32, 128);
+            index_ = validate_file((char *) base_path, (char *) options->index, options->index_count, sizeof(options->index[0]));
 
             /* in case the index file resolution was successfull
             (a new file was resolved) must match the file path through
diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index fbd5109..e71e6cd 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2318,7 +2318,18 @@ ERROR_CODE _file_options_service(struct service_t *service, struct hash_map_t *a
     /* tries to retrieve the index (file) argument from the arguments map, then
     sets the split value arround the space character in the index value */
     get_value_string_sort_map(general, (unsigned char *) "index", &value);
-    if(value != NULL) { service_options->index_count = split(value, (char *) service_options->index, 128, ' '); }
+    if(value != NULL) {
+        service_options->index_count = split(
+            value,
+            (char *) service_options->index,
+            sizeof(service_options->index) / sizeof(service_options->index[0]),
+            sizeof(service_options->index[0]),
+            ' '
+        );
+        if(service_options->index_count == 0 && ((char *) value)[strspn(value, " ")] != '\0') {
+            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing index files");
+        }
+    }
 
     /* raises no error */
     RAISE_NO_ERROR;
diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index b9217d2..9d68d3c 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -226,7 +226,7 @@ static __inline size_t leading_offset(char *buffer, size_t size) {
     return _size;
 }
 
-static __inline size_t split(char *string_value, char *buffer, size_t size_e, char token) {
+static __inline size_t split(char *string_value, char *buffer, size_t count_m, size_t size_e, char token) {
     /* allocates space for the temporary token to be used to
     store the current token in iteration */
     char _token;
@@ -246,41 +246,33 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
         _token = string_value[index];
 
         /* in case the current token matches the one to be used
-        as split, must split the string */
-        if(_token == token) {
+        as split or is the end of string, the current (non empty)
+        string must be copied to the buffer */
+        if(_token == token || _token == '\0') {
             /* calculates the size of the string from the difference
-            of index and then copies the string from one memory
-            buffer to the other over the calculated size */
+            of index and verifies that there's enough space for it */
             size = index - _index;
-            memcpy(buffer, &string_value[_index], size);
-            buffer[size] = '\0';
+            if(size > 0 && (size >= size_e || count >= count_m)) { return 0; }
+
+            /* copies the string from one memory buffer to the other
+            over the calculated size and increments the buffer position
+            with the size of one buffer element, the empty strings (eg:
+            repeated tokens) are ignored */
+            if(size > 0) {
+                memcpy(buffer, &string_value[_index], size);
+                buffer[size] = '\0';
+                buffer += size_e;
+                count++;
+            }
 
-            /* increments the buffer position with the size of one
-            buffer element and then re-sets the auxiliary buffer value */
-            buffer += size_e;
+            /* re-sets the auxiliary buffer value so that the next
+            string starts right after the token */
             _index = index + 1;
-
-            /* increments the count (number of parsed elements)
-            because one more split occured */
-            count++;
         }
-        /* otherwise in case the current token isthe end of string
-        the current string must be copied as the last trunk */
-        else if(_token == '\0') {
-            /* calculates the size of the string from the difference
-            of index and then copies the string from one memory
-            buffer to the other over the calculated size */
-            size = index - _index;
-            memcpy(buffer, &string_value[_index], size);
-            buffer[size] = '\0';
 
-            /* increments the count (number of parsed elements)
-            because one more split occured (final split) */
-            count++;
-
-            /* breaks the current loop (no more tokens to be split) */
-            break;
-        }
+        /* in case the end of string has been reached there are no
+        more tokens to be split (breaks the loop) */
+        if(_token == '\0') { break; }
 
         /* increments the current index value by one (buffer
         iteration increment) */
@@ -288,7 +280,7 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
     }
 
     /* returns the count value, number of parsed elements
-    from the provided string */
+    from the provided string (zero in case they don't fit) */
     return count;
 }
 
-- 
2.43.0


From 22b8d98c27827740769241be0d5fa93782063b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:16 +0000
Subject: [PATCH 47/71] fix: refuse the command line arguments that can not be
 parsed

---
 src/viriatum/viriatum.c                    |  7 ++++-
 src/viriatum_commons/util/arguments_util.c | 31 +++++++++++++++++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index 2bb5fac..1ef6954 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -485,7 +485,12 @@ int main(int argc, char *argv[]) {
 
     /* processes the various arguments into a map and then
     executes the corresponding (initial) actions */
-    process_arguments(argc, argv, &arguments);
+    return_value = process_arguments(argc, argv, &arguments);
+    if(IS_ERROR_CODE(return_value)) {
+        V_ERROR_F("%s\n", (char *) GET_ERROR());
+        cleanup(NULL);
+        RAISE_AGAIN(return_value);
+    }
     return_value = execute_arguments(program_name, arguments);
 
     /* cleans the current process information so that
diff --git a/src/viriatum_commons/util/arguments_util.c b/src/viriatum_commons/util/arguments_util.c
index bdb40d4..509991e 100644
--- a/src/viriatum_commons/util/arguments_util.c
+++ b/src/viriatum_commons/util/arguments_util.c
@@ -42,6 +42,10 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
     struct argument_t *argument;
     struct hash_map_t *arguments;
 
+    /* allocates the value to be used to verify the result of
+    the parsing of the arguments */
+    ERROR_CODE return_value;
+
     /* creates the hash map that will hold the various
     arguments */
     create_hash_map(&arguments, 0);
@@ -56,7 +60,12 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
         using the default (simple) parser and sets it in
         the arguments map */
         current_argument = argv[index];
-        _process_argument(current_argument, argument);
+        return_value = _process_argument(current_argument, argument);
+        if(IS_ERROR_CODE(return_value)) {
+            FREE(argument);
+            delete_arguments(arguments);
+            RAISE_AGAIN(return_value);
+        }
         set_value_string_hash_map(
             arguments,
             (unsigned char *) argument->key,
@@ -189,6 +198,11 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
     /* sets the argument to type key (just a name) */
     argument->type = SINGLE_ARGUMENT;
 
+    /* sets both the key and the value as empty, an argument
+    may have none of them (eg: --daemon has no value) */
+    argument->key[0] = '\0';
+    argument->value[0] = '\0';
+
     /* iterates over all the characters present in
     the argument string to parse the argument */
     for(index = 0; index < argument_size; index++) {
@@ -239,7 +253,10 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
                     argument->type = VALUE_ARGUMENT;
 
                     /* copies the key value into the appropriate variable
-                    in the argument */
+                    in the argument (in case there's enough space) */
+                    if(index - mark >= sizeof(argument->key)) {
+                        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing option");
+                    }
                     memcpy(argument->key, argument_value + mark, index - mark);
                     argument->key[index - mark] = '\0';
 
@@ -263,7 +280,10 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
         case ARGUMENT_SECOND:
         case ARGUMENT_KEY:
             /* copies the key value into the appropriate variable
-            in the argument */
+            in the argument (in case there's enough space) */
+            if(index - mark >= sizeof(argument->key)) {
+                RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing option");
+            }
             memcpy(argument->key, argument_value + mark, index - mark);
             argument->key[index - mark] = '\0';
 
@@ -272,7 +292,10 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
 
         case ARGUMENT_VALUE:
             /* copies the value value into the appropriate variable
-            in the argument */
+            in the argument (in case there's enough space) */
+            if(index - mark >= sizeof(argument->value)) {
+                RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing option");
+            }
             memcpy(argument->value, argument_value + mark, index - mark);
             argument->value[index - mark] = '\0';
 
-- 
2.43.0


From 618cf450fc9d2251a84a57f93966fa7cc081d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:44 +0000
Subject: [PATCH 48/71] fix: refuse to start with a port that is not valid

---
 src/viriatum/system/service.c | 29 +++++++++++++++++++++++++++--
 src/viriatum/system/service.h |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index e71e6cd..f5e76b6 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2213,6 +2213,21 @@ ERROR_CODE _default_options_service(struct service_t *service, struct hash_map_t
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE _parse_port_service(char *value, unsigned short *port) {
+    /* parses the value as a decimal number and verifies that all
+    of it has been used and that it's in the range of the ports */
+    char *end;
+    unsigned long number = strtoul(value, &end, 10);
+    if(value[0] < '0' || value[0] > '9' || *end != '\0' || number > 65535) {
+        V_ERROR_F("Invalid port: %s\n", value);
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid port");
+    }
+    *port = (unsigned short) number;
+
+    /* raises no error */
+    RAISE_NO_ERROR;
+}
+
 ERROR_CODE _file_options_service(struct service_t *service, struct hash_map_t *arguments) {
     /* allocates the value reference to be used
     during the arguments retrieval */
@@ -2263,7 +2278,10 @@ ERROR_CODE _file_options_service(struct service_t *service, struct hash_map_t *a
     in case the (port) value is set, casts the port value into integer
     and sets it in the service options */
     get_value_string_sort_map(general, (unsigned char *) "port", &value);
-    if(value != NULL) { service_options->port = (unsigned short) atoi(value); }
+    if(value != NULL) {
+        return_value = _parse_port_service((char *) value, &service_options->port);
+        if(IS_ERROR_CODE(return_value)) { RAISE_AGAIN(return_value); }
+    }
 
     /* tries to retrieve the host argument from the arguments map and
     in case the (host) value is set, sets it in the service options */
@@ -2340,6 +2358,10 @@ ERROR_CODE _comand_line_options_service(struct service_t *service, struct hash_m
     during the arguments retrieval */
     void *value;
 
+    /* allocates the value to be used to verify the result of
+    the parsing of the arguments */
+    ERROR_CODE return_value;
+
     /* unpacks the service options from the service */
     struct service_options_t *service_options = service->options;
 
@@ -2347,7 +2369,10 @@ ERROR_CODE _comand_line_options_service(struct service_t *service, struct hash_m
     in case the (port) value is set, casts the port value into
     integer and set it in the service options */
     get_value_string_hash_map(arguments, (unsigned char *) "port", &value);
-    if(value != NULL) { service_options->port = (unsigned short) atoi(((struct argument_t *) value)->value); }
+    if(value != NULL) {
+        return_value = _parse_port_service(((struct argument_t *) value)->value, &service_options->port);
+        if(IS_ERROR_CODE(return_value)) { RAISE_AGAIN(return_value); }
+    }
 
     /* tries to retrieve the host argument from the arguments map, then
     in case the (host) value is set, sets the address value in
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index 9d89e98..9f42981 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -1511,6 +1511,7 @@ ERROR_CODE add_http_handler_service(struct service_t *service, struct http_handl
 ERROR_CODE remove_http_handler_service(struct service_t *service, struct http_handler_t *http_handler);
 ERROR_CODE get_http_handler_service(struct service_t *service, struct http_handler_t **http_handler_pointer, unsigned char *name);
 ERROR_CODE _default_options_service(struct service_t *service, struct hash_map_t *arguments);
+ERROR_CODE _parse_port_service(char *value, unsigned short *port);
 ERROR_CODE _file_options_service(struct service_t *service, struct hash_map_t *arguments);
 ERROR_CODE _comand_line_options_service(struct service_t *service, struct hash_map_t *arguments);
 const char *_get_uptime_service(struct service_t *service, size_t count);
-- 
2.43.0


From 18f729df9b6032cc2ff9e7472b7acdabac6ba743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:58 +0000
Subject: [PATCH 49/71] fix: refuse to start with a location whose path is not
 valid

---
 src/viriatum/handlers/handler_dispatch.c | 16 ++++++++++++++++
 src/viriatum/system/service.c            |  3 ++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 935695a..88628c5 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -89,6 +89,7 @@ ERROR_CODE register_handler_dispatch(struct service_t *service) {
     size_t index;
     const char *error;
     int error_offset;
+    char is_valid = TRUE;
     struct location_t *location;
 #endif
 
@@ -117,12 +118,27 @@ ERROR_CODE register_handler_dispatch(struct service_t *service) {
         location = &service->locations.values[index];
         dispatch_handler->regex[index] = pcre_compile((char *) location->path, 0, &error, &error_offset, NULL);
         dispatch_handler->names[index] = location->handler;
+
+        /* in case the path of the location is not valid it would never
+        match any request (and what it configures would be ignored) */
+        if(dispatch_handler->regex[index] == NULL) {
+            V_ERROR_F("Invalid path in location: %s (%s)\n", location->path, error);
+            is_valid = FALSE;
+        }
     }
 #endif
 
     /* adds the HTTP handler to the service */
     service->add_http_handler(service, http_handler);
 
+#ifdef VIRIATUM_PCRE
+    /* in case at least one of the locations is not valid raises
+    an error so that the service is not started */
+    if(is_valid == FALSE) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid path in location");
+    }
+#endif
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index f5e76b6..1045b37 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -568,7 +568,8 @@ ERROR_CODE start_service(struct service_t *service) {
 
     /* registers the various "local" handlers
     in the service, for later usage */
-    register_handler_dispatch(service);
+    return_value = register_handler_dispatch(service);
+    if(IS_ERROR_CODE(return_value)) { RAISE_AGAIN(return_value); }
     register_handler_default(service);
     register_handler_file(service);
     register_handler_proxy(service);
-- 
2.43.0


From 3d52f84e32a710b59561e5342bfb63eac76560ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:21 +0000
Subject: [PATCH 50/71] fix: refuse to start with more locations than it can
 handle

---
 src/viriatum/system/service.c | 7 ++++++-
 src/viriatum/viriatum.c       | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 1045b37..9b4d07d 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -328,7 +328,7 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
         get_next_iterator(iterator, (void **) &element);
         if(element == NULL) { break; }
 
-        is_equal = memcmp(element->key_string, "location:", sizeof("location:") - 1);
+        is_equal = strncmp((char *) element->key_string, "location:", sizeof("location:") - 1);
         if(is_equal != 0) { continue; }
 
         get_value_string_sort_map(configuration, element->key_string, (void **) &location);
@@ -342,6 +342,11 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
 
         name = &element->key_string[sizeof("location:") - 1];
 
+        if(service->locations.count == sizeof(service->locations.values) / sizeof(service->locations.values[0])) {
+            delete_iterator_sort_map(configuration, iterator);
+            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Too many locations");
+        }
+
         _location = &service->locations.values[service->locations.count];
         _location->name = name;
         _location->path = path;
diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index 1ef6954..c26a1a7 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -81,7 +81,8 @@ ERROR_CODE init_service(char *program_name, struct hash_map_t *arguments) {
 
     /* calculates the locations structure for the service based
     on the currently loaded configuration, this a complex operation */
-    calculate_locations_service(service);
+    return_value = calculate_locations_service(service);
+    if(IS_ERROR_CODE(return_value)) { RAISE_AGAIN(return_value); }
 
     /* runs the printing operation on the service, this should
     output the information to the standar output */
-- 
2.43.0


From a5632f4a03a38368fef4801fe6761c29c215be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:38 +0000
Subject: [PATCH 51/71] fix: accept only token characters in the names of the
 headers, check the line ends and the hexadecimal digits (http parser)

---
 src/viriatum/http/http_parser.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index 9314338..967268f 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -67,7 +67,12 @@
     } while(0)
 #define NEW_MESSAGE() (http_should_keep_alive(parser) ? START_STATE : STATE_DEAD)
 #else
-#define STRICT_CHECK(condition)
+#define STRICT_CHECK(condition)\
+    do {\
+        if(condition) {\
+            goto error;\
+        }\
+    } while(0)
 #define NEW_MESSAGE() START_STATE
 #endif
 
@@ -151,9 +156,9 @@ static const char tokens[256] = {
 /*  24 can   25 em    26 sub   27 esc   28 fs    29 gs    30 rs    31 us  */
         0,       0,       0,       0,       0,       0,       0,       0,
 /*  32 sp    33  !    34  "    35  #    36  $    37  %    38  &    39  '  */
-       ' ',      '!',     '"',     '#',     '$',     '%',     '&',    '\'',
+        0,      '!',      0,      '#',     '$',     '%',     '&',    '\'',
 /*  40  (    41  )    42  *    43  +    44  ,    45  -    46  .    47  /  */
-        0,       0,      '*',     '+',      0,      '-',     '.',     '/',
+        0,       0,      '*',     '+',      0,      '-',     '.',      0,
 /*  48  0    49  1    50  2    51  3    52  4    53  5    54  6    55  7  */
        '0',     '1',     '2',     '3',     '4',     '5',     '6',     '7',
 /*  56  8    57  9    58  :    59  ;    60  <    61  =    62  >    63  ?  */
@@ -173,7 +178,7 @@ static const char tokens[256] = {
 /* 112  p   113  q   114  r   115  s   116  t   117  u   118  v   119  w  */
        'p',     'q',     'r',     's',     't',     'u',     'v',     'w',
 /* 120  x   121  y   122  z   123  {   124  |   125  }   126  ~   127 del */
-       'x',     'y',     'z',      0,      '|',     '}',     '~',       0
+       'x',     'y',     'z',      0,      '|',      0,      '~',       0
 };
 
 static const char unhex[256] = {
@@ -184,6 +189,14 @@ static const char unhex[256] = {
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
 };
 
-- 
2.43.0


From b27a27df2a206d84516d02ff5b75ab341df2798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:49 +0000
Subject: [PATCH 52/71] fix: refuse the header lines without colon and the
 control characters in the values

---
 src/viriatum/http/http_parser.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 4bd2a4a..43ca6e7 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1251,22 +1251,8 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     break;
                 }
 
-                if(byte == CR) {
-                    state = STATE_HEADER_ALMOST_DONE;
-                    HTTP_CALLBACK_DATA(header_field);
-
-                    /* breaks the switch */
-                    break;
-                }
-
-                if(byte == LF) {
-                    HTTP_CALLBACK_DATA(header_field);
-                    state = STATE_HEADER_FIELD_START;
-
-                    /* breaks the switch */
-                    break;
-                }
-
+                /* a header line without a colon is invalid, the same is true
+                for one that contains other than token characters */
                 /*SET_ERRNO(HPE_INVALID_HEADER_TOKEN);*/
                 goto error;
 
@@ -1299,6 +1285,12 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     break;
                 }
 
+                /* no control characters are allowed in the values */
+                if(byte < ' ' || byte == 127) {
+                    /*SET_ERRNO(HPE_INVALID_HEADER_TOKEN);*/
+                    goto error;
+                }
+
                 byte_token = LOWER(byte);
 
                 switch(header_state) {
@@ -1368,6 +1360,12 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     goto header_almost_done;
                 }
 
+                /* no control characters are allowed in the values */
+                if((byte < ' ' && byte != '\t') || byte == 127) {
+                    /*SET_ERRNO(HPE_INVALID_HEADER_TOKEN);*/
+                    goto error;
+                }
+
                 byte_token = LOWER(byte);
 
                 switch(header_state) {
-- 
2.43.0


From e24fd4999da553982cfa9888c023b03eb511649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:06 +0000
Subject: [PATCH 53/71] fix: refuse the messages whose size is ambiguous
 (repeated or invalid content length, transfer codings)

---
 src/viriatum/http/http_parser.c | 86 ++++++++++++++++++++++++++++++---
 src/viriatum/http/http_parser.h |  4 +-
 2 files changed, 83 insertions(+), 7 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 43ca6e7..15b93ce 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1268,6 +1268,36 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                 index = 0;
 
+                /* the headers that define the size of the message must not
+                contradict each other, so the length must be unique (and not
+                continued in a new line) and the chunked coding must be the
+                last one of the transfer codings */
+                switch(header_state) {
+                    case HEADER_STATE_CONTENT_LENGTH:
+                        if(http_parser->content_length != -1 || byte == CR || byte == LF) {
+                            /*SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);*/
+                            goto error;
+                        }
+
+                        /* breaks the switch */
+                        break;
+
+                    case HEADER_STATE_TRANSFER_ENCODING:
+                    case HEADER_STATE_TRANSFER_ENCODING_CHUNKED:
+                        if(http_parser->flags & FLAG_CHUNKED) {
+                            goto error;
+                        }
+
+                        http_parser->flags |= FLAG_TRANSFER_ENCODING;
+
+                        /* breaks the switch */
+                        break;
+
+                    default:
+                        /* breaks the switch */
+                        break;
+                }
+
                 if(byte == CR) {
                     HTTP_CALLBACK_DATA(header_value);
                     header_state = HEADER_STATE_GENERAL;
@@ -1305,7 +1335,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         if('c' == byte_token) {
                             header_state = HEADER_STATE_MATCHING_TRANSFER_ENCODING_CHUNKED;
                         } else {
-                            header_state = HEADER_STATE_GENERAL;
+                            header_state = HEADER_STATE_TRANSFER_ENCODING_OTHER;
                         }
 
                         /* breaks the switch */
@@ -1373,16 +1403,39 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         break;
 
                     case HEADER_STATE_CONNECTION:
-                    case HEADER_STATE_TRANSFER_ENCODING:
                         assert(0 && "Shouldn't get here.");
                         break;
 
+                    /* the start of a transfer coding in a list of them */
+                    case HEADER_STATE_TRANSFER_ENCODING:
+                        if(byte == ' ' || byte == '\t' || byte == ',') {
+                            break;
+                        }
+
+                        index = 0;
+                        header_state = byte_token == 'c' ?
+                            HEADER_STATE_MATCHING_TRANSFER_ENCODING_CHUNKED : HEADER_STATE_TRANSFER_ENCODING_OTHER;
+
+                        /* breaks the switch */
+                        break;
+
+                    case HEADER_STATE_TRANSFER_ENCODING_OTHER:
+                        if(byte == ',') {
+                            header_state = HEADER_STATE_TRANSFER_ENCODING;
+                        }
+
+                        /* breaks the switch */
+                        break;
+
                     case HEADER_STATE_CONTENT_LENGTH:
-                        if(byte == ' ') {
+                        /* spaces are only allowed at the end of the value, the
+                        index marks that at least one was found */
+                        if(byte == ' ' || byte == '\t') {
+                            index = 1;
                             break;
                         }
 
-                        if(!IS_NUM(byte)) {
+                        if(!IS_NUM(byte) || index == 1) {
                             /*SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);*/
                             goto error;
                         }
@@ -1404,8 +1457,10 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     case HEADER_STATE_MATCHING_TRANSFER_ENCODING_CHUNKED:
                         index++;
 
-                        if(index > sizeof(HTTP_CHUNKED) - 1 || byte_token != HTTP_CHUNKED[index]) {
-                            header_state = HEADER_STATE_GENERAL;
+                        if(byte == ',') {
+                            header_state = HEADER_STATE_TRANSFER_ENCODING;
+                        } else if(index > sizeof(HTTP_CHUNKED) - 1 || byte_token != HTTP_CHUNKED[index]) {
+                            header_state = HEADER_STATE_TRANSFER_ENCODING_OTHER;
                         } else if(index == sizeof(HTTP_CHUNKED) - 2) {
                             header_state = HEADER_STATE_TRANSFER_ENCODING_CHUNKED;
                         }
@@ -1440,6 +1495,15 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         break;
 
                     case HEADER_STATE_TRANSFER_ENCODING_CHUNKED:
+                        if(byte == ',') {
+                            goto error;
+                        } else if(byte != ' ' && byte != '\t') {
+                            header_state = HEADER_STATE_TRANSFER_ENCODING_OTHER;
+                        }
+
+                        /* breaks the switch */
+                        break;
+
                     case HEADER_STATE_CONNECTION_KEEP_ALIVE:
                     case HEADER_STATE_CONNECTION_CLOSE:
                         if(byte != ' ') {
@@ -1517,6 +1581,16 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         break;
                     }
 
+                    /* a message with both a length and a transfer coding is
+                    ambiguous and the size of a request with a transfer coding
+                    that is not chunked at the end can not be determined */
+                    if(http_parser->flags & FLAG_TRANSFER_ENCODING) {
+                        if(http_parser->content_length != -1 ||\
+                            (http_parser->type == HTTP_REQUEST && !(http_parser->flags & FLAG_CHUNKED))) {
+                            goto error;
+                        }
+                    }
+
                     read_count = 0;
 
                     if(http_parser->flags & FLAG_UPGRADE || http_parser->method == HTTP_CONNECT) {
diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index 967268f..ecd4b6f 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -418,6 +418,7 @@ typedef enum http_header_state_e {
     HEADER_STATE_MATCHING_CONNECTION_KEEP_ALIVE,
     HEADER_STATE_MATCHING_CONNECTION_CLOSE,
 
+    HEADER_STATE_TRANSFER_ENCODING_OTHER,
     HEADER_STATE_TRANSFER_ENCODING_CHUNKED,
     HEADER_STATE_CONNECTION_KEEP_ALIVE,
     HEADER_STATE_CONNECTION_CLOSE
@@ -429,7 +430,8 @@ typedef enum http_flags_e {
     FLAG_CLOSE = 1 << 2,
     FLAG_TRAILING = 1 << 3,
     FLAG_UPGRADE = 1 << 4,
-    FLAG_SKIPBODY = 1 << 5
+    FLAG_SKIPBODY = 1 << 5,
+    FLAG_TRANSFER_ENCODING = 1 << 6
 } http_flags;
 
 /**
-- 
2.43.0


From 9b052fd0e46802d3c793bdf9dac9da5b41927613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:22 +0000
Subject: [PATCH 54/71] fix: limit the size of the head of the messages

---
 src/viriatum/http/http_parser.c | 11 +++++++++++
 src/viriatum/http/http_parser.h |  8 ++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 15b93ce..101d76f 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -177,6 +177,16 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         must be break so that no more that one parse is done */
         if(parse_count > 0) { break; }
 
+        /* in case the head of the message is being parsed verifies that
+        its size does not exceed the maximum allowed size */
+        if(PARSING_HEADER(state)) {
+            read_count++;
+            if(read_count > HTTP_MAX_HEADER_SIZE) {
+                /*SET_ERRNO(HPE_HEADER_OVERFLOW);*/
+                goto error;
+            }
+        }
+
         /* switch over the current state in order to trigger
         the correct parsing logic for the current state */
         switch(state) {
@@ -1577,6 +1587,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         /* End of a chunked request */
                         HTTP_CALLBACK(message_complete);
                         state = NEW_MESSAGE();
+                        read_count = 0;
                         parse_count++;
                         break;
                     }
diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index ecd4b6f..1878339 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -37,6 +37,14 @@
  */
 #define LF '\n'
 
+/**
+ * The maximum number of bytes allowed for the head of a
+ * message (or for any of the parts of it that are placed
+ * between the data of its body), avoids that an endless
+ * head consumes the complete memory of the system.
+ */
+#define HTTP_MAX_HEADER_SIZE 262144
+#define PARSING_HEADER(state) (state > STATE_DEAD && state <= STATE_HEADERS_ALMOST_DONE)
 #define START_STATE (http_parser->type == HTTP_REQUEST ? STATE_START_REQ : STATE_START_RES)
 
 #ifndef MIN
-- 
2.43.0


From dbfa4502957ee501099254825fd7b75f2fa1950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:38 +0000
Subject: [PATCH 55/71] fix: discard the data already processed of the message
 in processing

---
 src/viriatum/stream/stream_http.c | 24 ++++++++++++++----------
 src/viriatum/stream/stream_http.h |  7 -------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 923d6c1..48a4d3c 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -79,7 +79,6 @@ ERROR_CODE create_http_connection(struct http_connection_t **http_connection_poi
     http_connection->buffer_size = 0;
     http_connection->buffer_offset = 0;
     http_connection->read_offset = 0;
-    http_connection->message_offset = 0;
     http_connection->lock = FALSE;
 
     /* sets the proper functions in the HTTP connection
@@ -171,6 +170,13 @@ ERROR_CODE release_http_connection(struct http_connection_t *http_connection) {
     RAISE_NO_ERROR;
 }
 
+static size_t _mark_offset_http(struct http_connection_t *http_connection, unsigned char *mark, size_t offset) {
+    /* returns the offset of the mark in the buffer of the connection, in
+    case it's set and it's located before the provided offset */
+    if(mark == NULL) { return offset; }
+    return MIN((size_t) (mark - http_connection->buffer), offset);
+}
+
 ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsigned char *buffer, size_t buffer_size) {
     /* allocates space for the temporary variable to
     hold the ammount of bytes processed in a given HTTP
@@ -223,9 +229,13 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     space is not enough must make some space for the new contents */
     else if(http_connection->buffer_offset + buffer_size > http_connection->buffer_size) {
         /* retrieves the offset of the first byte in the buffer that is still
-        required (start of the message under processing), everything that is
-        placed before it belongs to processed messages and is discarded */
-        size_offset = http_connection->message_offset;
+        required, either the first one that was not processed or the start of
+        a value that is still incomplete (marks of the parser), everything that
+        is placed before it is discarded */
+        size_offset = http_connection->read_offset;
+        size_offset = _mark_offset_http(http_connection, http_parser->header_field_mark, size_offset);
+        size_offset = _mark_offset_http(http_connection, http_parser->header_value_mark, size_offset);
+        size_offset = _mark_offset_http(http_connection, http_parser->url_mark, size_offset);
         memmove(
             http_connection->buffer,
             &http_connection->buffer[size_offset],
@@ -233,7 +243,6 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         );
         http_connection->buffer_offset -= size_offset;
         http_connection->read_offset -= size_offset;
-        http_connection->message_offset = 0;
 
         /* converts the marks of the parser (if any) into offsets relative to
         the new start of the buffer, as the buffer may change of position */
@@ -351,10 +360,6 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
             http_parser->header_value_mark = 0;
             http_parser->url_mark = 0;
 
-            /* updates the offset to the beginning of the next message,
-            the data located before it is no longer required */
-            http_connection->message_offset = http_connection->read_offset;
-
             /* in case the current HTTP connection read offset has reached
             the buffer offset it's time to reset the buffer (no more data to
             be processed) */
@@ -367,7 +372,6 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
                 http_connection->buffer_size = 0;
                 http_connection->buffer_offset = 0;
                 http_connection->read_offset = 0;
-                http_connection->message_offset = 0;
             }
         }
 
diff --git a/src/viriatum/stream/stream_http.h b/src/viriatum/stream/stream_http.h
index 7c54317..128b11a 100644
--- a/src/viriatum/stream/stream_http.h
+++ b/src/viriatum/stream/stream_http.h
@@ -227,13 +227,6 @@ typedef struct http_connection_t {
      */
     size_t read_offset;
 
-    /**
-     * The offset to the first byte of the message currently
-     * under processing (or the next one) in the buffer, the
-     * data located before it is no longer required.
-     */
-    size_t message_offset;
-
     /**
      * The lock flag that controls the data stream flood, this
      * way only one message is processed at a given time, even
-- 
2.43.0


From bcf1973143b4c71ac1111059aa3108ddd624e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:47 +0000
Subject: [PATCH 56/71] fix: stop the reading while too much pipelined data is
 waiting

---
 src/viriatum/stream/stream_http.c | 19 +++++++++++++++++++
 src/viriatum/stream/stream_io.c   |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 48a4d3c..a348f71 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -158,6 +158,7 @@ ERROR_CODE release_http_connection(struct http_connection_t *http_connection) {
     /* retrieves the parent io connection from the HTTP
     connection to be used for event triggering */
     struct io_connection_t *io_connection = http_connection->io_connection;
+    struct connection_t *connection = io_connection->connection;
 
     /* retieves the current locked state in order to make
     assumptions if pending should be processed again in this
@@ -166,6 +167,15 @@ ERROR_CODE release_http_connection(struct http_connection_t *http_connection) {
     http_connection->lock = FALSE;
     if(locked) { CALL_V(http_connection->io_connection->on_data, io_connection, NULL, (size_t) 0); }
 
+    /* in case the reading from the connection was stopped and it's now possible
+    to process more data resumes it, the connection is set as outstanding as there
+    may be data that was already received by the secure layer */
+    if(connection->status == STATUS_OPEN && connection->read_registered == FALSE &&\
+        http_connection->lock == FALSE) {
+        connection->register_read(connection);
+        connection->add_outstanding(connection);
+    }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -380,6 +390,15 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         if(processed_size == 0 || (size_t) processed_size == _read_size) { break; }
     }
 
+    /* in case the connection is locked and there's too much data waiting for
+    the end of the current message (pipelining) stops the reading from the
+    connection until the lock is released (avoids flooding) */
+    if(connection->status == STATUS_OPEN && connection->read_registered == TRUE &&\
+        http_connection->lock &&\
+        http_connection->buffer_offset - http_connection->read_offset >= VIRIATUM_MAX_READ) {
+        connection->unregister_read(connection);
+    }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index b9b14e6..3682bc2 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -342,6 +342,10 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             the buffer pointer and the buffer size are reseted */
             buffer_pointer = (unsigned char *) buffer;
             buffer_size = 0;
+
+            /* in case the handler has stopped the reading from the connection
+            no more data should be received (until the reading is resumed) */
+            if(connection->read_registered == FALSE) { break; }
         }
 
         /* receives from the connection socket (takes into account the type
-- 
2.43.0


From 2e2e5e84fb9aabda550dc6de9491781b0be7c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:50 +0000
Subject: [PATCH 57/71] fix: any number of connections may be closed or have
 operations outstanding (epoll)

---
 src/viriatum/polling/polling_epoll.c | 60 ++++++++++++++++++++++++++++
 src/viriatum/polling/polling_epoll.h | 20 +++++++---
 2 files changed, 75 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 9c80e10..796a162 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -31,6 +31,18 @@
 
 #include "polling_epoll.h"
 
+static void _reserve_polling_epoll(struct connection_t ***connections, size_t *capacity, size_t size) {
+    /* in case the buffer of connections is already able to hold the
+    requested number of connections there's nothing to be done */
+    if(size <= *capacity) { return; }
+
+    /* grows the buffer (at least) to the double of its capacity, starting
+    with the number of events retrieved in each poll operation */
+    *capacity = *capacity == 0 ? VIRIATUM_MAX_EVENTS : *capacity * 2;
+    if(*capacity < size) { *capacity = size; }
+    *connections = REALLOC((void *) *connections, *capacity * sizeof(struct connection_t *));
+}
+
 void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct polling_t *polling) {
     /* retrieves the polling epoll size */
     size_t polling_epoll_size = sizeof(struct polling_epoll_t);
@@ -48,6 +60,19 @@ void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct
     polling_epoll->read_outstanding_size = 0;
     polling_epoll->write_outstanding_size = 0;
 
+    /* sets the buffers of connections as empty, they're going
+    to grow as required (there's no limit for the connections) */
+    polling_epoll->remove_connections = NULL;
+    polling_epoll->read_outstanding = NULL;
+    polling_epoll->write_outstanding = NULL;
+    polling_epoll->_read_outstanding = NULL;
+    polling_epoll->_write_outstanding = NULL;
+    polling_epoll->remove_connections_capacity = 0;
+    polling_epoll->read_outstanding_capacity = 0;
+    polling_epoll->write_outstanding_capacity = 0;
+    polling_epoll->_read_outstanding_capacity = 0;
+    polling_epoll->_write_outstanding_capacity = 0;
+
     /* resets the polling in the polling epoll */
     polling_epoll->polling = polling;
 
@@ -64,6 +89,13 @@ void delete_polling_epoll(struct polling_epoll_t *polling_epoll) {
     in order to avoid any memory leak problem */
     if(polling_epoll->epoll_fd) { close(polling_epoll->epoll_fd); }
 
+    /* releases the buffers of connections that were required */
+    if(polling_epoll->remove_connections) { FREE(polling_epoll->remove_connections); }
+    if(polling_epoll->read_outstanding) { FREE(polling_epoll->read_outstanding); }
+    if(polling_epoll->write_outstanding) { FREE(polling_epoll->write_outstanding); }
+    if(polling_epoll->_read_outstanding) { FREE(polling_epoll->_read_outstanding); }
+    if(polling_epoll->_write_outstanding) { FREE(polling_epoll->_write_outstanding); }
+
     /* releases the polling epoll */
     FREE(polling_epoll);
 }
@@ -200,6 +232,11 @@ ERROR_CODE unregister_connection_polling_epoll(
     after the io driven logic part is processed (at the end
     of the logic loop) */
     if(remove_c == TRUE) {
+        _reserve_polling_epoll(
+            &polling_epoll->remove_connections,
+            &polling_epoll->remove_connections_capacity,
+            polling_epoll->remove_connections_size + 1
+        );
         remove_connection(
             polling_epoll->remove_connections,
             &polling_epoll->remove_connections_size,
@@ -335,6 +372,11 @@ ERROR_CODE register_write_polling_epoll(struct polling_t *polling, struct connec
 
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
+    _reserve_polling_epoll(
+        &polling_epoll->write_outstanding,
+        &polling_epoll->write_outstanding_capacity,
+        polling_epoll->write_outstanding_size + 1
+    );
     polling_epoll->write_outstanding[polling_epoll->write_outstanding_size] = connection;
     polling_epoll->write_outstanding_size++;
 
@@ -359,6 +401,11 @@ ERROR_CODE add_outstanding_polling_epoll(struct polling_t *polling, struct conne
 
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
+    _reserve_polling_epoll(
+        &polling_epoll->read_outstanding,
+        &polling_epoll->read_outstanding_capacity,
+        polling_epoll->read_outstanding_size + 1
+    );
     polling_epoll->read_outstanding[polling_epoll->read_outstanding_size] = connection;
     polling_epoll->read_outstanding_size++;
 
@@ -376,6 +423,19 @@ ERROR_CODE poll_polling_epoll(struct polling_t *polling) {
     struct polling_epoll_t *polling_epoll =\
         (struct polling_epoll_t *) polling->lower;
 
+    /* makes sure that the auxiliary buffers are able to hold the complete
+    set of connections with outstanding operations */
+    _reserve_polling_epoll(
+        &polling_epoll->_read_outstanding,
+        &polling_epoll->_read_outstanding_capacity,
+        polling_epoll->read_outstanding_size
+    );
+    _reserve_polling_epoll(
+        &polling_epoll->_write_outstanding,
+        &polling_epoll->_write_outstanding_capacity,
+        polling_epoll->write_outstanding_size
+    );
+
     /* triggers the processing of the outstanding connection
     operations (pending operations) that meant to be done before
     the main poll operation blocks the control flow */
diff --git a/src/viriatum/polling/polling_epoll.h b/src/viriatum/polling/polling_epoll.h
index fc51160..a9e1d6f 100644
--- a/src/viriatum/polling/polling_epoll.h
+++ b/src/viriatum/polling/polling_epoll.h
@@ -77,7 +77,7 @@ typedef struct polling_epoll_t {
      * to be house-kept (removed) at the end
      * of the polling cycle.
      */
-    struct connection_t *remove_connections[VIRIATUM_MAX_EVENTS];
+    struct connection_t **remove_connections;
 
     /**
      * The buffer that contains the various
@@ -85,7 +85,7 @@ typedef struct polling_epoll_t {
      * be read from the socket at the begining
      * of the next poll operation.
      */
-    struct connection_t *read_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **read_outstanding;
 
     /**
      * The buffer that contains the various
@@ -93,19 +93,19 @@ typedef struct polling_epoll_t {
      * be writen to the socket at the begining
      * of the next poll operation.
      */
-    struct connection_t *write_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **write_outstanding;
 
     /**
      * Auxiliary buffer to be used in the performing
      * of the outstaind read operations.
      */
-    struct connection_t *_read_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **_read_outstanding;
 
     /**
      * Auxiliary buffer to be used in the performing
      * of the outstaind write operations.
      */
-    struct connection_t *_write_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **_write_outstanding;
 
     /**
      * The size of the read connections
@@ -144,6 +144,16 @@ typedef struct polling_epoll_t {
      * at he beginning of the poll operation.
      */
     size_t write_outstanding_size;
+
+    /**
+     * The number of connections that may be stored in
+     * each one of the (growing) buffers of connections.
+     */
+    size_t remove_connections_capacity;
+    size_t read_outstanding_capacity;
+    size_t write_outstanding_capacity;
+    size_t _read_outstanding_capacity;
+    size_t _write_outstanding_capacity;
 } polling_epoll;
 
 void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct polling_t *polling);
-- 
2.43.0


From 9d142f08a9c7c08cae5354234a9fe965300073dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:58 +0000
Subject: [PATCH 58/71] fix: use the attributes of the entries when the file
 system does not provide their type

---
 src/viriatum_commons/io/file.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index ba48601..5ee325f 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -882,7 +882,16 @@ ERROR_CODE list_directory_file(char *file_path, struct linked_list_t *entries) {
         the entry stat structure and then uses it to retrieve its size
         and it's last write time */
         join_path_file(file_path, entity->d_name, entry_full_name);
-        entry->size = stat(entry_full_name, &entry_stat) == 0 ? entry_stat.st_size : 0;
+        entry->size = 0;
+        if(stat(entry_full_name, &entry_stat) == 0) {
+            entry->size = entry_stat.st_size;
+
+            /* some of the file systems do not provide the type of the
+            entries with their names, uses the file attributes instead */
+            if(entity->d_type == DT_UNKNOWN && S_ISDIR(entry_stat.st_mode)) {
+                entry->type = FILE_TYPE_DIRECTORY;
+            }
+        }
         get_write_time_file(entry_full_name, &entry->time);
 
         /* calculates the length of the entry name and uses
-- 
2.43.0


From be702db4ad4364a22c9d2d3a44f9eda8bf1675d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:09 +0000
Subject: [PATCH 59/71] fix: parse templates up to their last character,
 dollars and high bytes included

---
 src/viriatum_commons/template/engine.c | 46 ++++++++++++++++----------
 src/viriatum_commons/template/engine.h |  2 +-
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index 8fc501c..f34c509 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -80,8 +80,8 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
 
     /* allocates space for the current (character) for reading
     and for the ahead character for look ahead */
-    char current = '\0';
-    char ahead = '\0';
+    int current = '\0';
+    int ahead = '\0';
 
     /* allocates the space for the look ahead valid flag */
     unsigned char ahead_set = 0;
@@ -89,6 +89,7 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
     /* allocates the space for the variable that will hold
     the size of the file to be parsed */
     size_t file_size;
+    long file_offset;
 
     /* allocates the buffer thath will hold the contents
     of the read file, this buffer is realeased uppon the
@@ -130,9 +131,17 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
     end of it and the seeks the stream back to the initial
     position (for further reading) */
     fseek(file, 0, SEEK_END);
-    file_size = ftell(file);
+    file_offset = ftell(file);
     fseek(file, 0, SEEK_SET);
 
+    /* in case it's not possible to retrieve the size of the
+    file there's nothing that may be parsed */
+    if(file_offset < 0) {
+        fclose(file);
+        RAISE_NO_ERROR;
+    }
+    file_size = (size_t) file_offset;
+
     /* allocates the buffer that will hold the complete
     template file (this allocation may be giant), this is
     necessary for the correct execution of the parser, uses
@@ -162,9 +171,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
             current = _getc_template_engine(file, &pointer, &file_size);
         }
 
-        /* in case the end of file has been found, or
-        the file size is zero (breaks) */
-        if(current == EOF || file_size == 0) {
+        /* in case the end of file has been found, no more
+        characters are available (breaks) */
+        if(current == EOF) {
             /* breaks the cycle (end of parsing) */
             break;
         }
@@ -200,8 +209,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
                         TEMPLATE_CALLBACK(tag_close_begin);
                         ahead_set = 0;
                     }
-                } else {
-                    /* resets the state to the "normal" */
+                } else if(current != '$') {
+                    /* resets the state to the "normal", note that
+                    another dollar may still start a tag */
                     state = TEMPLATE_ENGINE_NORMAL;
                 }
 
@@ -345,7 +355,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
 
                         TEMPLATE_MARK(text_end);
 
-                        /* calls the tag end and text begin callbacks */
+                        /* calls the parameter value, tag end and
+                        text begin callbacks */
+                        TEMPLATE_CALLBACK_DATA_N(parameter_value, 2);
                         TEMPLATE_CALLBACK_DATA(tag_end);
                         TEMPLATE_CALLBACK(text_begin);
 
@@ -390,9 +402,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
         }
     }
 
-    /* in case the current state is engine
-    normal (there must be text to be flushed) */
-    if(state == TEMPLATE_ENGINE_NORMAL) {
+    /* in case the current state is engine normal or a tag
+    was not opened (there must be text to be flushed) */
+    if(state == TEMPLATE_ENGINE_NORMAL || state == TEMPLATE_ENGINE_DOLLAR) {
         /* calls the text end callback */
         TEMPLATE_CALLBACK_DATA(text_end);
     }
@@ -407,15 +419,15 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
     RAISE_NO_ERROR;
 }
 
-char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
+int _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
     /* allocates space for the current character
     to be retrieve in the function */
-    char current;
+    int current;
 
     /* in case the size is already zero (nothing remaining) */
-    if(size == 0) {
+    if(*size == 0) {
         /* returns invalid */
-        return 0;
+        return EOF;
     }
 
     /* retrieves the current character
@@ -431,7 +443,7 @@ char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
 
     /* updates the file buffer (from pointer) with the current
     character and increments the pointer reference */
-    **pointer = current;
+    **pointer = (unsigned char) current;
     (*pointer)++;
 
     /* decrements the file size */
diff --git a/src/viriatum_commons/template/engine.h b/src/viriatum_commons/template/engine.h
index 1afdc2d..4861b89 100644
--- a/src/viriatum_commons/template/engine.h
+++ b/src/viriatum_commons/template/engine.h
@@ -216,4 +216,4 @@ VIRIATUM_EXPORT_PREFIX ERROR_CODE process_template_engine(struct template_engine
  * (remaining) size in the file.
  * @return The character read from the file stream.
  */
-VIRIATUM_EXPORT_PREFIX char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size);
+VIRIATUM_EXPORT_PREFIX int _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size);
-- 
2.43.0


From 74d911333e9a93504f0d9de01a48467baa511239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:23 +0000
Subject: [PATCH 60/71] fix: templates with long parameters, other conditions
 or mistakes

---
 src/viriatum_commons/template/handler.c | 75 ++++++++++++++++++++-----
 src/viriatum_commons/template/handler.h |  8 +--
 2 files changed, 64 insertions(+), 19 deletions(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 58e770e..86b1ac7 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -204,6 +204,10 @@ void create_template_parameter(struct template_parameter_t **template_parameter_
 
     /* sets the default values in the template parameter */
     template_parameter->type = 0;
+    template_parameter->name = NULL;
+    template_parameter->raw_value = NULL;
+    template_parameter->string_value = NULL;
+    template_parameter->reference_value = NULL;
     template_parameter->int_value = 0;
     template_parameter->float_value = 0.0f;
 
@@ -212,6 +216,13 @@ void create_template_parameter(struct template_parameter_t **template_parameter_
 }
 
 void delete_template_parameter(struct template_parameter_t *template_parameter) {
+    /* releases the name and the various representations of
+    the value of the parameter (in case they're set) */
+    if(template_parameter->name) { FREE(template_parameter->name); }
+    if(template_parameter->raw_value) { FREE(template_parameter->raw_value); }
+    if(template_parameter->string_value) { FREE(template_parameter->string_value); }
+    if(template_parameter->reference_value) { FREE(template_parameter->reference_value); }
+
     /* releases the template parameter */
     FREE(template_parameter);
 }
@@ -253,7 +264,7 @@ void process_template_handler(struct template_handler_t *template_handler, unsig
     /* processes the file as a template engine and then uses the
     created node structure to traverse for string buffer output */
     process_template_engine(template_engine, template_settings, file_path);
-    traverse_node_buffer(template_handler, template_handler->current_node);
+    traverse_node_buffer(template_handler, root_node);
 
     /* "joins" the template handler string buffer into the string
     value, retrieving the final template result */
@@ -328,18 +339,19 @@ void assign_list_template_handler(struct template_handler_t *template_handler, u
 void get_template_handler(struct template_handler_t *template_handler, unsigned char *name, struct type_t **value_pointer) {
     /* allocates space for the temporary (tokanizable) name variable
     and for the generated token values*/
-    unsigned char _name[64];
+    unsigned char *_name;
     unsigned char *name_token;
     unsigned char *context;
 
     /* allocates space for the (type) value */
-    struct type_t *value;
+    struct type_t *value = NULL;
 
     /* retrieves the template global names as thee base value */
     struct hash_map_t *_value = template_handler->names;
 
     /* copies the name reference into a backup value
     to avoid data corruption (from tokenization) */
+    _name = (unsigned char *) MALLOC(strlen((char *) name) + 1);
     memcpy(_name, name, strlen((char *) name) + 1);
 
     /* tokenizes the name into tokens */
@@ -365,14 +377,26 @@ void get_template_handler(struct template_handler_t *template_handler, unsigned
             break;
         }
 
+        /* retrieves the next token, in case there's none the
+        value is the one to be retrieved */
+        name_token = (unsigned char *) STRTOK(NULL, ".", context);
+        if(name_token == NULL) { break; }
+
+        /* in case the "newly" retrieved value is not a map it
+        contains no values (not found) */
+        if(value->type != MAP_TYPE) {
+            value = NULL;
+            break;
+        }
+
         /* updates the (hash map) value reference with the "newly"
         retrieved value */
         _value = value->value.value_map;
-
-        /* retrieves the next token */
-        name_token = (unsigned char *) STRTOK(NULL, ".", context);
     }
 
+    /* releases the backup value of the name */
+    FREE(_name);
+
     /* sets the value pointer with the internal
     retrieved value */
     *value_pointer = value;
@@ -452,6 +476,10 @@ void traverse_node_buffer(struct template_handler_t *template_handler, struct te
 
         case TEMPLATE_NODE_SINGLE:
         case TEMPLATE_NODE_OPEN:
+            /* in case the node has no name or no parameters there's
+            nothing to be done with it (malformed tag) */
+            if(node->name == NULL || node->parameters_map == NULL) { break; }
+
             if(strcmp((char *) node->name, "out") == 0) {
                 /* traverses the out node in buffer mode */
                 _traverse_out_buffer(template_handler, node);
@@ -521,6 +549,7 @@ void _traverse_out_buffer(struct template_handler_t *template_handler, struct te
 
     /* retrieves value parameter from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
+    if(value_parameter == NULL) { return; }
 
     /* switches over the value parameter type to
     update the string buffer accordingly */
@@ -590,12 +619,17 @@ void _traverse_for_each_buffer(struct template_handler_t *template_handler, stru
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "item", (void **) &item_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "from", (void **) &from_parameter);
 
+    /* in case any of the parameters is not a reference there's
+    nothing to be iterated (malformed tag) */
+    if(item_parameter == NULL || item_parameter->type != TEMPLATE_PARAMETER_REFERENCE) { return; }
+    if(from_parameter == NULL || from_parameter->type != TEMPLATE_PARAMETER_REFERENCE) { return; }
+
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
     get_template_handler(template_handler, from_parameter->reference_value, &value);
 
-    /* in case the value was not found */
-    if(value == NULL) {
+    /* in case the value was not found or it's not iterable */
+    if(value == NULL || value->type != LIST_TYPE) {
         /* returns immediately */
         return;
     }
@@ -631,10 +665,9 @@ void _traverse_for_each_buffer(struct template_handler_t *template_handler, stru
 }
 
 void _traverse_if_buffer(struct template_handler_t *template_handler, struct template_node_t *node) {
-    /* allocates space for the item, the value and the operator parameters */
+    /* allocates space for the item and the value parameters */
     struct template_parameter_t *item_parameter;
     struct template_parameter_t *value_parameter;
-    struct template_parameter_t *operator_parameter;
 
     /* allocates space for the value to be retrieved */
     struct type_t *value;
@@ -642,14 +675,18 @@ void _traverse_if_buffer(struct template_handler_t *template_handler, struct tem
     /* retrieves both the from and the item parameters from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "item", (void **) &item_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
-    get_value_string_hash_map(node->parameters_map, (unsigned char *) "operator", (void **) &operator_parameter);
+
+    /* in case the item is not a reference or there's no integer to
+    compare it with the condition is not verified (malformed tag) */
+    if(item_parameter == NULL || item_parameter->type != TEMPLATE_PARAMETER_REFERENCE) { return; }
+    if(value_parameter == NULL || value_parameter->type != TEMPLATE_PARAMETER_INTEGER) { return; }
 
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
-    get_template_handler(template_handler, (unsigned char *) "entry.type", &value);
+    get_template_handler(template_handler, item_parameter->reference_value, &value);
 
-    /* in case the value was not found */
-    if(value == NULL) {
+    /* in case the value was not found or may not be compared */
+    if(value == NULL || value->type != INTEGER_TYPE) {
         /* returns immediately */
         return;
     }
@@ -686,6 +723,10 @@ ERROR_CODE _open_context_template_handler(struct template_handler_t *template_ha
 }
 
 ERROR_CODE _close_context_template_handler(struct template_handler_t *template_handler) {
+    /* in case there's no context to be closed there's nothing
+    to be done (no matching open tag) */
+    if(template_handler->contexts == NULL || template_handler->contexts->size == 0) { RAISE_NO_ERROR; }
+
     /* pops the last context into the template handler current node */
     pop_top_value_linked_list(template_handler->contexts, (void **) &template_handler->current_node, 1);
 
@@ -885,6 +926,7 @@ ERROR_CODE _parameter_callback(struct template_engine_t *template_engine, const
     append_value_linked_list(temporary_node->parameters, template_parameter);
 
     /* sets the name in the template parameter throught a memory copy */
+    template_parameter->name = (unsigned char *) MALLOC(size + 1);
     memcpy(template_parameter->name, pointer, size);
     template_parameter->name[size] = '\0';
 
@@ -904,24 +946,27 @@ ERROR_CODE _parameter_value_callback(struct template_engine_t *template_engine,
     struct template_parameter_t *temporary_parameter = temporary_node->temporary_parameter;
 
     /* sets the raw value in the template parameter throught a memory copy */
+    temporary_parameter->raw_value = (unsigned char *) MALLOC(size + 1);
     memcpy(temporary_parameter->raw_value, pointer, size);
     temporary_parameter->raw_value[size] = '\0';
 
     /* in case the first character of the raw value is
     a start string character the value must be a string */
     if(temporary_parameter->raw_value[0] == '"') {
+        temporary_parameter->string_value = (unsigned char *) MALLOC(size - 1);
         memcpy(temporary_parameter->string_value, pointer + 1, size - 2);
         temporary_parameter->string_value[size - 2] = '\0';
         temporary_parameter->type = TEMPLATE_PARAMETER_STRING;
     }
     /* in case the first character of the raw value is a numeric
     value it must be a number */
-    else if(temporary_parameter->raw_value[0] > 0x2f && temporary_parameter->raw_value[0] < 0x58) {
+    else if(temporary_parameter->raw_value[0] > 0x2f && temporary_parameter->raw_value[0] < 0x3a) {
         temporary_parameter->int_value = atoi((char *) temporary_parameter->raw_value);
         temporary_parameter->type = TEMPLATE_PARAMETER_INTEGER;
     }
     /* othwerwise it must be a (variable) reference value */
     else {
+        temporary_parameter->reference_value = (unsigned char *) MALLOC(size + 1);
         memcpy(temporary_parameter->reference_value, pointer, size);
         temporary_parameter->reference_value[size] = '\0';
         temporary_parameter->type = TEMPLATE_PARAMETER_REFERENCE;
diff --git a/src/viriatum_commons/template/handler.h b/src/viriatum_commons/template/handler.h
index aca5657..202d478 100644
--- a/src/viriatum_commons/template/handler.h
+++ b/src/viriatum_commons/template/handler.h
@@ -116,22 +116,22 @@ typedef struct template_parameter_t {
     /**
      * The name of the current parameter.
      */
-    unsigned char name[64];
+    unsigned char *name;
 
     /**
      * The "raw" and unprocessed parameter value.s
      */
-    unsigned char raw_value[128];
+    unsigned char *raw_value;
 
     /**
      * The value as a string of the parameter.
      */
-    unsigned char string_value[128];
+    unsigned char *string_value;
 
     /**
      * The value as a refernce of the parameter.
      */
-    unsigned char reference_value[64];
+    unsigned char *reference_value;
 
     /**
      * The value as an integer of the parameter.
-- 
2.43.0


From acd75508f545bbc9879c3effcd1cbd26bd75d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:43 +0000
Subject: [PATCH 61/71] fix: release the nodes of the task queue of the thread
 pool

---
 src/viriatum_commons/thread/thread_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/thread/thread_pool.c b/src/viriatum_commons/thread/thread_pool.c
index 904d83f..3f96eca 100644
--- a/src/viriatum_commons/thread/thread_pool.c
+++ b/src/viriatum_commons/thread/thread_pool.c
@@ -146,7 +146,7 @@ THREAD_RETURN pool_runner_thread(THREAD_ARGUMENTS parameters) {
         }
 
         /* retrieves the work thread task */
-        pop_value_linked_list(thread_pool->task_queue, (void **) &work_thread_task, 0);
+        pop_value_linked_list(thread_pool->task_queue, (void **) &work_thread_task, 1);
 
         /* unlock the task condition lock */
         CONDITION_UNLOCK(thread_pool->task_condition, thread_pool->task_condition_lock);
-- 
2.43.0


From 3392b2eecf9be94c4e82c33071fc495e024e742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:33 +0000
Subject: [PATCH 62/71] fix: do not copy extensions longer than the buffer of
 the mime type lookup

---
 src/viriatum/system/service.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 9b4d07d..33e7400 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2436,6 +2436,12 @@ const char *_get_mime_type_service(struct service_t *service, char *extension) {
     char extension_l[VIRIATUM_MAX_EXTENSION_SIZE];
     size_t extension_s = strlen(extension);
     struct service_options_t *service_options = service->options;
+
+    /* in case the extension does not fit in the buffer (the extension of
+    a path without any dot is the complete path) there's no mime type
+    associated with it and it must not be copied into the buffer */
+    if(extension_s >= VIRIATUM_MAX_EXTENSION_SIZE) { return NULL; }
+
     memcpy(extension_l, extension, extension_s);
     extension_l[extension_s] = '\0';
     lowercase(extension_l);
-- 
2.43.0


From e961d5ccd8caf9e41c17e199cc7c476f8744df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:29 +0000
Subject: [PATCH 63/71] fix: survive an unwritable pid file and only remove the
 own one

---
 src/viriatum/viriatum.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index c26a1a7..e0270fb 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -54,6 +54,7 @@ See 'viriatum --help[=<command>]' for more information on a specific command.\n"
 START_MEMORY;
 
 unsigned char local = 0;
+static unsigned char daemonized = FALSE;
 static struct service_t *service = NULL;
 
 ERROR_CODE init_service(char *program_name, struct hash_map_t *arguments) {
@@ -285,6 +286,8 @@ void daemonize() {
     FILE *pid_file;
     char pid_string[1024];
     size_t pid_string_length;
+    size_t pid_count;
+    int pid_result;
 
     /* allocates space for the file descriptors
     to be used to redirect the default stream */
@@ -322,10 +325,23 @@ void daemonize() {
     this will allow external programs to make sure viriatum
     is correctly running */
     FOPEN(&pid_file, VIRIATUM_PID_PATH, "wb");
+    if(pid_file == NULL) { exit(EXIT_FAILURE); }
     SPRINTF(pid_string, 1024, "%d\n", pid);
     pid_string_length = strlen(pid_string);
-    fwrite(pid_string, sizeof(char), pid_string_length, pid_file);
-    fclose(pid_file);
+    pid_count = fwrite(pid_string, sizeof(char), pid_string_length, pid_file);
+    pid_result = fclose(pid_file);
+
+    /* in case the pid could not be completely written (eg: full disk)
+    the file is removed, as it must not name a different process, and
+    the process exits in error (as it could not be controlled) */
+    if(pid_count != pid_string_length || pid_result != 0) {
+        remove(VIRIATUM_PID_PATH);
+        exit(EXIT_FAILURE);
+    }
+
+    /* sets the daemon flag, from now on the pid file belongs to the
+    current process and must be removed by it at the end */
+    daemonized = TRUE;
 
     /* opens the log file and redirects the standard output stream
     into it so that every log message is sent there */
@@ -344,6 +360,10 @@ void daemonize() {
     close(STDIN_FILENO);
 }
 void daemonclean() {
+    /* in case the current process is not a daemon (eg: only the version
+    was printed) the pid file is not the one of the current process */
+    if(daemonized == FALSE) { return; }
+
     /* removes the viriatum pid path, so that the daemon
     watching tool are notified that the process is no
     longer running in the current environment */
-- 
2.43.0


From f05d426f152ebff77bb234abff2c8f89ceabb1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:28 +0000
Subject: [PATCH 64/71] fix: end the response of a Lua script once, whatever
 number of writes it takes

A script that wrote its response in more than one chunk had the connection
closed (or unlocked) after the first of them, an error after a write sent a
second response, a script that wrote nothing left the client waiting forever
and a size larger than the string read past its end.
---
 .../src/viriatum_mod_lua/module/handler.c     | 76 ++++++++++++++++---
 .../src/viriatum_mod_lua/module/handler.h     |  6 ++
 2 files changed, 72 insertions(+), 10 deletions(-)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index e4a8f4d..9eb4f71 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -41,6 +41,7 @@ ERROR_CODE create_mod_lua_http_handler(struct mod_lua_http_handler_t **mod_lua_h
     mod_lua_http_handler->lua_state = NULL;
     mod_lua_http_handler->file_path = NULL;
     mod_lua_http_handler->file_dirty = 0;
+    mod_lua_http_handler->written = 0;
 
     /* sets the mod Lua HTTP handler in the upper HTTP handler substrate */
     http_handler->lower = (void *) mod_lua_http_handler;
@@ -193,6 +194,11 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
     /* allocates space for the result code */
     ERROR_CODE result_code;
 
+    /* allocates space for the last data chunk written by the script
+    and for the flags to be used at the end of the response */
+    struct data_t *data;
+    unsigned char flags = http_parser->flags;
+
     /* acquires the lock on the HTTP connection, this will avoids further
     messages to be processed, no parallel request handling problems */
     http_connection->acquire(http_connection);
@@ -236,17 +242,39 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
         RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem executing script file");
     }
 
+    /* removes the values returned by the script file (if any) from the
+    stack, as there's no usage for them */
+    lua_settop(mod_lua_http_handler->lua_state, 0);
+
     /* retrieves the field reference to the handle method that symbol
     to call the function (in protected mode) and retrieves the result */
+    mod_lua_http_handler->written = 0;
     lua_getfield(mod_lua_http_handler->lua_state, LUA_GLOBALSINDEX, "handle");
     result_code = lua_pcall(mod_lua_http_handler->lua_state, 0, 0, 0);
 
+    /* in case something has been written by the script the response ends
+    with the last of the chunks, in case of error the response may not be
+    complete and so the connection must not be kept alive */
+    if(mod_lua_http_handler->written) {
+        if(LUA_ERROR(result_code)) { flags &= ~FLAG_KEEP_ALIVE; }
+        peek_top_value_linked_list(connection->write_queue, (void **) &data);
+        data->callback = _send_response_callback_handler_lua;
+        data->callback_parameters = (void *) (size_t) flags;
+    }
+    /* otherwise in case there's no error the script has produced no response
+    and an error must be sent, otherwise the client would wait forever */
+    else if(!LUA_ERROR(result_code)) {
+        _write_error_connection_lua(http_parser, "No response written");
+    }
+
     /* in case there was an error in Lua */
     if(LUA_ERROR(result_code)) {
         /* retrieves the error message and then writes it to the connection
-        so that the end user may be able to respond to it */
+        so that the end user may be able to respond to it (in case no response
+        has been written by the script), removing it from the stack */
         char *error_message = (char *) lua_tostring(mod_lua_http_handler->lua_state, -1);
-        _write_error_connection_lua(http_parser, error_message);
+        if(!mod_lua_http_handler->written) { _write_error_connection_lua(http_parser, error_message); }
+        lua_settop(mod_lua_http_handler->lua_state, 0);
 
         /* sets the file reference as dirty, this will force the script file
         to be reload on next request */
@@ -334,7 +362,10 @@ int _lua_write_connection(lua_State *lua_state) {
     /* allocates the (final) buffer to send the message */
     unsigned char *buffer;
 
-    /* allocates the data size */
+    /* allocates the data size, the one requested by the script
+    and the (complete) length of the data */
+    lua_Number size;
+    size_t data_length;
     unsigned int data_size;
 
     /* allocates the HTTP parser */
@@ -343,6 +374,10 @@ int _lua_write_connection(lua_State *lua_state) {
     /* allocates the connection */
     struct connection_t *connection;
 
+    /* allocates the HTTP connection and the mod Lua handler */
+    struct http_connection_t *http_connection;
+    struct mod_lua_http_handler_t *mod_lua_http_handler;
+
     /* retrieves the number of (received) arguments */
     unsigned int number_arguments = lua_gettop(lua_state);
 
@@ -383,11 +418,24 @@ int _lua_write_connection(lua_State *lua_state) {
         lua_error(lua_state);
     }
 
-    /* converts the third argument into an integer */
-    data_size = lua_tointeger(lua_state, -1);
-
     /* converts the second argument into a string */
-    data = lua_tostring(lua_state, -2);
+    data = lua_tolstring(lua_state, -2, &data_length);
+
+    /* converts the third argument into an integer and verifies that
+    it does not exceed the length of the data (invalid read) */
+    size = lua_tonumber(lua_state, -1);
+    if(!(size >= 0 && size <= (lua_Number) data_length)) {
+        /* prints a warning message */
+        V_WARNING("Invalid data size\n");
+
+        /* pushes an error message to Lua */
+        lua_pushstring(lua_state, "Invalid data size");
+        lua_error(lua_state);
+    }
+    data_size = (unsigned int) size;
+
+    /* in case there's nothing to be written returns immediately */
+    if(data_size == 0) { return 0; }
 
     /* converts the first argument into HTTP parser structure */
     http_parser = (struct http_parser_t *) lua_touserdata(lua_state, -3);
@@ -400,15 +448,23 @@ int _lua_write_connection(lua_State *lua_state) {
     connection->alloc_data(connection, data_size * sizeof(unsigned char), (void **) &buffer);
     memcpy(buffer, data, data_size);
 
-    /* writes the response to the connection */
+    /* writes the data to the connection, as the script may write more
+    than one chunk the callback for the end of the response is only set
+    when the handle method returns (no data is sent before that) */
     connection->write_connection(
         connection,
         buffer,
         data_size,
-        _send_response_callback_handler_lua,
-        (void *) (size_t) http_parser->flags
+        NULL,
+        NULL
     );
 
+    /* marks the data as written so that the response is
+    correctly ended after the execution of the script */
+    http_connection = (struct http_connection_t *) ((struct io_connection_t *) connection->lower)->lower;
+    mod_lua_http_handler = (struct mod_lua_http_handler_t *) http_connection->http_handler->lower;
+    mod_lua_http_handler->written = 1;
+
     /* return the number of results */
     return 0;
 }
diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.h b/modules/mod_lua/src/viriatum_mod_lua/module/handler.h
index e9b22d6..6aeb3eb 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.h
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.h
@@ -54,6 +54,12 @@ typedef struct mod_lua_http_handler_t {
      * to be executed is currently dirty.
      */
     unsigned int file_dirty;
+
+    /**
+     * Flag that controls if something has been
+     * written by the current call to the script.
+     */
+    unsigned int written;
 } mod_lua_http_handler;
 
 ERROR_CODE create_mod_lua_http_handler(struct mod_lua_http_handler_t **mod_lua_http_handler_pointer, struct http_handler_t *http_handler_pointer);
-- 
2.43.0


From 149f105aa77d3aca2b2a32e0154adcdd46470524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:48 +0000
Subject: [PATCH 65/71] fix: answer a listing whose template can't be loaded
 with an error, not an empty page

---
 src/viriatum/handlers/handler_file.c    |  7 +++++--
 src/viriatum_commons/template/engine.c  |  4 ++--
 src/viriatum_commons/template/handler.c | 12 ++++++++++--
 src/viriatum_commons/template/handler.h |  2 +-
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index a8d3db2..7ff94c3 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -606,6 +606,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates the space for the "read" result
     error code (valid by default) */
     ERROR_CODE error_code = 0;
+    ERROR_CODE template_error;
 
     /* allocates the space required for the authentication result
     boolean value to be used by the basic authentication system */
@@ -739,8 +740,10 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
                 (int) directory_entries_map->size
             );
 
-            /* processes the file as a template handler */
-            process_template_handler(template_handler, template_path);
+            /* processes the file as a template handler, in case the
+            template may not be loaded there's no listing to be sent */
+            template_error = process_template_handler(template_handler, template_path);
+            if(!IS_ERROR_CODE(error_code)) { error_code = template_error; }
 
             /* sets the template handler in the handler file context and unsets
             the flushed flag */
diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index f34c509..b429158 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -119,7 +119,7 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
     /* in case the file is not correctly loaded */
     if(file == NULL) {
         /* returns immediately (no file found) */
-        RAISE_NO_ERROR;
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem opening template");
     }
 
     /* then sets the buffer on the file for reading, this
@@ -138,7 +138,7 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
     file there's nothing that may be parsed */
     if(file_offset < 0) {
         fclose(file);
-        RAISE_NO_ERROR;
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem reading template");
     }
     file_size = (size_t) file_offset;
 
diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 86b1ac7..1db599b 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -227,7 +227,11 @@ void delete_template_parameter(struct template_parameter_t *template_parameter)
     FREE(template_parameter);
 }
 
-void process_template_handler(struct template_handler_t *template_handler, unsigned char *file_path) {
+ERROR_CODE process_template_handler(struct template_handler_t *template_handler, unsigned char *file_path) {
+    /* allocates the value that will hold the (possible) error
+    in the loading of the template file */
+    ERROR_CODE return_value;
+
      /* allocates space for the template engine */
     struct template_engine_t *template_engine;
 
@@ -263,7 +267,7 @@ void process_template_handler(struct template_handler_t *template_handler, unsig
 
     /* processes the file as a template engine and then uses the
     created node structure to traverse for string buffer output */
-    process_template_engine(template_engine, template_settings, file_path);
+    return_value = process_template_engine(template_engine, template_settings, file_path);
     traverse_node_buffer(template_handler, root_node);
 
     /* "joins" the template handler string buffer into the string
@@ -278,6 +282,10 @@ void process_template_handler(struct template_handler_t *template_handler, unsig
 
     /* deletes the template engine */
     delete_template_engine(template_engine);
+
+    /* raises the error resulting from the loading of the template
+    to the upper levels (in case there's one) */
+    RAISE_AGAIN(return_value);
 }
 
 void assign_template_handler(struct template_handler_t *template_handler, unsigned char *name, struct type_t *value) {
diff --git a/src/viriatum_commons/template/handler.h b/src/viriatum_commons/template/handler.h
index 202d478..30be480 100644
--- a/src/viriatum_commons/template/handler.h
+++ b/src/viriatum_commons/template/handler.h
@@ -170,7 +170,7 @@ VIRIATUM_EXPORT_PREFIX void create_template_node(struct template_node_t **templa
 VIRIATUM_EXPORT_PREFIX void delete_template_node(struct template_node_t *template_node);
 VIRIATUM_EXPORT_PREFIX void create_template_parameter(struct template_parameter_t **template_parameter_pointer);
 VIRIATUM_EXPORT_PREFIX void delete_template_parameter(struct template_parameter_t *template_parameter);
-VIRIATUM_EXPORT_PREFIX void process_template_handler(struct template_handler_t *template_handler, unsigned char *file_path);
+VIRIATUM_EXPORT_PREFIX ERROR_CODE process_template_handler(struct template_handler_t *template_handler, unsigned char *file_path);
 VIRIATUM_EXPORT_PREFIX void assign_template_handler(struct template_handler_t *template_handler, unsigned char *name, struct type_t *value);
 VIRIATUM_EXPORT_PREFIX void assign_integer_template_handler(struct template_handler_t *template_handler, unsigned char *name, int value);
 VIRIATUM_EXPORT_PREFIX void assign_string_template_handler(struct template_handler_t *template_handler, unsigned char *name, char *value);
-- 
2.43.0


From 888e58e0bc7587c91df7863f2a3c382e7572ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:15 +0000
Subject: [PATCH 66/71] fix: refuse connections whose descriptor doesn't fit in
 the select sets

---
 src/viriatum/polling/polling_select.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index ef48ca9..867d620 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -116,6 +116,18 @@ ERROR_CODE register_connection_polling_select(struct polling_t *polling, struct
     /* retrieves the polling select */
     struct polling_select_t *polling_select = (struct polling_select_t *) polling->lower;
 
+#ifdef VIRIATUM_PLATFORM_UNIX
+    /* in case the socket handle does not fit in the socket sets (that
+    have a fixed size) the connection can not be handled, setting it
+    would write outside of the sets */
+    if(connection->socket_handle >= FD_SETSIZE) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Socket handle too large for select"
+        );
+    }
+#endif
+
     /* registers the socket handle in the sockets read set */
     _register_sockets_set_polling_select(
         polling_select,
-- 
2.43.0


From 13898e53d69575ca3a6afd60c9d6d453006d50c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:27 +0000
Subject: [PATCH 67/71] fix: don't spin in select while a failed accept or a
 blocked handshake waits

---
 src/viriatum/polling/polling_select.c | 39 +++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 867d620..66a0b8b 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -285,6 +285,17 @@ ERROR_CODE register_write_polling_select(struct polling_t *polling, struct conne
         &polling_select->sockets_write_set
     );
 
+    /* in case the handshake waits for the connection to be writable the
+    data that is waiting to be read can not be consumed until then, the
+    polling would return immediately (and for nothing) because of it */
+    if(connection->status == STATUS_HANDSHAKE) {
+        _unregister_sockets_set_polling_select(
+            polling_select,
+            connection->socket_handle,
+            &polling_select->sockets_read_set
+        );
+    }
+
     /* in case the current state for the connection is not write
     valid must return immediately with no error */
     if(connection->write_valid == FALSE) { RAISE_NO_ERROR; }
@@ -326,6 +337,16 @@ ERROR_CODE unregister_write_polling_select(struct polling_t *polling, struct con
         &polling_select->sockets_write_set
     );
 
+    /* restores the registration for read, that may have been suspended
+    while the handshake was waiting for the connection to be writable */
+    if(connection->read_registered == TRUE) {
+        _register_sockets_set_polling_select(
+            polling_select,
+            connection->socket_handle,
+            &polling_select->sockets_read_set
+        );
+    }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -439,6 +460,24 @@ ERROR_CODE _poll_polling_select(
     polling_select->sockets_read_set_temporary = polling_select->sockets_read_set;
     polling_select->sockets_write_set_temporary = polling_select->sockets_write_set;
 
+    /* in case the last accept operation has failed (eg: no descriptors)
+    the service sockets are not polled, as they would be returned at once
+    and for nothing, the accept is tried again after this operation */
+    if(service->accept_pending) {
+        SOCKET_SET_CLEAR(
+            service->service_socket_handle,
+            &polling_select->sockets_read_set_temporary
+        );
+#ifdef VIRIATUM_IP6
+        if(service->options->ip6) {
+            SOCKET_SET_CLEAR(
+                service->service_socket6_handle,
+                &polling_select->sockets_read_set_temporary
+            );
+        }
+#endif
+    }
+
     /* copies the select timeout to the select timeout temporary */
     polling_select->select_timeout_temporary = polling_select->select_timeout;
 
-- 
2.43.0


From 0eee5426cd5989ac393a451e2fc10493d94b97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:27 +0000
Subject: [PATCH 68/71] fix: bound the number of prefork workers and default it
 to none

---
 src/viriatum/system/service.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 33e7400..fd89014 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -125,6 +125,7 @@ void create_service_options(struct service_options_t **service_options_pointer)
     service_options->ssl_csr = NULL;
     service_options->ssl_key = NULL;
     service_options->handler_name = NULL;
+    service_options->workers = 0;
     service_options->local = 0;
     service_options->default_index = 0;
     service_options->use_template = 0;
@@ -382,9 +383,13 @@ ERROR_CODE create_workers(struct service_t *service) {
     /* retrives the number of worker to be created from the options
     of the provided service if this value is invalid returns immeditely */
     struct service_options_t *service_options = service->options;
-    unsigned char worker_count = service_options->workers;
+    unsigned int worker_count = service_options->workers;
     if(worker_count == 0) { RAISE_NO_ERROR; }
 
+    /* limits the number of workers to the space that exists for
+    the storage of their pid values */
+    if(worker_count > VIRIATUM_MAX_WORKERS) { worker_count = VIRIATUM_MAX_WORKERS; }
+
     /* iterates continuously for the forking of the
     current process (worker creation) */
     while(TRUE) {
@@ -444,9 +449,12 @@ ERROR_CODE join_workers(struct service_t *service) {
     /* retrives the number of worker to be "destroyed" from the options
     of the provided service if this value is invalid returns immeditely */
     struct service_options_t *service_options = service->options;
-    unsigned char worker_count = service_options->workers;
+    unsigned int worker_count = service_options->workers;
     if(worker_count == 0) { RAISE_NO_ERROR; }
 
+    /* limits the number of workers to the ones that may exist */
+    if(worker_count > VIRIATUM_MAX_WORKERS) { worker_count = VIRIATUM_MAX_WORKERS; }
+
     /* in case the current process type for the service is not master
     no need to join (and kill) the workers, it's not the responsible */
     if(service->process_type != MASTER_PROCESS) { RAISE_NO_ERROR; }
-- 
2.43.0


From 5f652d9b24b98923ed84b2bb862010105535e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:39 +0000
Subject: [PATCH 69/71] fix: end the prefork workers when the master can't
 start

---
 src/viriatum/system/service.c | 35 ++++++++++++++++++++++++-----------
 src/viriatum/system/service.h |  6 ++++++
 src/viriatum/viriatum.c       |  4 ++++
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index fd89014..88ae3a5 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -46,6 +46,8 @@ void create_service(struct service_t **service_pointer, unsigned char *name, uns
     service->service_socket_handle = 0;
     service->service_socket6_handle = 0;
     service->accept_pending = FALSE;
+    service->process_type = MASTER_PROCESS;
+    service->worker_count = 0;
     service->http_handler = NULL;
     service->register_signals = NULL;
     service->get_uptime = _get_uptime_service;
@@ -403,8 +405,14 @@ ERROR_CODE create_workers(struct service_t *service) {
         pid = fork();
 
         /* checks if the pid is invalid in case
-        it's exits the parent process in error */
-        if(pid < 0) { exit(EXIT_FAILURE); }
+        it's raises an error, the workers already
+        created are joined by the error handling */
+        if(pid < 0) {
+            RAISE_ERROR_M(
+                RUNTIME_EXCEPTION_ERROR_CODE,
+                (unsigned char *) "Problem creating worker"
+            );
+        }
 
         /* in case the current pid is zero this is
         the child process must break to avoid recursive
@@ -416,8 +424,9 @@ ERROR_CODE create_workers(struct service_t *service) {
         service->worker_pids[fork_count] = pid;
 
         /* increments the fork count variable (one more
-        iteration ran) */
+        iteration ran) and the number of existing workers */
         fork_count++;
+        service->worker_count = fork_count;
     }
 
     /* checks if the current process is a worker (zero based
@@ -446,15 +455,11 @@ ERROR_CODE join_workers(struct service_t *service) {
     status of the process after the wait call */
     int status;
 
-    /* retrives the number of worker to be "destroyed" from the options
-    of the provided service if this value is invalid returns immeditely */
-    struct service_options_t *service_options = service->options;
-    unsigned int worker_count = service_options->workers;
+    /* retrieves the number of workers that have been created and
+    are still to be joined, may be none (returns immediately) */
+    unsigned int worker_count = service->worker_count;
     if(worker_count == 0) { RAISE_NO_ERROR; }
 
-    /* limits the number of workers to the ones that may exist */
-    if(worker_count > VIRIATUM_MAX_WORKERS) { worker_count = VIRIATUM_MAX_WORKERS; }
-
     /* in case the current process type for the service is not master
     no need to join (and kill) the workers, it's not the responsible */
     if(service->process_type != MASTER_PROCESS) { RAISE_NO_ERROR; }
@@ -482,6 +487,9 @@ ERROR_CODE join_workers(struct service_t *service) {
         join_count++;
     }
 
+    /* no more workers exist, they must not be joined again */
+    service->worker_count = 0;
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -1023,7 +1031,12 @@ ERROR_CODE start_service(struct service_t *service) {
     /* in case the current os is compatible with the forking of process
     creates the worker processes to handle more connections at a time,
     this operation creates a much more flexible and scalable solution */
-    create_workers(service);
+    return_value = create_workers(service);
+    if(IS_ERROR_CODE(return_value)) {
+        SOCKET_CLOSE(service->service_socket_handle);
+        service->service_socket_handle = 0;
+        RAISE_AGAIN(return_value);
+    }
 
     /* sets the service in the polling */
     polling->service = service;
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index 9f42981..e32e369 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -404,6 +404,12 @@ typedef struct service_t {
      */
     PID_TYPE worker_pids[VIRIATUM_MAX_WORKERS];
 
+    /**
+     * The number of worker processes that have been
+     * created and not yet joined by the master.
+     */
+    unsigned int worker_count;
+
     /**
      * The set of options that configure
      * the current service instance.
diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index e0270fb..1036e83 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -132,6 +132,10 @@ ERROR_CODE run_service() {
     /* tests the error code value for error and in case there's
     one runs the appropriate measures */
     if(IS_ERROR_CODE(return_value)) {
+        /* joins the workers that may have been already created as
+        they must not outlive the master process */
+        join_workers(service);
+
         /* runs the socket finish so that the proper cleanup
         operations are performed and then re-raises the error*/
         SOCKET_FINISH();
-- 
2.43.0


From fa1f1b14281054fc8504545a93403a23dc9970bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:47 +0000
Subject: [PATCH 70/71] fix: keep the pid file of the daemon when a worker ends

---
 src/viriatum/viriatum.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index 1036e83..157d22b 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -54,7 +54,7 @@ See 'viriatum --help[=<command>]' for more information on a specific command.\n"
 START_MEMORY;
 
 unsigned char local = 0;
-static unsigned char daemonized = FALSE;
+static PID_TYPE daemonized = 0;
 static struct service_t *service = NULL;
 
 ERROR_CODE init_service(char *program_name, struct hash_map_t *arguments) {
@@ -343,9 +343,9 @@ void daemonize() {
         exit(EXIT_FAILURE);
     }
 
-    /* sets the daemon flag, from now on the pid file belongs to the
+    /* sets the daemon (pid) value, from now on the pid file belongs to the
     current process and must be removed by it at the end */
-    daemonized = TRUE;
+    daemonized = pid;
 
     /* opens the log file and redirects the standard output stream
     into it so that every log message is sent there */
@@ -365,8 +365,9 @@ void daemonize() {
 }
 void daemonclean() {
     /* in case the current process is not a daemon (eg: only the version
-    was printed) the pid file is not the one of the current process */
-    if(daemonized == FALSE) { return; }
+    was printed or it's a worker) the pid file is not the one of the
+    current process */
+    if(daemonized == 0 || daemonized != GET_PID()) { return; }
 
     /* removes the viriatum pid path, so that the daemon
     watching tool are notified that the process is no
-- 
2.43.0


From e4ce5be00830846b91a0d8abc73a5ca121faff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:06 +0000
Subject: [PATCH 71/71] fix: use the configured number of prefork workers
 without truncating it

---
 src/viriatum/system/service.c | 4 ++--
 src/viriatum/system/service.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 88ae3a5..54a892c 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2353,7 +2353,7 @@ ERROR_CODE _file_options_service(struct service_t *service, struct hash_map_t *a
     /* tries to retrieve the workers argument from the arguments map, then
     sets the workers (count) value for the service */
     get_value_string_sort_map(general, (unsigned char *) "workers", &value);
-    if(value != NULL) { service_options->workers = (unsigned char) atoi(value); }
+    if(value != NULL) { service_options->workers = (unsigned int) atoi(value); }
 
     /* tries to retrieve the use template argument from the arguments map, then
     sets the use template (boolean) value for the service */
@@ -2431,7 +2431,7 @@ ERROR_CODE _comand_line_options_service(struct service_t *service, struct hash_m
     /* tries to retrieve the workers argument from the arguments map, then
     sets the workers (count) value for the service */
     get_value_string_hash_map(arguments, (unsigned char *) "workers", &value);
-    if(value != NULL) { service_options->workers = (unsigned char) atoi(((struct argument_t *) value)->value); }
+    if(value != NULL) { service_options->workers = (unsigned int) atoi(((struct argument_t *) value)->value); }
 
     /* raises no error */
     RAISE_NO_ERROR;
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index e32e369..0d8b792 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -600,7 +600,7 @@ typedef struct service_options_t {
      * used for handling connection (should
      * approximate to the number of cpus).
      */
-    unsigned char workers;
+    unsigned int workers;
 
     /**
      * If the default index file should be used in case
-- 
2.43.0

