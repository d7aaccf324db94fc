From a8c2221654ccb467d3077070aa27a0e4e6cdd5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 01/45] fix: ring buffer reads across the wrap point of a full
 buffer

RBUF_ITERATE, rbuf_copyn, rbuf_cmpn and rbuf_strntol used a contiguous length
that is wrong for a full buffer, rbuf_strntol and skip_over_newlines did not
follow the rollover, and rbuf_strntol overflowed on large numbers.
---
 src/core/http_parse.cpp  | 24 ++----------------
 src/core/read_buffer.cpp | 54 ++++++++++++++++++----------------------
 src/core/read_buffer.h   |  8 +++++-
 3 files changed, 33 insertions(+), 53 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index c86f097..cd9d169 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -28,30 +28,11 @@
 
 void skip_over_newlines(struct read_buffer* rb) {
 	char* buffer;
-	int end = rbuf_read_to_end(rb);
-
-	//Nothing to skip
-	if (end == 0) {
-		return;
-	}
+	int end = rbuf_read_remaining(rb);
 
 	//Iterate over buffer until the end of the buffer
-	buffer = RBUF_READPTR(rb);
-	for (int i = 0; i < end; i++) {
-		if (*buffer != '\r' && *buffer != '\n') {
-			return;
-		}
-#ifdef DEBUG_BUILD
-		rbuf_debug_read_check(rb, 1);
-#endif
-		rb->read_position++;
-		rbuf_debug_check(rb);
-		buffer++;
-	}
-
-	//Go over anything from the start
-	end = rbuf_read_remaining(rb) - end;
 	for (int i = 0; i < end; i++) {
+		buffer = RBUF_READPTR(rb);
 		if (*buffer != '\r' && *buffer != '\n') {
 			return;
 		}
@@ -60,7 +41,6 @@ void skip_over_newlines(struct read_buffer* rb) {
 #endif
 		rb->read_position++;
 		rbuf_debug_check(rb);
-		buffer++;
 	}
 }
 
diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index b381b1e..2c9ecf5 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 #include "read_buffer.h"
 #include "debug.h"
@@ -13,7 +14,7 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	assert(dest != NULL);
 	rbuf_debug_check(buffer);
 	assert(n <= BUFFER_SIZE);
-	int to_end = rbuf_read_to_end(buffer);
+	int to_end = rbuf_read_contiguous(buffer);
 
 	if (n == 0) {
 		//No bytes to be read
@@ -40,7 +41,6 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	to_end = rbuf_read_remaining(buffer) - to_end;
 	if (to_end != 0) {
 		//Dont read more than needed
-		assert(to_end <= n);
 		if (to_end > n) {
 			to_end = n;
 		}
@@ -72,7 +72,7 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 	}
 
 	//Read the maximum we can / want
-	to_end = rbuf_read_to_end(buffer);
+	to_end = rbuf_read_contiguous(buffer);
 	if (n < to_end) {
 		to_end = n;
 	}
@@ -97,44 +97,32 @@ bool rbuf_strntol(struct read_buffer* buffer, int* output, int max)
 {
 	rbuf_debug_check(buffer);
 	int result = 0;
-	int n = rbuf_read_to_end(buffer);
-	if (max != -1 && max < n) {
-		n = max;
-		max -= n;
+	int to_end = rbuf_read_contiguous(buffer);
+	int remaining = rbuf_read_remaining(buffer);
+	if (max == -1 || max > remaining) {
+		max = remaining;
 	}
 
 	char* buf = RBUF_READPTR(buffer);
-
-	//Handle forward
-	while (n--)
+	for (int n = 0; n < max; n++)
 	{
-		result *= 10;
-		int number = (*buf++) - '0';
+		//Handle rollover
+		if (n == to_end) {
+			buf = RBUF_STARTPTR(buffer);
+		}
 
+		int number = (*buf++) - '0';
 		if (number > 9 || number < 0) {
 			DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
 			return false;
 		}
-		result += number;
-	}
 
-	if (max != 0) {
-		//How many after roll over?
-		n = rbuf_read_remaining(buffer) - n;
-		buf = RBUF_STARTPTR(buffer);
-
-		//Handle rollover
-		while (n--)
-		{
-			result *= 10;
-			int n = (*buf++) - '0';
-
-			if (n > 9 || n < 0) {
-				DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
-				return false;
-			}
-			result += n;
+		//Does not fit
+		if (result > (INT_MAX - number) / 10) {
+			DEBUG("Number is too large\n");
+			return false;
 		}
+		result = result * 10 + number;
 	}
 
 	*output = result;
@@ -165,6 +153,12 @@ int rbuf_read_to_end(struct read_buffer* buffer) {
 		return BUFFER_SIZE - to_end;
 	}
 }
+int rbuf_read_contiguous(struct read_buffer* buffer) {
+	int remaining = rbuf_read_remaining(buffer);
+	int to_end = BUFFER_SIZE - (buffer->read_position & (BUFFER_SIZE - 1));
+
+	return remaining < to_end ? remaining : to_end;
+}
 int rbuf_write_remaining(struct read_buffer* buffer) {
 	rbuf_debug_check(buffer);
 	return RBUF_WRITELENPTR(buffer);
diff --git a/src/core/read_buffer.h b/src/core/read_buffer.h
index bf9e09c..0a35a61 100644
--- a/src/core/read_buffer.h
+++ b/src/core/read_buffer.h
@@ -51,6 +51,12 @@ until the end (highest index)
 */
 int rbuf_read_to_end(struct read_buffer* buffer);
 
+/*
+Get the number of unread bytes that are stored contiguously from
+the read position (rbuf_read_to_end does not handle a full buffer)
+*/
+int rbuf_read_contiguous(struct read_buffer* buffer);
+
 /*
 Get the number of bytes that can be written until maximum
 capacity.
@@ -132,7 +138,7 @@ Move the write offset
 Helper to Iterate over circular buffer
 */
 #define RBUF_ITERATE(rb,n,buffer,end,ret,inner) do { \
-	end = rbuf_read_to_end(&rb); \
+	end = rbuf_read_contiguous(&rb); \
 	n = 0; \
 	if (end != 0) { \
 		buffer = RBUF_READ(rb); \
-- 
2.43.0


From 83de37ee8d23bb9b80ca3984afd305adcc548e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 02/45] fix: process pipelined input that is already buffered

Buffered requests were left unprocessed (or processed twice via stale
state) when the socket had no more data, and a close decided while
handling the next pipelined request was dropped.
---
 src/core/http.cpp             | 15 +++++++++------
 src/core/http_parse_cache.cpp |  7 +++----
 src/core/http_respond.cpp     |  4 ++--
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index d50115a..1d25cc0 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -64,16 +64,19 @@ state_action http_read_handle(scache_connection* connection) {
 			}
 
 			DEBUG("[#%d] Needs more bytes, got errno %d\n", fd, num);
-			return needs_more_read;
-		}
-		
-		DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
 
+			//Unless there is (pipelined) input buffered already
+			if (rbuf_read_remaining(&connection->input) == 0) {
+				return needs_more_read;
+			}
+		} else {
+			DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
 
-		RBUF_WRITEMOVE(connection->input, (uint16_t)num);
+			RBUF_WRITEMOVE(connection->input, (uint16_t)num);
+		}
 	}
 
-	state_action run;
+	state_action run = needs_more_read;
 	int to_end = -1, to_end_old;
 	do {
 		if(!connection->epollin) break;
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2edf4be..e405118 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -389,8 +389,6 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			
 			//Router: Table level
 			if (REQUEST_IS(connection->method, REQUEST_HTTPGET)) {
-				assert(connection->input.read_position == connection->input.write_position);
-
 				if (!connection->cache.target.table.table) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
@@ -671,7 +669,7 @@ state_action http_cache_handle_headers(scache_connection* connection) {
 
 state_action http_cache_handle_request_body(scache_connection* connection) {
 	DEBUG("[#%d] Handling STATE_REQUESTBODY\n", connection->client_sock);
-	int max_write = rbuf_read_to_end(&connection->input);
+	int max_write = rbuf_read_contiguous(&connection->input);
 	assert(max_write >= 0);
 	int to_write = connection->cache.target.key.end_position - connection->cache.target.key.position;
 	assert(to_write >= 0);
@@ -720,7 +718,8 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 		return http_write_response(connection, HTTPTEMPLATE_FULL200OK);
 	}
 
-	return continue_processing;
+	//There may be more buffered after the roll over
+	return needs_more_read;
 }
 
 void cache_destroy(scache_connection* connection){
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index bd99f9b..a284e31 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -63,8 +63,8 @@ bool http_register_read(scache_connection* connection) {
 
 	bool res = connection_register_read(connection);
 
-	if (!connection_stop_soon() && rbuf_write_remaining(&connection->input)) {
-		http_read_handle(connection);
+	if (res && !connection_stop_soon()) {
+		res = http_read_handle(connection) != close_connection;
 	}
 
 	return res;
-- 
2.43.0


From 6d31a2036aa770d2308d76fa15c53a2522bc52cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 03/45] fix: parse header values by line

The value was taken from whatever was buffered: spaces shifted the
iteration, a wrapped value had a negative length and a \r received
without its \n moved the read position past the received input.
---
 src/core/http_parse_cache.cpp | 30 ++++++++++++++----------------
 src/core/read_buffer.h        |  5 +++++
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index e405118..26f261a 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -301,10 +301,7 @@ static state_action http_read_requeststarturl2(scache_connection* connection, ch
 
 static state_action http_read_headers(scache_connection* connection, char* buffer, int n, uint32_t& temporary) {
 	if (*buffer == ':') {
-		int bytes = buffer - RBUF_READ(connection->input);
-		if (bytes < 0) {
-			bytes = rbuf_read_to_end(&connection->input) + (buffer - RBUF_START(connection->input));
-		}
+		int bytes = n;
 		DEBUG("[#%d] Found header of length %d\n", connection->client_sock, bytes);
 
 		if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
@@ -426,20 +423,21 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 }
 
 static state_action http_read_header_extraction(scache_connection* connection, char* buffer, int n) {
-	int temporary = 0;
-	if (*buffer == ' ' && !temporary) {
-		RBUF_READMOVE(connection->input, 1);
-	}
-	else if (*buffer == '\n' || *buffer == '\r') {
-		//We are going to have to skip another char if \r\n
-		if (*buffer == '\r') {
-			temporary = 2;
+	//Wait for the whole line, \r and \n may be received separately
+	if (*buffer == '\n') {
+		//Trim the value
+		int length = n;
+		if (length > 0 && RBUF_PEEK(connection->input, length - 1) == '\r') {
+			length--;
 		}
-		else{
-			temporary = 1;
+		while (length > 0 && RBUF_PEEK(connection->input, length - 1) == ' ') {
+			length--;
+		}
+		int temporary = n + 1 - length;
+		while (length > 0 && RBUF_PEEK(connection->input, 0) == ' ') {
+			RBUF_READMOVE(connection->input, 1);
+			length--;
 		}
-
-		int length = buffer - RBUF_READ(connection->input);
 
 		switch (connection->state) {
 		case HEADER_CONTENTLENGTH:
diff --git a/src/core/read_buffer.h b/src/core/read_buffer.h
index 0a35a61..c7e6dd6 100644
--- a/src/core/read_buffer.h
+++ b/src/core/read_buffer.h
@@ -77,6 +77,11 @@ Get a pointer to the buffer at the current read position
 */
 #define RBUF_READ(x) &(x.buffer)[x.read_position & (BUFFER_SIZE-1)]
 
+/*
+Get the unread byte at the given offset from the read position
+*/
+#define RBUF_PEEK(x, offset) (x.buffer)[(x.read_position + (offset)) & (BUFFER_SIZE-1)]
+
 /*
 Get a pointer to the buffer at the start (idx:0)
 */
-- 
2.43.0


From 9c9914a60e64e9771bc770cc568c1a720fe2b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 04/45] fix: do not read past the received request line

Table, stats, admin and monitoring urls moved the read position one byte
too far, and a url not starting with / hit an assertion (or was taken as
the previous url in release builds).
---
 src/core/http_parse_cache.cpp | 17 ++++++++++-------
 src/core/http_parse_mon.cpp   |  8 +++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 26f261a..1fc0656 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -90,6 +90,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 	else
 	{
 		DEBUG("[#%d] Has request key but is not GET, HEAD, PUT or DELETE (binary: %x)\n", connection->client_sock, connection->method);
+		free(key);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 	}
 
@@ -193,8 +194,10 @@ static inline state_action http_read_requeststartmethod(scache_connection* conne
 }
 
 static inline state_action http_read_requeststarturl1(scache_connection* connection, char* buffer, int n) {
-	//Assert: first char is a / (start of URL)
-	assert(n != 0 || *buffer == '/');
+	//First char is a / (start of URL)
+	if (n == 0 && *buffer != '/') {
+		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+	}
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
@@ -247,7 +250,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 					//Stats Command
 					DEBUG("[#%d] Request stats\n", connection->client_sock);
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					return http_stats_after_eol(connection);
 				}
 
@@ -257,7 +260,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				connection->cache.target.table.table = db_table_get_read(key, n - 1);
 				connection->cache.target.table.start = 0;
 				connection->cache.target.table.limit = DEFAULT_LISTING_LIMIT;
-				RBUF_READMOVE(connection->input, n + 1);
+				RBUF_READMOVE(connection->input, n);
 
 				//Else request for table/key
 				CONNECTION_HANDLER(connection, http_cache_handle_headers);
@@ -269,7 +272,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				DEBUG("[#%d] Request admin url: \"%s\" (%d)\n", connection->client_sock, key, n);
 				if(n == 3 && strncmp(key, "gc", n	) == 0){
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					
 					//GC
 					db_lru_gc();
@@ -278,7 +281,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 			}
 			
 			free(key);
-			RBUF_READMOVE(connection->input, n + 1);
+			RBUF_READMOVE(connection->input, n);
 			return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 		}
 	}
@@ -289,9 +292,9 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 static state_action http_read_requeststarturl2(scache_connection* connection, char* buffer, int n)
 {
 	if (*buffer == ' ') {
+		connection->state = 0;
 		bool temporary = http_key_lookup(connection, n);
 		RBUF_READMOVE(connection->input, n + 1);
-		connection->state = 0;
 
 		return temporary ? needs_more_read : registered_write;
 	}
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 759300f..9a40e2d 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -207,8 +207,10 @@ static inline state_action http_read_requeststartmethod_mon(scache_connection* c
 }
 
 static inline state_action http_mon_read_requeststarturl(scache_connection* connection, char* buffer, int n) {
-	//Assert: first char is a / (start of URL)
-	assert(n != 0 || *buffer == '/');
+	//First char is a / (start of URL)
+	if (n == 0 && *buffer != '/') {
+		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+	}
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
@@ -221,7 +223,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 		char* key = (char*)malloc(sizeof(char) * (n + 1));
 		rbuf_copyn(&connection->input, key, n - 1);
 		key[n - 1] = 0;//Null terminate the key
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 
 		if(n == 1){ // URL: "/"
 			free(key);
-- 
2.43.0


From 13a4706085f6a582a76421495c2407cf79ef5920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 05/45] fix: resume partially written responses

The rest of a response was sent from its start again after a short
write, and a full socket buffer closed the connection.
---
 src/core/connection.cpp | 2 ++
 src/core/http.cpp       | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index b4442a5..0a38942 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -304,6 +304,7 @@ bool connection_remove(scache_connection* conn) {
 		WARN("connection not found");
 	}
 
+	free(conn->output_buffer_free);
 	free(conn);
 	close_socket(fd);
 
@@ -719,6 +720,7 @@ void connection_cleanup_http(scache_connection* connection) {
 	connection->epollout = connection->epollin = false;
 
 	//Free up the connection if dynamically allocated
+	free(connection->output_buffer_free);
 	free(connection);
 }
 
diff --git a/src/core/http.cpp b/src/core/http.cpp
index 1d25cc0..f631ab2 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -113,9 +113,13 @@ state_action http_write_handle(scache_connection* connection) {
 		//Send data
 		int num = write(connection->client_sock, connection->output_buffer, connection->output_length);
 		if (num < 0) {
+			if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
+				return continue_processing;
+			}
 			//TODO: handle error
 			return close_connection;
 		}
+		connection->output_buffer += num;
 		connection->output_length -= num;
 
 		//Check if done
-- 
2.43.0


From e006f2ce5da2ea5d7a8b54012436c551fb8f0890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 06/45] fix: consume the whole request before the stats and not
 found responses

The remaining headers were answered as another request.
---
 src/core/http_parse_cache.cpp | 2 +-
 src/core/http_parse_mon.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 1fc0656..0298c28 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -28,7 +28,7 @@
 extern int epfd;
 
 static state_action http_stats_after_eol(scache_connection* connection) {
-	connection->state = 0;
+	connection->state = 2;
 	CONNECTION_HANDLER(connection,  http_cache_handle_eolstats);
 	return needs_more_read;
 }
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 9a40e2d..42ba92e 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -241,7 +241,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 
 		DEBUG("[#%d] HTTP 404 Not Found for URL \"%s\" of length %d\n", connection->client_sock, key, n);
 		free(key);
-		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
+		return http_headers_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
 	}
 
 	return continue_processing;
-- 
2.43.0


From 8f2060c849a67f87b798d00fbdec870bc04da5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 07/45] fix: initialise the upload target of every PUT

A PUT whose key is being written by another client used the positions
(and content length) of an earlier request and leaked its key, and a
repeated Content-Length leaked the first allocation.
---
 src/core/db.cpp               | 2 ++
 src/core/http_parse_cache.cpp | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3a01b23..006abbb 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -832,6 +832,7 @@ void db_target_setup(struct cache_target* target, struct cache_entry* entry, boo
 	}
 	else{
 		target->fd = -1;
+		target->position = target->end_position = 0;
 	}
 }
 
@@ -1071,6 +1072,7 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 		assert(entry->hash == hash);
 		//If we are currently writing, then it will be mocked
 		if (entry->writing == true) {
+			free(key);
 			return NULL;
 		}
 
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 0298c28..b541399 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -114,6 +114,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 		db_table_close(connection->cache.target.table.table);
 		connection->cache.target.key.entry = NULL;
 		connection->cache.target.key.fd = -1;
+		connection->cache.target.key.position = connection->cache.target.key.end_position = 0;
 	}
 
 	return true;
@@ -357,7 +358,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			// Router: Entry / Key level
 			if (REQUEST_IS(connection->method, REQUEST_CACHE_LEVELKEY)) {
 				if (REQUEST_IS(connection->method, REQUEST_HTTPPUT)) {
-					if (connection->cache.target.key.entry != NULL && connection->cache.target.key.entry->data_length == 0) {
+					if (connection->cache.target.key.entry != NULL ? connection->cache.target.key.entry->data_length == 0 : connection->cache.target.key.end_position == 0) {
 						DEBUG("[#%d] No valid content-length provided for PUT request\n", connection->client_sock);
 						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
 					}
@@ -446,7 +447,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 		case HEADER_CONTENTLENGTH:
 			if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
 				int content_length;
-				if (!rbuf_strntol(&connection->input, &content_length, length)) {
+				if (!rbuf_strntol(&connection->input, &content_length, length) || connection->cache.target.key.end_position != 0) {
 					WARN("Invalid Content-Length value provided");
 
 					//This is an INVALID request
-- 
2.43.0


From cfb89180adf7463a3f87065a9dec102b94c8ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 08/45] fix: abort the upload when its data cannot be stored

A failed write moved the read position back, and the response to a
failed seek left the body to be parsed as requests.
---
 src/core/db.cpp               | 3 +++
 src/core/http_parse_cache.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 006abbb..bef719b 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -799,6 +799,9 @@ int db_entry_open_create(struct cache_entry* e) {
 		if(fd >= 0) {
 			return fd;
 		}
+		if(errno != EEXIST) {
+			break;
+		}
 		// This will rollover -- and that's expected
 		// it ensures safety after saving
 		e->it++;
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index b541399..9ada9fe 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -687,9 +687,13 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 			// Write data
 			if(lseek64(connection->cache.target.key.fd, connection->cache.target.key.position, SEEK_SET) == -1) {
 				PWARN("[#%d] Failed to seek for PUT", connection->client_sock);
-				return http_write_response(connection, HTTPTEMPLATE_FULL404);				
+				return close_connection;
 			}
 			int read_bytes = write(connection->cache.target.key.fd, RBUF_READ(connection->input), to_write);
+			if (read_bytes < 0) {
+				PWARN("[#%d] Failed to write for PUT", connection->client_sock);
+				return close_connection;
+			}
 
 			//Handle the bytes written
 			DEBUG("[#%d] %d bytes to fd %d at position %u\n", connection->client_sock, read_bytes, connection->cache.target.key.fd, connection->cache.target.key.position);
-- 
2.43.0


From 4000fa08df964eccf295ced92b4931b560ed3c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 09/45] fix: lifetime of tables and entries that are deleted
 while in use

Tables that became empty or were deleted while connections still used
them were leaked, freed early or removed another table of the same hash;
table deletion used freed entries and did not count its keys; an entry
deleted during its upload stayed accounted and left its file behind.
---
 src/core/db.cpp               | 90 +++++++++++++++++++++--------------
 src/core/http_parse_cache.cpp | 14 +++---
 2 files changed, 62 insertions(+), 42 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index bef719b..1685f96 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -261,22 +261,25 @@ void db_table_actually_delete(db_table* entry) {
 
 	//Remove table from database
 	khiter_t k = kh_get(table, db.tables, entry->hash);
-	if (k != kh_end(db.tables)) {
+	if (k != kh_end(db.tables) && kh_value(db.tables, k) == entry) {
 		kh_del(table, db.tables, k);
 	}
 
+	// Clear key hash table
+	kh_destroy(entry, entry->cache_hash_set);
+
 	//Free key
 	free(entry->key);
 	free(entry);
 }
 
-static void db_table_deref(db_table* entry, bool actually_delete = false) {
+static void db_table_deref(db_table* entry) {
 	DEBUG("[#] Decrementing table refcount - was: %d\n", entry->refs);
 	assert(entry->refs > 0);
 	entry->refs--;
 	 
-	//Actually clean up the entry
-	if (entry->refs == 0 && (actually_delete || entry->deleted)) {
+	//Actually clean up the table, it is empty if there are no more references
+	if (entry->refs == 0) {
 		//Remove table from hash set
 		db_table_actually_delete(entry);
 	}
@@ -641,7 +644,7 @@ static bool db_load_from_save(){
 					continue;
 				}
 				if(table != NULL){
-					db_table_deref(table, true);
+					db_table_deref(table);
 					table = NULL;
 				}
 				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
@@ -694,7 +697,7 @@ static bool db_load_from_save(){
 	}
 
 	if(table != NULL){
-		db_table_deref(table, true);
+		db_table_deref(table);
 		table = NULL;
 	}
 
@@ -852,10 +855,6 @@ void db_target_entry_close(cache_target* target) {
 		if (target->fd != db.fd_blockfile && target->fd >= 0) {
 			assert(target->fd > 0 || (settings.daemon_mode && target->fd >= 0));
 			close_fd(target->fd, "file descriptor (cache file)");
-
-			if(target->entry->writing){
-				db_entry_delete(target->entry);
-			}
 		}
 
 		target->fd = -1;
@@ -870,6 +869,12 @@ void db_table_close(db_table* table) {
 }
 
 cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length) {
+	//The table may have been deleted since it was looked up
+	if (table->deleted) {
+		free(key);
+		return NULL;
+	}
+
 	uint32_t hash = hash_string(key, length);
 
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
@@ -1058,6 +1063,12 @@ Get a Cache Entry to write
 cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length) {
 	assert(table->refs >= 1); //If not, it wouldnt be existing
 
+	//The table may have been deleted since it was looked up, then it will be mocked
+	if (table->deleted) {
+		free(key);
+		return NULL;
+	}
+
 	uint32_t hash = hash_string(key, length);
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
@@ -1126,6 +1137,12 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 Get a Cache Entry to delete
 */
 cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t length) {
+	//The table may have been deleted since it was looked up
+	if (table->deleted) {
+		free(key);
+		return NULL;
+	}
+
 	uint32_t hash = hash_string(key, length);
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
@@ -1202,38 +1219,34 @@ bool db_entry_handle_delete(cache_entry* entry) {
 	return db_entry_handle_delete(entry, k);
 }
 
-void db_delete_table_entry(db_table* table, khiter_t k, bool actually_delete = true) {
-	// Clear key hash table
-	kh_destroy(entry, table->cache_hash_set);
-
-	// If not fully de-refed remove now, not later
-	if (table->refs != 0) {
-		assert(k != kh_end(db.tables));
-		kh_del(table, db.tables, k);
-	}
-
-	//Remove reference holding table open
-	db_table_deref(table, actually_delete);
-}
-
-
 void db_table_handle_delete(db_table* table, khiter_t k) {
 	//Set deleted
 	assert(!table->deleted);
 	table->deleted = true;
 
+	//A table with entries has a reference holding it open
+	bool has_entries = kh_size(table->cache_hash_set) != 0;
+
 	//Delete keys from table
 	for (khiter_t ke = kh_begin(table->cache_hash_set); ke != kh_end(table->cache_hash_set); ++ke) {
 		if (kh_exist(table->cache_hash_set, ke)) {
 			cache_entry* ce = kh_val(table->cache_hash_set, ke);
 			if (!ce->deleted) {
 				db_entry_handle_softdelete(ce, ke);
-				db_entry_cleanup(ce);
+				assert(db.db_keys != 0);
+				db.db_keys--;
 			}
 		}
 	}
-	
-	db_delete_table_entry(table, k);
+
+	//Remove now, it may still be in use by connections
+	assert(k != kh_end(db.tables));
+	kh_del(table, db.tables, k);
+
+	//Remove reference holding table open
+	if (has_entries) {
+		db_table_deref(table);
+	}
 }
 
 
@@ -1268,14 +1281,10 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 	//Assertion check
 	assert(entry->refs != 0);
 
-	//If table entry, cleanup table
+	//If that was the last entry, remove reference holding table open
+	//the table is cleaned up once its not in use by any connection
 	if (kh_size(entry->table->cache_hash_set) == 0) {
-		assert(!entry->table->deleted);
-		entry->table->deleted = true;
-		k = kh_get(table, db.tables, entry->table->hash);
-		assert (k != kh_end(db.tables));
-		db_delete_table_entry(entry->table, k, true);
-		entry->table = NULL;
+		db_table_deref(entry->table);
 		return true;
 	}
 	return false;
@@ -1326,12 +1335,23 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 	{
 		db.db_size_bytes += data_length - entry->data_length;
 	}
+
+	//Already deleted (while uploading), not to be counted
+	if (entry->deleted)
+	{
+		db.db_size_bytes -= data_length;
+	}
 	
 	entry->data_length = data_length;
 
 	db_target_open(target, true);
 
 	if (IS_SINGLE_FILE(entry)) {
+		//Already deleted (while uploading), nothing else will remove the file
+		if (entry->deleted && target->fd >= 0) {
+			db_entry_delete(entry);
+		}
+
 		//Lengthen file to required size
 		if (ftruncate(target->fd, data_length)<0) {
 			PWARN("File truncation failed (fd: %d, length: %d)", target->fd, data_length);
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 9ada9fe..bb118b5 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -377,7 +377,10 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 						return res ? registered_write : close_connection;
 					}
 					if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
-						db_entry_handle_delete(connection->cache.target.key.entry);
+						//May have been deleted since it was looked up
+						if (!connection->cache.target.key.entry->deleted) {
+							db_entry_handle_delete(connection->cache.target.key.entry);
+						}
 
 						return http_write_response(connection, HTTPTEMPLATE_FULLHTTP200DELETED);
 					}
@@ -390,7 +393,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			
 			//Router: Table level
 			if (REQUEST_IS(connection->method, REQUEST_HTTPGET)) {
-				if (!connection->cache.target.table.table) {
+				if (!connection->cache.target.table.table || connection->cache.target.table.table->deleted) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
 				connection->output_buffer = http_templates[HTTPTEMPLATE_HEADERS200_CONCLOSE];
@@ -401,7 +404,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 				
 			}
 			if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
-				if (!connection->cache.target.table.table) {
+				if (!connection->cache.target.table.table || connection->cache.target.table.table->deleted) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
 				db_table_handle_delete(connection->cache.target.table.table);
@@ -546,10 +549,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 				rbuf_copyn(&connection->input, key, length);
 				cache_entry* entry = db_entry_get_delete(connection->cache.target.table.table, key, length);
 				if (entry != NULL) {
-					if (db_entry_handle_delete(entry))
-					{
-						connection->cache.target.table.table = NULL;
-					}
+					db_entry_handle_delete(entry);
 					db_entry_deref(entry, false);
 				}
 			}
-- 
2.43.0


From fb187e4f8f84297a8636e8adeae6fa3216f6a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 10/45] fix: bounded table listings

The listing window could start past the last bucket (reading out of
bounds), missed or ended early on the first buckets, and sent keys
straight out of entries that could be deleted before being written.
---
 src/core/http_respond.cpp | 55 +++++++++++++++------------------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index a284e31..d9bc57e 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -207,45 +207,32 @@ state_action http_respond_close_connection(scache_connection* connection) {
 state_action http_respond_listing(scache_connection* connection) {
 	DEBUG("[#%d] Sending listing response\n", connection->client_sock);
 
-	if (connection->cache.target.table.start > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.start = kh_end(connection->cache.target.table.table->cache_hash_set);
-		connection->cache.target.table.limit = 0;
-	}else if ((connection->cache.target.table.limit + connection->cache.target.table.start) > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.limit = kh_end(connection->cache.target.table.table->cache_hash_set) - (connection->cache.target.table.start + 1);
+	struct table_target* target = &connection->cache.target.table;
+	uint32_t end = kh_end(target->table->cache_hash_set);
+
+	//Limit to what is in the table (now, it may have changed)
+	if (target->start > end) {
+		target->start = end;
+	}
+	if (target->limit > end - target->start) {
+		target->limit = end - target->start;
 	}
 
-	if (connection->cache.target.table.limit > 0) {
-		cache_entry* entry = NULL;
-		int i = connection->cache.target.table.limit + connection->cache.target.table.start;
-		while (!kh_exist(connection->cache.target.table.table->cache_hash_set, i)) {
-			if (connection->cache.target.table.limit == 0) {
-				return close_connection;
-			}
-			connection->cache.target.table.limit--;
-			i--;
-		}
-		entry = kh_val(connection->cache.target.table.table->cache_hash_set, i);
+	while (target->limit > 0) {
+		target->limit--;
 
-		bool cleanup = false;
-		if (connection->cache.target.table.limit) {
-			connection->cache.target.table.limit--;
-		}
-		else{
-			cleanup = true;
+		int i = target->start + target->limit;
+		if (!kh_exist(target->table->cache_hash_set, i)) {
+			continue;
 		}
 
-		if (entry != NULL) {
-			//Returns the number of chars put into the buffer
-			connection->output_buffer = entry->key;
-			connection->output_length = entry->key_length;
-			CONNECTION_HANDLER(connection,  http_respond_listing_separator);
-
-			if (cleanup) {
-				CONNECTION_HANDLER(connection,  http_respond_close_connection);
-			}
-
-			return continue_processing;
-		}
+		//Copied, as the entry may be deleted before its written
+		cache_entry* entry = kh_val(target->table->cache_hash_set, i);
+		connection->output_length = entry->key_length + 2;
+		connection->output_buffer = connection->output_buffer_free = (char*)malloc(connection->output_length);
+		memcpy(connection->output_buffer_free, entry->key, entry->key_length);
+		memcpy(connection->output_buffer_free + entry->key_length, "\r\n", 2);
+		return continue_processing;
 	}
 
 	return close_connection;
-- 
2.43.0


From 7eba8fe07a4d2aa993141d17fc221efba81bfc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 11/45] fix: restore exactly what the saved index describes

Restored entries kept a reference for ever (never freeing their block or
memory), blocks in use for uploads or reads at save time were lost, long
or unusual keys were cut, joined or overflowed the parse buffer, and new
files could take the name of a file the saved index refers to.
---
 src/core/db.cpp | 59 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 1685f96..9d68be1 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -571,8 +571,13 @@ static void db_load_from_save_insert(db_table* table, cache_entry* entry){
 	k = kh_put(entry, table->cache_hash_set, entry->hash, &ret);
 	kh_value(table->cache_hash_set, k) = entry;
 
-	//Refs
-	db_entry_incref(entry, false);
+	//Nothing is using it yet, so no reference is taken
+	assert(entry->refs == 0);
+
+	//Never reuse a file referenced by the saved index
+	if (entry->it >= nextit) {
+		nextit = entry->it + 1;
+	}
 
 	assert(!entry->deleted);
 	db.db_size_bytes += entry->data_length;
@@ -595,15 +600,22 @@ static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t
 	return entry;
 }
 
+static char* copy_key(const char* key, size_t length){
+	char* copy = (char*)malloc(length + 1);
+	memcpy(copy, key, length);
+	copy[length] = 0;//Null terminate the key
+	return copy;
+}
+
 static bool db_load_from_save(){
-	char buffer[MAX_PATH], buffer2[2048];
+	char buffer[MAX_PATH];
 	char *bp = NULL;
 	bool ret = false;
 	size_t len = 0;
-	uint32_t u1, u2, u3, u4;
+	uint32_t u2, u3, u4;
 	db_table* table = NULL;
 	cache_entry* entry;
-	int d1;
+	int d1, start;
 	ssize_t read;
 
 	snprintf(buffer, sizeof(buffer), "%s/index.save", db.path_root);
@@ -630,24 +642,17 @@ static bool db_load_from_save(){
 
 	while ((read = getline(&bp, &len, fp)) != -1) {
         if(read <= 2 || bp[1] != ':') continue;
+		if(bp[read - 1] == '\n') read--;
 		switch(bp[0]){
 			case 'f':
-				if(sscanf(bp, "f:%u", &u1) != 1){
-					WARN("Free block parsing error\n");
-					continue;
-				}
-				db_block_free(u1);
+				// any block that isn't used by an entry is free
 			break;
 			case 't':
-				if(sscanf(bp, "t:%s", buffer2) != 1){
-					WARN("Table parsing error\n");
-					continue;
-				}
 				if(table != NULL){
 					db_table_deref(table);
 					table = NULL;
 				}
-				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
+				table = db_table_get_write(copy_key(bp + 2, read - 2), read - 2);
 				entry = NULL;
 				break;
 			case 'b':
@@ -656,13 +661,14 @@ static bool db_load_from_save(){
 					WARN("File entry must be after table\n");
 					continue;
 				}
-				if(sscanf(bp+1, ":%d:%u:%u:%u:%s", &d1, &u2, &u3, &u4, buffer2) != 5){
+				start = 0;
+				if(sscanf(bp, "%*c:%d:%u:%u:%u:%n", &d1, &u2, &u3, &u4, &start) != 4 || start == 0){
 					WARN("Entry parsing error\n");
 					continue;
 				}
 			
 				//>block, ce->data_length, ce->expires, ce->it
-				entry = db_load_from_save_entry(table, strdup(buffer2), strlen(buffer2), d1, u2, u3, u4);
+				entry = db_load_from_save_entry(table, copy_key(bp + start, read - start), read - start, d1, u2, u3, u4);
 
 				if(d1 < 0){
 					// Test file existance
@@ -670,6 +676,7 @@ static bool db_load_from_save(){
 					
 					if( access( buffer, F_OK ) == -1 ) {
 						DEBUG("skipping as file %s does not exist\n", buffer);
+						free(entry->key);
 						free(entry);
 						continue;
 					}
@@ -677,6 +684,7 @@ static bool db_load_from_save(){
 					// Test size of blockfile
 					if(d1 >= db.blocks_exist){
 						DEBUG("skipping as block %d does not exist\n", d1);
+						free(entry->key);
 						free(entry);
 						continue;
 					}
@@ -780,6 +788,21 @@ bool db_open(const char* path) {
 			db_block_free((uint32_t)(i / BLOCK_LENGTH));
 		}
 		db.blocks_free = db.blocks_exist;
+	}else{
+		// Blocks not used by any of the loaded entries are free
+		char* used = (char*)calloc(db.blocks_exist + 1, 1);
+		uint32_t blocks_exist = db.blocks_exist;
+		for (cache_entry* entry = db.lru_head; entry != NULL; entry = entry->lru_next) {
+			if (entry->block >= 0 && (uint32_t)entry->block < blocks_exist) {
+				used[entry->block] = 1;
+			}
+		}
+		for (uint32_t i = 0; i < blocks_exist; i++) {
+			if (!used[i]) {
+				db_block_free(i);
+			}
+		}
+		free(used);
 	}
 
 	return true;
@@ -1461,6 +1484,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 			//Write table to index
 			table = kh_val(db.tables, ke);
 			if(table->deleted) continue;
+			if(memchr(table->key, '\n', table->key_length)) continue; // can't be stored in the index
 			if(!full_write(fd, "t:", 2)) goto close_fd;
 			if(!full_write(fd, table->key, table->key_length)) goto close_fd;
 			if(!full_write(fd, "\n", 1)) goto close_fd;
@@ -1470,6 +1494,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 				if (kh_exist(table->cache_hash_set, kee)) {
 					ce = kh_val(table->cache_hash_set, kee);
 					if(ce->writing || ce->deleted) continue;
+					if(memchr(ce->key, '\n', ce->key_length)) continue; // can't be stored in the index
 
 					//Write entry key to index
 					temp = snprintf(buffer, sizeof(buffer), "%c:%d:%u:%lu:%u:", ce->block >= 0 ? 'b':'e', ce->block, ce->data_length, ce->expires, ce->it);
-- 
2.43.0


From d8ea45a025f5acc625c0915d11deef2977eedd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 12/45] fix: consistent saves

The saved index could be paired with another save's block file, the copy
was made by an unquoted shell command whose failure was ignored, block
file sizes over 4GiB were cut and an odd sized block file got blocks
beyond its end.
---
 src/core/db.cpp | 67 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 9d68be1..d1c14c0 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -29,6 +29,7 @@ LRU
 #include <fcntl.h>
 #include <stdlib.h>
 #include <sys/wait.h>
+#include <sys/sendfile.h>
 #include <unistd.h>
 #include <assert.h>
 #include "db.h"
@@ -183,7 +184,7 @@ void db_lru_hit(cache_entry* entry) {
 }
 
 static void db_block_size() {
-	if (ftruncate(db.fd_blockfile, db.blocks_exist*BLOCK_LENGTH) < 0) {
+	if (ftruncate(db.fd_blockfile, (off64_t)db.blocks_exist*BLOCK_LENGTH) < 0) {
 		PWARN("File truncation failed (length: %d)", db.blocks_exist);
 	}
 }
@@ -337,18 +338,42 @@ void db_lru_cleanup_percent(int* bytes_to_remove) {
 	DEBUG("[#] LRU attempted to remove %d bytes, %d bytes remaining\n", debug_bytes, *bytes_to_remove);
 }
 
-static void force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
-	char buffer[8096];
+static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
 	//TODO: reflink
-	/*int ret = link(fileThatExists, fileThatDoesNotExist);
-	char buffer[8096];
-	if(ret != 0){
-		PWARN("Unable to hard link");*/
-		//Really bad! Temporary.
-		snprintf(buffer, sizeof(buffer), "cp %s %s", fileThatExists, fileThatDoesNotExist);
-		printf("Executing %s\n", buffer);
-		system(buffer);
-	//}
+	int in = open(fileThatExists, O_RDONLY | O_LARGEFILE | O_CLOEXEC);
+	if (in == -1) {
+		return false;
+	}
+	int out = open(fileThatDoesNotExist, O_WRONLY | O_CREAT | O_TRUNC | O_LARGEFILE | O_CLOEXEC, S_IRUSR | S_IWUSR);
+	if (out == -1) {
+		close_fd(in, "file descriptor (copy source)");
+		return false;
+	}
+
+	// copy the data, but not the holes
+	off64_t size = lseek64(in, 0, SEEK_END);
+	off64_t pos = 0;
+	bool ret = size >= 0 && ftruncate(out, size) == 0;
+	while (ret && pos < size) {
+		off64_t data = lseek64(in, pos, SEEK_DATA);
+		if (data == -1) {
+			ret = errno == ENXIO; // only a hole until the end
+			break;
+		}
+		off64_t hole = lseek64(in, data, SEEK_HOLE);
+		ret = hole > data && lseek64(out, data, SEEK_SET) == data;
+		for (pos = data; ret && pos < hole;) {
+			ssize_t copied = sendfile64(out, in, &pos, hole - pos);
+			ret = copied > 0 || (copied == -1 && errno == EINTR);
+		}
+	}
+
+	close_fd(in, "file descriptor (copy source)");
+	close_fd(out, "file descriptor (copy)");
+	if (!ret) {
+		unlink(fileThatDoesNotExist);
+	}
+	return ret;
 }
 
 static int db_expire_cursor_table(db_table* table) {
@@ -712,7 +737,9 @@ static bool db_load_from_save(){
 	// move over block file (via link to preserve save)
 	snprintf(buffer, sizeof(buffer), "%s/blockfile.db.save", db.path_root);
 	unlink(db.path_blockfile);
-	force_link(buffer, db.path_blockfile);
+	if (!force_link(buffer, db.path_blockfile)) {
+		PFATAL("Failed to copy the saved block file to %s", db.path_blockfile);
+	}
 
 	ret = true;
 close_fd:
@@ -780,7 +807,8 @@ bool db_open(const char* path) {
 		if((size % BLOCK_LENGTH) != 0){
 			WARN("Block file was strange size of %d", size);
 			
-			if(ftruncate(db.fd_blockfile, (size / BLOCK_LENGTH) * BLOCK_LENGTH) == -1){
+			size -= size % BLOCK_LENGTH;
+			if(ftruncate(db.fd_blockfile, size) == -1){
 				PFATAL("Failed to truncate blockfile %s", db.path_blockfile);
 			}
 		}
@@ -1452,7 +1480,10 @@ static pid_t db_index_flush(bool copyOnWrite){
 	fdatasync(db.fd_blockfile);
 
 	// create a hard link from the currentl block file to ${blockfile}.temp
-	force_link(db.path_blockfile, buffer);
+	if(!force_link(db.path_blockfile, buffer)){
+		PWARN("Unable to flush index, unable to copy the block file");
+		return 0;
+	}
 
 	//If we are forking we can do so now
 	if(copyOnWrite){
@@ -1524,8 +1555,10 @@ static pid_t db_index_flush(bool copyOnWrite){
 	assert(temp > 0);
 
 	// execute the renames of tmp files to actual
-	rename(buffer, buffer2);
-	rename(buffer3, buffer4);
+	// the index is last, as without it the database is blank instead of inconsistent
+	if (rename(buffer3, buffer4) == 0) {
+		rename(buffer, buffer2);
+	}
 	unlink(buffer3);
 	unlink(buffer);
 
-- 
2.43.0


From 9efafdea58c87deb904c38aa7537b920c3e9cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 13/45] fix: recognise a terminated flush and evict more than
 2GiB

A flush child that was killed (or already waited for) blocked all later
saves, and the number of bytes to evict was cut to an int.
---
 src/core/db.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index d1c14c0..1c3422c 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -313,8 +313,8 @@ void db_entry_incref(cache_entry* entry, bool table = true) {
 		db_table_incref(entry->table);
 }
 
-void db_lru_cleanup_percent(int* bytes_to_remove) {
-	int debug_bytes = *bytes_to_remove;
+void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
+	int64_t debug_bytes = *bytes_to_remove;
 	while (db.lru_head != NULL && *bytes_to_remove > 0) {
 		cache_entry* l = db.lru_head;
 
@@ -335,7 +335,7 @@ void db_lru_cleanup_percent(int* bytes_to_remove) {
 		}
 	}
 	
-	DEBUG("[#] LRU attempted to remove %d bytes, %d bytes remaining\n", debug_bytes, *bytes_to_remove);
+	DEBUG("[#] LRU attempted to remove %lld bytes, %lld bytes remaining\n", (long long)debug_bytes, (long long)*bytes_to_remove);
 }
 
 static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
@@ -446,13 +446,11 @@ bool db_expire_cursor() {
 static bool currently_flushing(int flags){
 	if(current_flush == 0) return false;
 	int status, w;
-	w = waitpid(current_flush, &status, flags);
-	if (w) {
-		if (WIFEXITED(status)) {
-			current_flush = 0;
-			return false;
-		}
-	} else if(w == -1) {
+	do {
+		w = waitpid(current_flush, &status, flags);
+	} while (w == -1 && errno == EINTR);
+	if (w != 0) {
+		//Exited, killed or already waited for
 		current_flush = 0;
 		return false;
 	}
@@ -471,20 +469,19 @@ void db_lru_gc() {
 	DEBUG("Starting %s\n", do_lru?"LRU GC":"Expiration Cursor");
 	if (do_lru)
 	{
-		int bytes_to_remove;
+		int64_t bytes_to_remove;
 		bool full_cycle;
 		int i = 0;
 		
 		//Do 5 iterations, or one full cycle of expirations
 		do
 		{
-			bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
 			full_cycle = db_expire_cursor();
 			i++;
 		} while (!full_cycle && i < 5);
 		
 		//Apply LRU
-		bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
+		bytes_to_remove = (int64_t)(db.db_size_bytes - settings.max_size) + (int64_t)(settings.max_size * settings.db_lru_clear);
 		if (bytes_to_remove > 0) {
 			db_lru_cleanup_percent(&bytes_to_remove);
 		}
-- 
2.43.0


From 9e6d9095b3618679478b09eaa355b3e2adc3e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 14/45] fix: tables whose names have the same hash

Deleting one table hid the colliding tables stored after it, and file
names depended on the order colliding tables were created in.
---
 src/core/db.cpp | 100 ++++++++++++++++++++++++------------------------
 1 file changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 1c3422c..f83f2c9 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -74,6 +74,9 @@ static pid_t db_index_flush(bool copyOnWrite = true);
 static char filename_buffer[MAX_PATH];
 static uint16_t nextit = 0;
 
+// The furthest any table is stored from the hash of its name (collisions)
+static uint32_t table_max_probe = 0;
+
 db_details* db_get_details() {
 	return &db;
 }
@@ -554,7 +557,7 @@ static uint32_t hash_string(const char* str, int length) {
 }
 
 static void get_key_path(cache_entry* e, char* out) {
-	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), e->table->hash, e->hash, e->it);
+	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), hash_string(e->table->key, e->table->key_length), e->hash, e->it);
 }
 
 
@@ -989,38 +992,43 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 }
 
 /**
-Get table entry, if it does not exist return NULL. Will free name parameter
+Find table by name, if it does not exist return NULL.
 */
-struct db_table* db_table_get_read(char* name, int length) {
+static db_table* db_table_find(const char* name, int length) {
 	uint32_t hash = hash_string(name, length);
-	khiter_t k;
-	db_table* table;
-	bool while_condition;
 
 	//Open addressing for table hash collision
-	do
+	//tables stored before this one may be deleted by now, leaving a gap
+	for (uint32_t i = 0; i <= table_max_probe; i++)
 	{
-		k = kh_get(table, db.tables, hash);
+		khiter_t k = kh_get(table, db.tables, hash + i);
 		if (k == kh_end(db.tables)) {
-			table = NULL;
-			goto end;
+			continue;
 		}
 
-		table = kh_value(db.tables, k);
+		db_table* table = kh_value(db.tables, k);
 		assert(table != NULL);
-		assert(table->hash == hash);
-		
+		assert(table->hash == hash + i);
+
 		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
-		if (while_condition)
-		{
-			hash++;
+		if (table->key_length == length && strncmp(table->key, name, length) == 0) {
+			return table;
 		}
-	} while (while_condition);
+	}
 
-	db_table_incref(table);
+	return NULL;
+}
+
+/**
+Get table entry, if it does not exist return NULL. Will free name parameter
+*/
+struct db_table* db_table_get_read(char* name, int length) {
+	db_table* table = db_table_find(name, length);
+
+	if (table != NULL) {
+		db_table_incref(table);
+	}
 
-end:
 	free(name);
 	return table;
 }
@@ -1034,41 +1042,33 @@ Returns NULL in case of cache collision
 */
 struct db_table* db_table_get_write(char* name, int length) {
 	uint32_t hash = hash_string(name, length);
+	uint32_t probe = 0;
 	khiter_t k;
-	db_table* table;
+	db_table* table = db_table_find(name, length);
 	int ret;
-	bool while_condition;
 	
-	//Open addressing for table hash collision
-	do
-	{
-		k = kh_get(table, db.tables, hash);
-		//Create table if not exists
-		if (k == kh_end(db.tables)) {
-			table = (db_table*)malloc(sizeof(db_table));
-			table->hash = hash;
-			table->key = name;
-			table->key_length = length;
-			table->refs = 1;
-			table->deleted = false;
-			table->cache_hash_set = kh_init(entry);
-
-			k = kh_put(table, db.tables, hash, &ret);
-			kh_value(db.tables, k) = table;
-			return table;
+	//Create table if not exists
+	if (table == NULL) {
+		//Open addressing for table hash collision
+		while (kh_get(table, db.tables, hash + probe) != kh_end(db.tables)) {
+			probe++;
 		}
-
-		table = kh_value(db.tables, k);
-		assert(table != NULL);
-		assert(table->hash == hash);
-	
-		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
-		if (while_condition)
-		{
-			hash++;
+		if (probe > table_max_probe) {
+			table_max_probe = probe;
 		}
-	} while (while_condition);
+
+		table = (db_table*)malloc(sizeof(db_table));
+		table->hash = hash + probe;
+		table->key = name;
+		table->key_length = length;
+		table->refs = 1;
+		table->deleted = false;
+		table->cache_hash_set = kh_init(entry);
+
+		k = kh_put(table, db.tables, hash + probe, &ret);
+		kh_value(db.tables, k) = table;
+		return table;
+	}
 
 	free(name);
 	db_table_incref(table);
-- 
2.43.0


From 530b06eee7bbe6ad290afef4eac944beafab5e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 15/45] fix: signal handling and thread communication

SIGUSR1 ran the garbage collection inside of the signal handler, handlers
could run on the accept threads and changed errno, and the stop and ready
flags were shared between threads without being atomic.
---
 src/core/connection.cpp    | 16 ++++++++++++----
 src/core/signal_handle.cpp |  3 ++-
 src/core/timer.cpp         | 20 ++++++++++++++++++--
 src/core/timer.h           |  1 +
 4 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 0a38942..38069b3 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -22,6 +22,8 @@
 #include <netinet/tcp.h>
 #include <sys/eventfd.h>
 #include <pthread.h>
+#include <signal.h>
+#include <atomic>
 #include <set>
 #include <algorithm>
 #include <fcntl.h>
@@ -30,6 +32,7 @@
 #include "debug.h"
 #include "http.h"
 #include "settings.h"
+#include "timer.h"
 #ifdef DEBUG_BUILD
 /* For reference counting checks */
 #include "db.h"
@@ -39,7 +42,7 @@
 listener_collection scache_listeners = { .listeners = NULL, .listener_count = 0 };
 
 int epfd;
-volatile sig_atomic_t stop_soon = 0;
+std::atomic<int> stop_soon(0);
 static std::set<scache_connection*> connections;
 
 bool connection_stop_soon(){
@@ -50,7 +53,7 @@ struct connection_thread_arg
 {
 	int eventfd;
 	connection_ctype type;
-	bool ready;
+	std::atomic<bool> ready;
 };
 
 struct connections_queued
@@ -479,7 +482,8 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 	pthread_t tid[2];
 	struct epoll_event ev = {};
 	uint64_t u;
-	volatile connection_thread_arg thread_arg[2];
+	connection_thread_arg thread_arg[2];
+	sigset_t signals, signals_old;
 	
 	//Init Mutex
 	if (pthread_mutex_init(&cq_lock, NULL) != 0)
@@ -496,13 +500,16 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 	thread_arg[0].eventfd = thread_arg[1].eventfd = efd;
 	thread_arg[0].ready = thread_arg[1].ready = false;
 
-	// Start Acceptor threads
+	// Start Acceptor threads, signals are to be handled by this thread
+	sigfillset(&signals);
+	pthread_sigmask(SIG_BLOCK, &signals, &signals_old);
 	res = pthread_create(&tid[0], NULL, &connection_handle_accept, (void*)&thread_arg[0]);
 	if (res != 0)
 		PFATAL("can't create cache accept thread");
 	res = pthread_create(&tid[1], NULL, &connection_handle_accept, (void*)(&thread_arg[1]));
 	if (res != 0)
 		PFATAL("can't create mon accept thread");
+	pthread_sigmask(SIG_SETMASK, &signals_old, NULL);
 	
 	// Add monitoring socket
 	scache_connection monitoring_connection;
@@ -533,6 +540,7 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 		// Tight epoll wait loop
 		int nfds = 0;
 		do {
+			timer_check_flush();
 			nfds = epoll_wait(epfd, events, NUM_EVENTS, 500);
 			if(nfds == -1){
 				if(errno == EINTR){
diff --git a/src/core/signal_handle.cpp b/src/core/signal_handle.cpp
index ca98016..b438681 100644
--- a/src/core/signal_handle.cpp
+++ b/src/core/signal_handle.cpp
@@ -1,4 +1,5 @@
 #include <signal.h>
+#include <atomic>
 #include <stdio.h>
 #include <unistd.h>
 #include <string.h>
@@ -6,7 +7,7 @@
 #include "debug.h"
 
 /* Handler for Ctrl-C and related signals */
-volatile extern sig_atomic_t stop_soon;
+extern std::atomic<int> stop_soon;
 static void abort_handler(int sig) {
 	if (stop_soon) {
 		FATAL("Force exit: A second signal (%s) received", strsignal(sig));
diff --git a/src/core/timer.cpp b/src/core/timer.cpp
index 5c833df..e8cc651 100644
--- a/src/core/timer.cpp
+++ b/src/core/timer.cpp
@@ -13,6 +13,7 @@
 
 volatile struct timeval current_time;
 static int mon_fd;
+static volatile sig_atomic_t flush_requested = 0;
 
 static void timer_store_current_time()
 {
@@ -29,6 +30,7 @@ static void timer_store_current_time()
 static void timer_handler(int signum)
 {
 	uint64_t u = 1;
+	int saved_errno = errno;
 
 	// time accurate to the nearest 5ms
 	timer_store_current_time();
@@ -37,25 +39,39 @@ static void timer_handler(int signum)
 	if(monitoing_needs_to_run()){
 		write(mon_fd, &u, sizeof(u));
 	}	
+
+	errno = saved_errno;
 }
 
 static void child_handler(int signum)
 {
 	int wstat;
 	pid_t	pid;
+	int saved_errno = errno;
 
 	while (true) {
 		pid = waitpid (-1, &wstat, WNOHANG );
 		if (pid <= 0)
-			return;
+			break;
 			
 		db_handle_sigchld(pid);
 	}
+
+	errno = saved_errno;
 }
 
 static void flush_handler(int signum)
 {
-	db_lru_gc();
+	// the database can't be used from a signal handler
+	flush_requested = 1;
+}
+
+void timer_check_flush()
+{
+	if (flush_requested) {
+		flush_requested = 0;
+		db_lru_gc();
+	}
 }
 
 void timer_setup(int evfd)
diff --git a/src/core/timer.h b/src/core/timer.h
index 4f720d5..97a1d09 100644
--- a/src/core/timer.h
+++ b/src/core/timer.h
@@ -1,4 +1,5 @@
 volatile extern struct timeval current_time;
 
 void timer_setup(int evfd);
+void timer_check_flush();
 void timer_cleanup();
\ No newline at end of file
-- 
2.43.0


From 451cbcf7d81ed877a9f87f4fd57f0392a96b8fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 16/45] fix: disconnect stalled monitoring clients

The connection was freed while still referenced by the event loop and its
file descriptor closed twice.
---
 src/core/http_parse_mon.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 42ba92e..2a23abe 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -474,16 +474,6 @@ void monitoring_check(){
 		assert(conn != mon_head);
 		if(mon_head != NULL) mon_head->monitoring.prev = NULL;
 
-		// If buffer wasnt cleared already, then we will need to disconnect
-		if(conn->output_buffer != NULL){
-			fd = conn->client_sock;
-			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", fd);
-			http_cleanup(conn);
-			connection_remove(conn);
-			close_socket(fd);
-			continue;
-		}
-
 		// Move to end (tail)
 		if(mon_tail != conn){
 			mon_tail->monitoring.next = conn;
@@ -495,16 +485,23 @@ void monitoring_check(){
 		}
 		conn->monitoring.next = NULL;
 
+		conn->monitoring.scheduled.tv_usec = current_time_copy.tv_usec;
+		conn->monitoring.scheduled.tv_sec = current_time_copy.tv_sec + MONITORING_DEFAULT_INTERVAL;
+
+		// If buffer wasnt cleared already, then we will need to disconnect
+		// the event loop closes (and frees) the connection
+		if(conn->output_buffer != NULL){
+			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", conn->client_sock);
+			shutdown(conn->client_sock, SHUT_RDWR);
+			continue;
+		}
+
 		// Add to output buffer
 		// this will override anything already there
 		// if we can't write in the time allocated just discard. It's not worth buffering.
 		conn->output_buffer = monitoring_strings[conn->monitoring.current];
 		conn->output_length = monitoring_lens[conn->monitoring.current];
 		conn->monitoring.current ++;
-	
-		conn->monitoring.scheduled.tv_usec = current_time_copy.tv_usec;
-		conn->monitoring.scheduled.tv_sec = current_time_copy.tv_sec + MONITORING_DEFAULT_INTERVAL;
-
 
 		// signal for write registration
 		connection_register_write(conn);
-- 
2.43.0


From 053b8ed5209440ed5b018e564b3e7a73fbc29d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 17/45] fix: parse IPv6 bind addresses and check the length of
 unix paths

---
 src/core/settings.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/settings.cpp b/src/core/settings.cpp
index 11263ed..6523991 100644
--- a/src/core/settings.cpp
+++ b/src/core/settings.cpp
@@ -109,12 +109,16 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 			}
 		case bind_parse_state::ipv6:
 		case bind_parse_state::ipv4:
-			if (optarg[i] == ':')
+			//IPv6: [address]:port
+			if (optarg[i] == (state == bind_parse_state::ipv6 ? ']' : ':'))
 			{
 				optarg[i] = 0;
 				if (inet_pton(current->af, optarg + state_start, current->addr) < 0) {
 					PFATAL("Error parsing bind address");
 				}
+				if (state == bind_parse_state::ipv6 && optarg[i + 1] == ':') {
+					i++;
+				}
 				state = bind_parse_state::port;
 				state_start = i + 1;
 			}
@@ -122,6 +126,9 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 		case bind_parse_state::unix_path:
 			if (optarg[i] == 0 || optarg[i] == ',')
 			{
+				if (i - state_start >= (int)sizeof(((struct sockaddr_un*)0)->sun_path)) {
+					FATAL("Bind path is too long");
+				}
 				memcpy(current->addr, optarg + state_start, i - state_start);
 				current->port = 0;
 				if (optarg[i] == ',')
-- 
2.43.0


From 2d5424fed4a142079929d7f5c0bfbda843b4dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 18/45] fix: no body in the response to a HEAD request

---
 src/core/http.cpp             | 13 +++++++++++++
 src/core/http.h               |  1 +
 src/core/http_parse_cache.cpp |  6 +++---
 src/core/http_parse_mon.cpp   |  6 +++---
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index f631ab2..b7907f6 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -168,6 +168,19 @@ void http_templates_init() {
 	}
 }
 
+/*
+Get the length of a static response, a HEAD request is responded to without the body
+*/
+int http_response_length(scache_connection* connection, int http_template) {
+	if (REQUEST_IS(connection->method, REQUEST_HTTPHEAD)) {
+		const char* body = strstr(http_templates[http_template], "\r\n\r\n");
+		if (body != NULL) {
+			return body + 4 - http_templates[http_template];
+		}
+	}
+	return http_templates_length[http_template];
+}
+
 /* Where new connections land */
 void http_connection_handler(scache_connection* connection) {
 	if(connection->ltype == cache_connection){
diff --git a/src/core/http.h b/src/core/http.h
index 882720c..98a82ba 100644
--- a/src/core/http.h
+++ b/src/core/http.h
@@ -105,6 +105,7 @@ int extern http_templates_length[NUMBER_OF_HTTPTEMPLATE];
 state_action http_read_handle(scache_connection* connection);
 state_action http_write_handle(scache_connection* connection);
 void http_templates_init();
+int http_response_length(scache_connection* connection, int http_template);
 void http_connection_handler(scache_connection* connection);
 void http_cleanup(scache_connection* connection);
 
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index bb118b5..0660935 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -36,7 +36,7 @@ static state_action http_stats_after_eol(scache_connection* connection) {
 static state_action http_write_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 1;
 	return needs_more_read;
 }
@@ -44,7 +44,7 @@ static state_action http_write_response_after_eol(scache_connection* connection,
 static state_action http_write_response(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_respond_writeonly);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 0;
 	bool res = connection_register_write(connection);
 	return res?registered_write:close_connection;
@@ -53,7 +53,7 @@ static state_action http_write_response(scache_connection* connection, int http_
 static state_action http_headers_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 2;
 	return needs_more_read;
 }
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 2a23abe..dd38f9c 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -62,7 +62,7 @@ static void enable_keepalive(int sock) {
 static state_action http_write_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 0;
 	return needs_more_read;
 }
@@ -70,7 +70,7 @@ static state_action http_write_response_after_eol(scache_connection* connection,
 static state_action http_write_response(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_respond_writeonly);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 0;
 	bool res = connection_register_write(connection);
 	return res?registered_write:close_connection;
@@ -80,7 +80,7 @@ static state_action http_write_response(scache_connection* connection, int http_
 static state_action http_headers_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 2;
 	return needs_more_read;
 }
-- 
2.43.0


From 14dd9ceff86cbcf86460fdca3c4e55f0806c791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 19/45] fix: copy blocks when sending them

sendfile queues references to the pages of the block file, so a block which
was released and overwritten before the client received it changed the
response that was still in the socket buffer.
---
 src/core/http_respond.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index d9bc57e..80de439 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -133,6 +133,18 @@ state_action http_respond_contentbody(scache_connection* connection) {
 	size_t temp = connection->cache.target.key.end_position - connection->cache.target.key.position;
 	DEBUG("[#%d] To send %d bytes to the socket (len: %d, pos: %u)\n", fd, temp, connection->cache.target.key.entry->data_length, connection->cache.target.key.position);
 	assert(temp >= 0);
+	if (temp != 0 && !IS_SINGLE_FILE(connection->cache.target.key.entry)) {
+		//A block is re-used once it is released, but sendfile does not copy: what is still queued
+		//for the client would change with it
+		connection->output_buffer = connection->output_buffer_free = (char*)malloc(temp);
+		connection->output_length = temp;
+		if (pread64(connection->cache.target.key.fd, connection->output_buffer_free, temp, connection->cache.target.key.position) != (ssize_t)temp) {
+			PWARN("Error reading block. Closing connection.");
+			return close_connection;
+		}
+		CONNECTION_HANDLER(connection, http_respond_writeonly);
+		return continue_processing;
+	}
 	if (temp != 0) {
 		off_t pos = connection->cache.target.key.position;
 		ssize_t bytes_sent = sendfile64(fd, connection->cache.target.key.fd, &pos, temp);
-- 
2.43.0


From b53e9ce3131003fa72e7b0a9ef5ee0303c63dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 20/45] fix: write the process id of the daemon to the PID file

fork_off returns 0 in the daemon, which was written to the file.
---
 src/server/scache.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index 6f1abc8..d7eb402 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -131,11 +131,9 @@ int main(int argc, char** argv)
 	if (settings.daemon_mode) {
 		null_fd = open("/dev/null", O_RDONLY);
 		if (null_fd < 0) PFATAL("Cannot open '/dev/null'.");
-		pid = fork_off();
-	}
-	else{
-		pid = getpid();
+		fork_off();
 	}
+	pid = getpid();
 
 	if (settings.pidfile) {
 		pidfd = write_pid(settings.pidfile, pid);
-- 
2.43.0


From d020786370d353914fec4c5267a0b75d59c621c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 21/45] fix: list a table as it is at one instant

A table that was changed and re-hashed while its listing was written
moved keys past the position of the listing, which then missed them.
---
 src/core/http_respond.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index 80de439..9c0f878 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -230,24 +230,34 @@ state_action http_respond_listing(scache_connection* connection) {
 		target->limit = end - target->start;
 	}
 
+	//Copied all at once, as the table may change or be re-hashed before its written
+	size_t length = 0;
+	for (uint32_t i = target->start; i < target->start + target->limit; i++) {
+		if (kh_exist(target->table->cache_hash_set, i)) {
+			length += kh_val(target->table->cache_hash_set, i)->key_length + 2;
+		}
+	}
+	if (length == 0 || length > INT32_MAX) {
+		return close_connection;
+	}
+
+	char* out = (char*)malloc(length);
+	connection->output_buffer = connection->output_buffer_free = out;
+	connection->output_length = length;
 	while (target->limit > 0) {
 		target->limit--;
 
-		int i = target->start + target->limit;
-		if (!kh_exist(target->table->cache_hash_set, i)) {
-			continue;
+		uint32_t i = target->start + target->limit;
+		if (kh_exist(target->table->cache_hash_set, i)) {
+			cache_entry* entry = kh_val(target->table->cache_hash_set, i);
+			memcpy(out, entry->key, entry->key_length);
+			memcpy(out + entry->key_length, "\r\n", 2);
+			out += entry->key_length + 2;
 		}
-
-		//Copied, as the entry may be deleted before its written
-		cache_entry* entry = kh_val(target->table->cache_hash_set, i);
-		connection->output_length = entry->key_length + 2;
-		connection->output_buffer = connection->output_buffer_free = (char*)malloc(connection->output_length);
-		memcpy(connection->output_buffer_free, entry->key, entry->key_length);
-		memcpy(connection->output_buffer_free + entry->key_length, "\r\n", 2);
-		return continue_processing;
 	}
 
-	return close_connection;
+	CONNECTION_HANDLER(connection, http_respond_close_connection);
+	return continue_processing;
 }
 
 state_action http_respond_listingtotal(scache_connection* connection) {
-- 
2.43.0


From 93293180b98fb489f5a8458e9682ec64630fa956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 22/45] fix: a URL does not extend over the end of its line

---
 src/core/http_parse_cache.cpp | 11 +++++++++++
 src/core/http_parse_mon.cpp   |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 0660935..d65d7f0 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -202,6 +202,12 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
+		//The line ended within the url
+		if (*buffer == '\n') {
+			RBUF_READMOVE(connection->input, n);
+			return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+		}
+
 		//Skip unless character has meaning
 		if (*buffer != '/' && *buffer != ' ') {
 			return continue_processing;//continue
@@ -299,6 +305,11 @@ static state_action http_read_requeststarturl2(scache_connection* connection, ch
 
 		return temporary ? needs_more_read : registered_write;
 	}
+	if (*buffer == '\n') {
+		//The line ended within the url
+		RBUF_READMOVE(connection->input, n);
+		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+	}
 
 	return continue_processing;
 }
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index dd38f9c..6969226 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -214,6 +214,12 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
+		//The line ended within the url
+		if (*buffer == '\n') {
+			RBUF_READMOVE(connection->input, n);
+			return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+		}
+
 		//Skip unless character has meaning
 		if (*buffer != ' ') {
 			return continue_processing;//continue
-- 
2.43.0


From ff50d4cb4af69d6b35baf2b7c4362ed24b196889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 23/45] fix: close the connection after a response which says
 so

---
 src/core/http_parse.cpp       | 18 +++++++++++++++---
 src/core/http_parse.h         |  1 +
 src/core/http_parse_cache.cpp |  2 +-
 src/core/http_parse_mon.cpp   |  2 +-
 src/core/http_respond.cpp     | 14 ++++++++++++--
 src/core/http_respond.h       |  1 +
 6 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index cd9d169..b171e76 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -45,6 +45,18 @@ void skip_over_newlines(struct read_buffer* rb) {
 }
 
 
+/*
+Set the handler for when the (static) output buffer has been written
+*/
+void http_response_handler(scache_connection* connection) {
+	if (connection->output_buffer != NULL && strstr(connection->output_buffer, "\r\nConnection: Close\r\n") != NULL) {
+		CONNECTION_HANDLER(connection,  http_respond_close_connection);
+	}
+	else {
+		CONNECTION_HANDLER(connection,  http_respond_writeonly);
+	}
+}
+
 state_action http_read_eoltoend(scache_connection* connection, char* buffer, int n, uint32_t& temporary) {
 	uint16_t target = temporary & 0x0000FFFF;
 	uint16_t current = (temporary >> 16);
@@ -61,7 +73,7 @@ state_action http_read_eoltoend(scache_connection* connection, char* buffer, int
 	if (target == current) {
 		// register a handler to write the output (and then the request is over)
 		connection->state = 0;
-		CONNECTION_HANDLER(connection,  http_respond_writeonly);
+		http_response_handler(connection);
 		bool res = connection_register_write(connection);
 
 		if (!res) {
@@ -93,8 +105,8 @@ state_action http_handle_eolwritetoend(scache_connection* connection) {
 }
 
 state_action http_discard_input(scache_connection* connection) {
-	//todo discard from readbuffer
 	connection_register_read(connection);
-	rbuf_read_to_end(&connection->input);
+	int discard = rbuf_read_remaining(&connection->input);
+	RBUF_READMOVE(connection->input, discard);
 	return continue_processing;
 }
\ No newline at end of file
diff --git a/src/core/http_parse.h b/src/core/http_parse.h
index 62147df..a8b5824 100644
--- a/src/core/http_parse.h
+++ b/src/core/http_parse.h
@@ -4,6 +4,7 @@
 state_action http_read_eoltoend(scache_connection* connection, char* buffer, int n, uint32_t& temporary);
 state_action http_handle_eolwritetoend(scache_connection* connection);
 state_action http_discard_input(scache_connection* connection);
+void http_response_handler(scache_connection* connection);
 
 /* Cache Only */
 state_action http_cache_handle_method(scache_connection* connection);
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index d65d7f0..b7e7e67 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -42,9 +42,9 @@ static state_action http_write_response_after_eol(scache_connection* connection,
 }
 
 static state_action http_write_response(scache_connection* connection, int http_template) {
-	CONNECTION_HANDLER(connection,  http_respond_writeonly);
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_response_length(connection, http_template);
+	http_response_handler(connection);
 	connection->state = 0;
 	bool res = connection_register_write(connection);
 	return res?registered_write:close_connection;
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 6969226..45d1398 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -68,9 +68,9 @@ static state_action http_write_response_after_eol(scache_connection* connection,
 }
 
 static state_action http_write_response(scache_connection* connection, int http_template) {
-	CONNECTION_HANDLER(connection,  http_respond_writeonly);
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_response_length(connection, http_template);
+	http_response_handler(connection);
 	connection->state = 0;
 	bool res = connection_register_write(connection);
 	return res?registered_write:close_connection;
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index 9c0f878..a2e35bd 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -213,7 +213,14 @@ state_action http_respond_listing_separator(scache_connection* connection) {
 }
 
 state_action http_respond_close_connection(scache_connection* connection) {
-	return close_connection;
+	assert(connection->epollout && !connection->epollin);
+	//The request is over, the rest of the input is discarded until the client closes too
+	//(closing with input unread would reset the connection and lose the end of the response)
+	http_cleanup(connection);
+	shutdown(connection->client_sock, SHUT_WR);
+	CONNECTION_HANDLER(connection, http_discard_input);
+	bool res = connection_register_read(connection);
+	return res ? continue_processing : close_connection;
 }
 
 state_action http_respond_listing(scache_connection* connection) {
@@ -237,7 +244,10 @@ state_action http_respond_listing(scache_connection* connection) {
 			length += kh_val(target->table->cache_hash_set, i)->key_length + 2;
 		}
 	}
-	if (length == 0 || length > INT32_MAX) {
+	if (length == 0) {
+		return http_respond_close_connection(connection);
+	}
+	if (length > INT32_MAX) {
 		return close_connection;
 	}
 
diff --git a/src/core/http_respond.h b/src/core/http_respond.h
index 2896247..9437cc1 100644
--- a/src/core/http_respond.h
+++ b/src/core/http_respond.h
@@ -6,6 +6,7 @@ state_action http_respond_contentlength(scache_connection* connection);
 state_action http_respond_responseend(scache_connection* connection);
 state_action http_respond_contentbody(scache_connection* connection);
 state_action http_respond_writeonly(scache_connection* connection);
+state_action http_respond_close_connection(scache_connection* connection);
 state_action http_respond_cleanupafterwrite(scache_connection* connection) ;
 state_action http_respond_listing(scache_connection* connection);
 state_action http_respond_listingentries(scache_connection* connection);
-- 
2.43.0


From 709196f2ca0f9b63da771cf0b45394b4b06bbd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:49 +0000
Subject: [PATCH 24/45] fix: compare the whole of names which contain NUL

---
 src/core/db.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index f83f2c9..4af54b5 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -953,14 +953,14 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 
 	assert(!entry->deleted);
 
-	if (entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry->key_length != length) {
 			DEBUG("DB Key length does not match\n");
 		}
 		else{
-			if (strncmp(key, entry->key, length) != 0) {
+			if (memcmp(key, entry->key, length) != 0) {
 				DEBUG("String Keys dont match\n");
 			}
 		}
@@ -1011,7 +1011,7 @@ static db_table* db_table_find(const char* name, int length) {
 		assert(table->hash == hash + i);
 
 		//Check table key, cache key collision handling
-		if (table->key_length == length && strncmp(table->key, name, length) == 0) {
+		if (table->key_length == length && memcmp(table->key, name, length) == 0) {
 			return table;
 		}
 	}
@@ -1195,7 +1195,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
 
-	if (entry == NULL || entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry == NULL || entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry == NULL) {
@@ -1206,7 +1206,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 				DEBUG("DB Key length does not match\n");
 			}
 			else{
-				if (strncmp(key, entry->key, length)) {
+				if (memcmp(key, entry->key, length)) {
 					DEBUG("String Keys dont match\n");
 				}
 			}
-- 
2.43.0


From 589b2891603cf230cba9b88f72939c808e6ab117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 25/45] fix: remove data files left behind by a crash at the
 start

---
 src/core/db.cpp | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 4af54b5..b3dde9b 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -40,9 +40,8 @@ LRU
 #include "signal_handle.h"
 #include "connection.h"
 
-#ifdef DEBUG_BUILD
 #include <set>
-#endif
+#include <string>
 
 #define DEC2ALPH(x) ('A' + (x)%26)
 
@@ -755,6 +754,43 @@ close_fd2:
 	return ret;
 }
 
+/*
+Remove the files which do not belong to any entry, left behind by an interrupted process
+*/
+static void db_clear_unused_files() {
+	std::set<std::string> used;
+	std::string file;
+	struct dirent *next_file;
+
+	for (cache_entry* entry = db.lru_head; entry != NULL; entry = entry->lru_next) {
+		if (IS_SINGLE_FILE(entry)) {
+			get_key_path(entry, filename_buffer);
+			used.insert(filename_buffer);
+		}
+	}
+
+	for (char folder1 = 'A'; folder1 <= 'Z'; folder1++) {
+		for (char folder2 = 'A'; folder2 <= 'Z'; folder2++) {
+			snprintf(filename_buffer, MAX_PATH, "%s%c%c", db.path_single, folder1, folder2);
+			DIR *folder = opendir(filename_buffer);
+			if (folder == NULL) {
+				continue;
+			}
+
+			while ((next_file = readdir(folder)) != NULL) {
+				if (next_file->d_name[0] == '.') {
+					continue;
+				}
+				file = std::string(filename_buffer) + "/" + next_file->d_name;
+				if (used.count(file) == 0) {
+					unlink(file.c_str());
+				}
+			}
+			closedir(folder);
+		}
+	}
+}
+
 bool db_open(const char* path) {
 	bool will_black = false;
 
@@ -833,6 +869,8 @@ bool db_open(const char* path) {
 		free(used);
 	}
 
+	db_clear_unused_files();
+
 	return true;
 }
 
-- 
2.43.0


From adf6dacc0913ff77302176aec47142458ce27700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 26/45] fix: end a background save when the server is gone

---
 src/core/db.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index b3dde9b..fda9d1a 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -29,6 +29,8 @@ LRU
 #include <fcntl.h>
 #include <stdlib.h>
 #include <sys/wait.h>
+#include <sys/prctl.h>
+#include <signal.h>
 #include <sys/sendfile.h>
 #include <unistd.h>
 #include <assert.h>
@@ -1522,9 +1524,14 @@ static pid_t db_index_flush(bool copyOnWrite){
 
 	//If we are forking we can do so now
 	if(copyOnWrite){
+		pid_t parent = getpid();
 		pid = fork();
 		if(pid != 0) return pid; // includes -1
 		signal_handler_remove();
+
+		// do not go on without the parent, the files may be used by the next process
+		prctl(PR_SET_PDEATHSIG, SIGKILL);
+		if(getppid() != parent) _exit(EXIT_FAILURE);
 	}
 
 	// Open temporary index file
-- 
2.43.0


From a5bb8022283c6bf9c5e526034b92d4d44f3537a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 27/45] fix: use only async-signal-safe functions in the
 termination handler

---
 src/core/signal_handle.cpp | 13 ++++++++++---
 src/core/signal_handle.h   |  5 ++++-
 src/server/scache.cpp      |  1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/core/signal_handle.cpp b/src/core/signal_handle.cpp
index b438681..1985cbc 100644
--- a/src/core/signal_handle.cpp
+++ b/src/core/signal_handle.cpp
@@ -9,11 +9,18 @@
 /* Handler for Ctrl-C and related signals */
 extern std::atomic<int> stop_soon;
 static void abort_handler(int sig) {
+	// only async-signal-safe functions may be used here
 	if (stop_soon) {
-		FATAL("Force exit: A second signal (%s) received", strsignal(sig));
+		static const char msg[] = "[-] PROGRAM ABORT : Force exit: A second signal received\n";
+		ssize_t res = write(STDERR_FILENO, msg, sizeof(msg) - 1);
+		(void)res;
+		_exit(1);
 	}
-	WARN("Shutting down pid %d due to %s", getpid(), strsignal(sig));
-	stop_soon = 1;
+	stop_soon = sig;
+}
+
+void signal_handler_report() {
+	WARN("Shutting down pid %d due to %s", getpid(), strsignal(stop_soon));
 }
 
 void signal_handler_install() {
diff --git a/src/core/signal_handle.h b/src/core/signal_handle.h
index 1b87dc5..1bf5b53 100644
--- a/src/core/signal_handle.h
+++ b/src/core/signal_handle.h
@@ -1,2 +1,5 @@
 void signal_handler_install();
-void signal_handler_remove();
\ No newline at end of file
+void signal_handler_remove();
+
+// Report the signal which ended the event loop
+void signal_handler_report();
diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index d7eb402..fa0b5b6 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -156,6 +156,7 @@ int main(int argc, char** argv)
 	connection_event_loop(http_connection_handler, monitoring_fd);
 
 	//Cleanup
+	signal_handler_report();
 	WARN("Starting Cleanup");
 	monitoring_close();
 	timer_cleanup();
-- 
2.43.0


From 052153fa573d2dee7d9054b1ba58951bae72b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 28/45] fix: answer a malformed request line which arrived at
 once

---
 src/core/http.cpp           | 4 +++-
 src/core/http_parse_mon.cpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index b7907f6..6a4e808 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -78,12 +78,14 @@ state_action http_read_handle(scache_connection* connection) {
 
 	state_action run = needs_more_read;
 	int to_end = -1, to_end_old;
+	state_action (*handler_old)(scache_connection* connection);
 	do {
 		if(!connection->epollin) break;
+		handler_old = connection->handler;
 		run = http_read_handle_state(connection);
 		to_end_old = to_end;
 		to_end = rbuf_read_remaining(&connection->input);
-	} while (run == needs_more_read && to_end != 0 && to_end != to_end_old);
+	} while (run == needs_more_read && to_end != 0 && (to_end != to_end_old || connection->handler != handler_old));
 
 	//Handle buffer is full, not being processed
 	if (run != registered_write && run != close_connection && run != close_connection && num == 0 && rbuf_write_remaining(&connection->input) == 0) {
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 45d1398..2f5e6d6 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -63,7 +63,7 @@ static state_action http_write_response_after_eol(scache_connection* connection,
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_response_length(connection, http_template);
-	connection->state = 0;
+	connection->state = 1;
 	return needs_more_read;
 }
 
-- 
2.43.0


From 1be3f2bce6afa495094c01da0230324c5d99355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 29/45] fix: do not use a block the block file could not be
 extended by

Its value was answered OK but the block was not found when the database was loaded again.
---
 src/core/db.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index fda9d1a..7e28348 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -187,10 +187,12 @@ void db_lru_hit(cache_entry* entry) {
 	db_validate_lru();
 }
 
-static void db_block_size() {
+static bool db_block_size() {
 	if (ftruncate(db.fd_blockfile, (off64_t)db.blocks_exist*BLOCK_LENGTH) < 0) {
 		PWARN("File truncation failed (length: %d)", db.blocks_exist);
+		return false;
 	}
+	return true;
 }
 
 void db_block_free(int32_t block) {
-- 
2.43.0


From 704e20620ec11efb0f206533e219a9a2b8b4b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 30/45] fix: do not start blank when the saved index can't be
 opened

A blank start discards the saved values. Only do so if there is no saved index.
---
 src/core/db.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 7e28348..e7c479d 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -241,7 +241,11 @@ int32_t db_block_allocate_new() {
 		assert(db.blocks_free == 0);
 		block_num = db.blocks_exist;
 		db.blocks_exist++;
-		db_block_size();
+		if (!db_block_size()) {
+			// not in the block file, it would not be found when it is loaded
+			db.blocks_exist--;
+			return -1;
+		}
 	}
 	
 	return block_num;
-- 
2.43.0


From 682c0da788c5dfd2458c6c20d981e4467d9f0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 31/45] fix: do not replace the saved block file while the old
 index can't be removed

---
 src/core/db.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index e7c479d..20f9413 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -653,12 +653,18 @@ static bool db_load_from_save(){
 	snprintf(buffer, sizeof(buffer), "%s/index.save", db.path_root);
 	int fd = open(buffer, O_RDONLY | O_LARGEFILE, S_IRUSR | S_IWUSR);
 	if (fd == -1){
+		if (errno != ENOENT) {
+			PFATAL("Unable to open saved index");
+		}
 		return false; //it's ok
 	}
 
 	snprintf(buffer, sizeof(buffer), "%s/blockfile.db.save", db.path_root);
 	db.fd_blockfile = open(buffer, O_RDWR | O_LARGEFILE , S_IRUSR | S_IWUSR);
 	if(db.fd_blockfile == -1){
+		if (errno != ENOENT) {
+			PFATAL("Unable to open saved block file");
+		}
 		PWARN("Unable to open saved block file");
 		close_fd(fd, "file descriptor");
 		return ret;
@@ -1594,7 +1600,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 	temp = snprintf(buffer, sizeof(buffer), "%s/index.temp", db.path_root);
 	assert(temp > 0);
 	temp = snprintf(buffer2, sizeof(buffer2), "%s/index.save", db.path_root);
-	unlink(buffer2);
+	assert(temp > 0);
 
 	// blockfile.temp -> blockfile.save
 	temp = snprintf(buffer3, sizeof(buffer3), "%s.temp", db.path_blockfile);
@@ -1604,7 +1610,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 
 	// execute the renames of tmp files to actual
 	// the index is last, as without it the database is blank instead of inconsistent
-	if (rename(buffer3, buffer4) == 0) {
+	if ((unlink(buffer2) == 0 || errno == ENOENT) && rename(buffer3, buffer4) == 0) {
 		rename(buffer, buffer2);
 	}
 	unlink(buffer3);
-- 
2.43.0


From 876b9d2984568d57b659c4dafb1237cc2f66ffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 32/45] fix: refuse to start with the PID file of a running
 instance

---
 src/server/scache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index fa0b5b6..ea2957c 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -36,7 +36,7 @@ int write_pid(char* pidFile, __pid_t pid) {
 	if (fd == -1)
 		PFATAL("Could not open PID file %s", pidFile);
 
-	if (flock(fd, F_WRLCK) == -1) {
+	if (flock(fd, LOCK_EX | LOCK_NB) == -1) {
 		if (errno == EAGAIN || errno == EACCES)
 			PFATAL("PID file '%s' is locked; probably "
 			"scache is already running", pidFile);
-- 
2.43.0


From 2ebd785a406b1e53838ddc03d8debe17255d9f7f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 33/45] fix: answer requests with a too long url or value, and
 lines without a url, with a 400

---
 src/core/http_parse_cache.cpp | 16 ++++++++++++++++
 src/core/http_parse_mon.cpp   | 11 +++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index b7e7e67..78c6f57 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -127,6 +127,12 @@ static inline state_action http_read_requeststartmethod(scache_connection* conne
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLLONGMETHOD);
 	}
 
+	//The line ended within the method
+	if (*buffer == '\n') {
+		RBUF_READMOVE(connection->input, n);
+		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLUNKNOWNMETHOD);
+	}
+
 	//A space signifies the end of the method
 	if (*buffer == ' ') {
 		DEBUG("[#%d] Found space seperator, len: %d\n", connection->client_sock, n);
@@ -623,6 +629,11 @@ state_action http_cache_handle_url(scache_connection* connection) {
 	else{
 		RBUF_ITERATE(connection->input, n, buffer, end, ret, http_read_requeststarturl2(connection, buffer, n));
 	}
+
+	//make sure we dont 100% fill up
+	if (connection->handler == http_cache_handle_url && rbuf_write_remaining(&connection->input) == 0) {
+		return http_write_response(connection, HTTPTEMPLATE_FULLREQUESTTOOLARGE);
+	}
 	return ret;
 }
 
@@ -662,6 +673,11 @@ state_action http_cache_handle_headers_extract(scache_connection* connection) {
 	state_action ret = continue_processing;
 	DEBUG("[#%d] Handling HTTP Header extraction\n", connection->client_sock);
 	RBUF_ITERATE(connection->input, n, buffer, end, ret, http_read_header_extraction(connection, buffer, n));
+
+	//make sure we dont 100% fill up
+	if (connection->handler == http_cache_handle_headers_extract && rbuf_write_remaining(&connection->input) == 0) {
+		return http_write_response(connection, HTTPTEMPLATE_FULLREQUESTTOOLARGE);
+	}
 	return ret;
 }
 
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 2f5e6d6..651823b 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -171,6 +171,12 @@ static inline state_action http_read_requeststartmethod_mon(scache_connection* c
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLLONGMETHOD);
 	}
 
+	//The line ended within the method
+	if (*buffer == '\n') {
+		RBUF_READMOVE(connection->input, n);
+		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLUNKNOWNMETHOD);
+	}
+
 	//A space signifies the end of the method
 	if (*buffer == ' ') {
 		DEBUG("[#%d] Found first space seperator (mon), len: %d\n", connection->client_sock, n);
@@ -262,6 +268,11 @@ state_action http_mon_handle_url(scache_connection* connection) {
 	DEBUG("[#%d] Handling HTTP url for mon (Stage State: %d)\n", connection->client_sock, connection->state);
 
 	RBUF_ITERATE(connection->input, n, buffer, end, ret, http_mon_read_requeststarturl(connection, buffer, n));
+
+	//make sure we dont 100% fill up
+	if (connection->handler == http_mon_handle_url && rbuf_write_remaining(&connection->input) == 0) {
+		return http_write_response(connection, HTTPTEMPLATE_FULLREQUESTTOOLARGE);
+	}
 	return ret;
 }
 
-- 
2.43.0


From 077061adda676811b562b0cd38218b6ef7499c01 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 34/45] fix: check the X-Ttl of an upload which is discarded

---
 src/core/http_parse_cache.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 78c6f57..ce35f87 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -499,22 +499,20 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 
 		case HEADER_XTTL:
 			if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
-				if (connection->cache.target.key.entry != NULL) {
-					int ttl;
-					if (!rbuf_strntol(&connection->input, &ttl, length)) {
-						WARN("Invalid X-Ttl value provided");
+				int ttl;
+				if (!rbuf_strntol(&connection->input, &ttl, length)) {
+					WARN("Invalid X-Ttl value provided");
 
-						//This is an INVALID request
-						RBUF_READMOVE(connection->input, length + temporary);
-						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
-					}
+					//This is an INVALID request
+					RBUF_READMOVE(connection->input, length + temporary);
+					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
+				}
 
-					//Else: We are writing, initalize fd now
-					DEBUG("[#%d] X-Ttl of %d found\n", connection->client_sock, ttl);
+				//Else: We are writing, initalize fd now
+				DEBUG("[#%d] X-Ttl of %d found\n", connection->client_sock, ttl);
 
-					if (ttl != 0) {
-						connection->cache.target.key.entry->expires = ttl + current_time.tv_sec;
-					}
+				if (ttl != 0 && connection->cache.target.key.entry != NULL) {
+					connection->cache.target.key.entry->expires = ttl + current_time.tv_sec;
 				}
 			}
 
-- 
2.43.0


From 530f6c285dfa2ece18b2196631842537bddcace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 35/45] fix: a line of colons does not end the headers

---
 src/core/http_parse_cache.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index ce35f87..439a663 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -323,6 +323,7 @@ static state_action http_read_requeststarturl2(scache_connection* connection, ch
 static state_action http_read_headers(scache_connection* connection, char* buffer, int n, uint32_t& temporary) {
 	if (*buffer == ':') {
 		int bytes = n;
+		temporary = 0;
 		DEBUG("[#%d] Found header of length %d\n", connection->client_sock, bytes);
 
 		if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
-- 
2.43.0


From 0a2331fb9fa8ee412d5a2c057cb6bb9f7d8eb396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 36/45] fix: answer the requests which were received before the
 client closed its side

A client which closes its sending side after the last request (shutdown(SHUT_WR))
lost what was still in the receive buffer of the socket, and the pipelined
requests which were in the input buffer already.
---
 src/core/connection.cpp |  3 ++-
 src/core/http.cpp       | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 38069b3..dc8beae 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -656,7 +656,8 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					if(!do_close && (events[n].events & EPOLLRDHUP)){
 						connection->epollrdhup = true;
 						if(connection->epollin){
-							do_close = true;
+							//There may be more to read, the end is found by reading
+							do_close = !(events[n].events & EPOLLIN);
 						}else{
 							assert(connection->epollout);
 						}
diff --git a/src/core/http.cpp b/src/core/http.cpp
index 6a4e808..2dd3c14 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -43,6 +43,7 @@ return true to close the connection
 state_action http_read_handle(scache_connection* connection) {
 	int num;
 	int fd = connection->client_sock;
+	bool ended = false;
 
 	//Optimization
 	if (connection->input.write_position == connection->input.read_position) {
@@ -54,9 +55,12 @@ state_action http_read_handle(scache_connection* connection) {
 	if (num > 0) {
 		num = read(fd, RBUF_WRITE(connection->input), num);
 		if (num == 0) {
-			return close_connection;
-		}
-		if (num < 0) {
+			//The client will not send any more, but there may be (pipelined) input buffered already
+			if (rbuf_read_remaining(&connection->input) == 0) {
+				return close_connection;
+			}
+			ended = true;
+		} else if (num < 0) {
 			num = errno;
 			if (num != EAGAIN && num != EWOULDBLOCK) {
 				DEBUG("[#%d] A socket error occured while reading: %d\n", fd, num);
@@ -87,6 +91,11 @@ state_action http_read_handle(scache_connection* connection) {
 		to_end = rbuf_read_remaining(&connection->input);
 	} while (run == needs_more_read && to_end != 0 && (to_end != to_end_old || connection->handler != handler_old));
 
+	//What is left is incomplete
+	if (ended && run != registered_write) {
+		return close_connection;
+	}
+
 	//Handle buffer is full, not being processed
 	if (run != registered_write && run != close_connection && run != close_connection && num == 0 && rbuf_write_remaining(&connection->input) == 0) {
 		WARN("Buffer overflowed while handling %s which returned %s (epollin=%d), will disconnect", connection->handler_name, state_action_string[run], connection->epollin);
-- 
2.43.0


From 3855263d2b031e86455eaac24cddfd1f014cb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 37/45] hook: the length of a block can be defined by the build

---
 src/core/config.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/config.h b/src/core/config.h
index 71bbb7f..d9e47df 100644
--- a/src/core/config.h
+++ b/src/core/config.h
@@ -1,5 +1,7 @@
 #define MAXCLIENTS 10240
+#ifndef BLOCK_LENGTH
 #define BLOCK_LENGTH 4096
+#endif
 #define BLOCK_MAX_LOAD 8192
 #define MAX_PATH 512
 #define SHORT_PATH 400
-- 
2.43.0


From bd9e9952e715d181b69fea117cae78e5d0005a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 38/45] fix: an empty header value is not a number

---
 src/core/read_buffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index 2c9ecf5..3a978bc 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -103,6 +103,11 @@ bool rbuf_strntol(struct read_buffer* buffer, int* output, int max)
 		max = remaining;
 	}
 
+	//There is no number
+	if (max == 0) {
+		return false;
+	}
+
 	char* buf = RBUF_READPTR(buffer);
 	for (int n = 0; n < max; n++)
 	{
-- 
2.43.0


From 9570f217644b26e55d040ef74c953a0daba2aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 39/45] fix: do not reuse a file of the saved index when it is
 missing

---
 src/core/db.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 20f9413..b98b940 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -606,11 +606,6 @@ static void db_load_from_save_insert(db_table* table, cache_entry* entry){
 	//Nothing is using it yet, so no reference is taken
 	assert(entry->refs == 0);
 
-	//Never reuse a file referenced by the saved index
-	if (entry->it >= nextit) {
-		nextit = entry->it + 1;
-	}
-
 	assert(!entry->deleted);
 	db.db_size_bytes += entry->data_length;
 }
@@ -629,6 +624,11 @@ static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t
 	entry->hash = hash;
 	entry->expires = expires;
 	entry->it = it;
+
+	//Never reuse a file referenced by the saved index, also when it does not exist any more
+	if (it >= nextit) {
+		nextit = it + 1;
+	}
 	return entry;
 }
 
-- 
2.43.0


From 273cd54017766ee05e1f99efeb3f88837b808cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 40/45] fix: keep the PID file of an instance which starts
 while another one ends

---
 src/server/scache.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index ea2957c..a3e41cd 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -44,6 +44,13 @@ int write_pid(char* pidFile, __pid_t pid) {
 			PFATAL("Unable to lock PID file '%s'", pidFile);
 	}
 
+	//The process which had the file may have removed it just before it was locked
+	struct stat st;
+	if (fstat(fd, &st) == 0 && st.st_nlink == 0) {
+		close(fd);
+		return write_pid(pidFile, pid);
+	}
+
 	if (ftruncate(fd, 0) == -1)
 		PFATAL("Could not truncate PID file '%s'", pidFile);
 
@@ -167,9 +174,10 @@ int main(int argc, char** argv)
 
 	//PID file cleanup
 	if (settings.pidfile) {
-		close(pidfd);
+		//Removed while it is locked, afterwards it may be the one of another process
 		if(!settings.leavepidfile){
 			unlink(settings.pidfile);
 		}
+		close(pidfd);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 56dbb6d97f33bd771eec51693e96d23681010b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:38 +0000
Subject: [PATCH 41/45] fix: refuse addresses, ports and lists of them which
 can not be parsed

An address which is not one (a host name, a typo) was silently replaced by
0.0.0.0, so that the cache was reachable from everywhere; an address without a
port by 0.0.0.0 and a random port; a port above 65535 by another one.
---
 src/core/settings.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/core/settings.cpp b/src/core/settings.cpp
index 6523991..6e26bbd 100644
--- a/src/core/settings.cpp
+++ b/src/core/settings.cpp
@@ -113,8 +113,9 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 			if (optarg[i] == (state == bind_parse_state::ipv6 ? ']' : ':'))
 			{
 				optarg[i] = 0;
-				if (inet_pton(current->af, optarg + state_start, current->addr) < 0) {
-					PFATAL("Error parsing bind address");
+				// without an address (:port) it is any
+				if (optarg[state_start] != 0 && inet_pton(current->af, optarg + state_start, current->addr) != 1) {
+					FATAL("Error parsing bind address %s", optarg + state_start);
 				}
 				if (state == bind_parse_state::ipv6 && optarg[i + 1] == ':') {
 					i++;
@@ -146,7 +147,12 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 			else if (optarg[i] == 0 || optarg[i] == ',')
 			{
 				optarg[current->transparent ? (i - 1) : i] = 0;
-				current->port = atoi(optarg + state_start);
+				char* port_end;
+				long port_number = strtol(optarg + state_start, &port_end, 10);
+				if (port_end == optarg + state_start || *port_end != 0 || port_number < 0 || port_number > 65535) {
+					FATAL("Error parsing bind port %s", optarg + state_start);
+				}
+				current->port = port_number;
 				if (copy == ',')
 				{
 					current++;
@@ -158,6 +164,10 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 			break;
 		}
 	}
+
+	if (state != bind_parse_state::port && state != bind_parse_state::unix_path) {
+		FATAL("Bind address without port: %s", optarg_const);
+	}
 		
 	free(optarg);
 }
-- 
2.43.0


From a07f2fdb3e56a890de51fdb0d46fcec4696df304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:38 +0000
Subject: [PATCH 42/45] fix: release connections which can not be added to the
 epoll set

They stayed in the set of connections with a closed descriptor, which was
closed again at shutdown (then being the one of something else, or failing
an assertion), and their memory was never released.
---
 src/core/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index dc8beae..ca93fb8 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -611,7 +611,7 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					res = epoll_ctl(epfd, EPOLL_CTL_ADD, client_sock, &ev);
 					if (res != 0) {
 						PWARN("[#%d] epoll_ctl() failed to add %d.", client_sock, errno);
-						close(client_sock);
+						connection_remove(connection);
 						continue;
 					}
 
-- 
2.43.0


From 30e15dd9af5cf84a43b1689fd85e1ca427ba207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:57 +0000
Subject: [PATCH 43/45] fix: remove the PID file also when the start fails

A refused start (address in use, unusable directory) left its PID file
behind, with the number of a process which does not exist any more.
---
 src/server/scache.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index a3e41cd..fa0834f 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -69,6 +69,16 @@ int write_pid(char* pidFile, __pid_t pid) {
 	return fd;
 }
 
+/*
+PID file cleanup, also if the process ends due to an error
+(removed while it is locked, afterwards it may be the one of another process)
+*/
+static void remove_pid() {
+	if (!settings.leavepidfile) {
+		unlink(settings.pidfile);
+	}
+}
+
 static int null_fd = -1;                /* File descriptor of /dev/null       */
 
 static __pid_t fork_off() {
@@ -127,7 +137,6 @@ static __pid_t fork_off() {
 /* Time to go down the rabbit hole */
 int main(int argc, char** argv)
 {
-	int pidfd = 0;
 	int monitoring_fd;
 
 	//Settings
@@ -143,7 +152,8 @@ int main(int argc, char** argv)
 	pid = getpid();
 
 	if (settings.pidfile) {
-		pidfd = write_pid(settings.pidfile, pid);
+		write_pid(settings.pidfile, pid);
+		atexit(remove_pid);
 	}
 
 	// Prepare
@@ -171,13 +181,4 @@ int main(int argc, char** argv)
 	connection_cleanup();
 	db_close();
 	close(monitoring_fd);
-
-	//PID file cleanup
-	if (settings.pidfile) {
-		//Removed while it is locked, afterwards it may be the one of another process
-		if(!settings.leavepidfile){
-			unlink(settings.pidfile);
-		}
-		close(pidfd);
-	}
 }
\ No newline at end of file
-- 
2.43.0


From 2aea909124dde0e6ba4d101117aae344a3ba700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 44/45] fix: do not start with a part of the saved database
 after a read error

An error while reading the saved index, determining the size of the block
file or looking for a data file was taken for their end or absence. What
was not found was removed, or its space used for other values.
---
 src/core/db.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index b98b940..26692e2 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -670,6 +670,9 @@ static bool db_load_from_save(){
 		return ret;
 	}
 	off64_t size = lseek64(db.fd_blockfile, 0L, SEEK_END);
+	if (size < 0) {
+		PFATAL("Unable to determine the size of the saved block file");
+	}
 	db.blocks_exist = (uint32_t)(size / BLOCK_LENGTH);
 
 	FILE* fp = fdopen(fd, "r");
@@ -713,6 +716,9 @@ static bool db_load_from_save(){
 					get_key_path(entry, buffer);
 					
 					if( access( buffer, F_OK ) == -1 ) {
+						if (errno != ENOENT && errno != ENOTDIR) {
+							PFATAL("Unable to look for %s", buffer);
+						}
 						DEBUG("skipping as file %s does not exist\n", buffer);
 						free(entry->key);
 						free(entry);
@@ -738,6 +744,11 @@ static bool db_load_from_save(){
 
     }
 
+	//What is missing would be removed
+	if (ferror(fp)) {
+		PFATAL("Unable to read saved index");
+	}
+
 	if(bp != NULL){
 		free(bp);
 	}
@@ -836,11 +847,7 @@ bool db_open(const char* path) {
 	// Calculate the number of blocks in the blockfile
 	off64_t size = lseek64(db.fd_blockfile, 0L, SEEK_END);
 	if(size < 0){
-		PWARN("seek to end failed");
-		size = 0;
-		if(ftruncate(db.fd_blockfile, size) == -1){
-			PFATAL("Failed to completely truncate blockfile %s", db.path_blockfile);
-		}
+		PFATAL("Failed to determine the size of blockfile %s", db.path_blockfile);
 	}
 	db.blocks_exist = (uint32_t)(size / BLOCK_LENGTH);
 	lseek64(db.fd_blockfile, 0L, SEEK_SET);
-- 
2.43.0


From 12d8808bc71b05e700be73b482befdfd4d64affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 45/45] fix: do not start without the folders for data files

Values stored in a folder which could not be created (no space) could not
be stored until the next start, also when there was space again.
---
 src/core/db.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 26692e2..3f3e337 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -533,7 +533,9 @@ static void db_clear_directory(const char* directory) {
 }
 
 void db_init_folders() {
-	mkdir(db.path_single, 0777);
+	if (mkdir(db.path_single, 0777) == -1 && errno != EEXIST) {
+		PFATAL("Unable to create %s", db.path_single);
+	}
 
 	for (char folder1 = 'A'; folder1 <= 'Z'; folder1++) {
 		for (char folder2 = 'A'; folder2 <= 'Z'; folder2++) {
@@ -541,7 +543,9 @@ void db_init_folders() {
 
 			if (access(filename_buffer, F_OK) == -1)
 			{
-				mkdir(filename_buffer, 0777);
+				if (mkdir(filename_buffer, 0777) == -1 && errno != EEXIST) {
+					PFATAL("Unable to create %s", filename_buffer);
+				}
 			}
 		}
 	}
-- 
2.43.0

