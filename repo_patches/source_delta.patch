From b42c3e22e7f6acdcb465ae4d9c17a7fbee56b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 01/38] fix: do not mistake bytes above 0x7f for the end of the
 stream

---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 8be8510..190dd89 100644
--- a/src/message.c
+++ b/src/message.c
@@ -264,7 +264,7 @@ void destroy_message_stream(message_stream** stream) {
 }
 
 static __INLINE int read_character(message_stream* stream) {
-    char chr;
+    unsigned char chr;
 
     if (stream->buffer_position >= stream->buffer_length) {
 
-- 
2.43.0


From 5c5822ec19fb99a0a28beab22ab9729358acba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 02/38] fix: report the end of the stream instead of repeating
 the previous message type

---
 src/message.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.c b/src/message.c
index 190dd89..43c011c 100644
--- a/src/message.c
+++ b/src/message.c
@@ -305,6 +305,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
     list_reset(arguments);
 
+    stream->input.message_type = -1;
+
     while (!stream->input.complete) {
 
     	char chr; 
-- 
2.43.0


From a1274f66c5c2da50577b187e9cf16a8879d00b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 03/38] fix: a malformed line no longer swallows the line after
 it

---
 src/message.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/message.c b/src/message.c
index 43c011c..3ec48cd 100644
--- a/src/message.c
+++ b/src/message.c
@@ -350,8 +350,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     free(key_tmp);
 
                     if (stream->input.message_type == -1) {
-                		stream->input.state = PARSE_STATE_PASS;
-                		stream->input.message_type = -1;
+                        // The line has already ended, continue with the next one
+                		stream->input.state = -prefix_length;
                     } else {
                         stream->input.complete = TRUE;
                     }
@@ -477,7 +477,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
@@ -496,7 +496,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
@@ -560,7 +560,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
@@ -579,7 +579,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
-- 
2.43.0


From af88826e5abd7422a0586f02b12fe00a32d7d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 04/38] fix: drop the arguments and properties of a malformed
 message

---
 src/message.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index 3ec48cd..c2f92ba 100644
--- a/src/message.c
+++ b/src/message.c
@@ -599,10 +599,16 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
             default: { // Parsing prefix
 
                 if (stream->input.state < 0) {
-                    if (chr == TRAX_PREFIX[prefix_length + stream->input.state])
+                    if (chr == TRAX_PREFIX[prefix_length + stream->input.state]) {
                     	// When done, go to type parsing
                         stream->input.state++; 
-                    else 
+                        if (stream->input.state == PARSE_STATE_TYPE) {
+                            // Discard anything collected from a malformed message
+                            list_reset(arguments);
+                            trax_properties_clear(properties);
+                            buffer_reset(stream->input.key_buffer);
+                        }
+                    } else 
                     	// Not a message
                         stream->input.state = chr == '\n' ? -prefix_length : PARSE_STATE_PASS; 
                 }
-- 
2.43.0


From 7ab9e3dabf8f7a03fbe07f33f9386188e758f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 05/38] fix: format error messages from their actual arguments

---
 src/trax.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 9e8286f..ee3017f 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -538,22 +538,17 @@ void clear_error(trax_handle* handle) {
 
 void set_error(trax_handle* handle, const char *format, ...) {
 	va_list args;
-
-    string_buffer* buffer = buffer_create(100);
+    char message[256];
 
 	va_start(args, format);
-	
-    buffer_append(buffer, format, args);
-
+    vsnprintf(message, sizeof(message), format, args);
 	va_end(args);
 
     if (handle->error) {
         free(handle->error);
     }
 
-    handle->error = buffer_extract(buffer);
-
-    buffer_destroy(&buffer);
+    handle->error = strdup(message);
 
 }
 
-- 
2.43.0


From 56ad7a965a86ddfb65cfb8056fa07635b5900ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 06/38] fix: base64decodelen matches what base64decode writes
 for malformed input

---
 src/base64.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index b432bf3..0022b02 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -87,15 +87,12 @@ static const unsigned char pr2six[256] =
 
 int base64decodelen(const char *bufcoded) {
 
-    size_t len = strlen(bufcoded),
-        padding = 0;
+    size_t len = 0;
 
-    if (bufcoded[len-1] == '=' && bufcoded[len-2] == '=') //last two chars are =
-        padding = 2;
-    else if (bufcoded[len-1] == '=') //last char is =
-        padding = 1;
+    // Only the leading valid characters are decoded, everything after that is ignored
+    while (pr2six[((const unsigned char*) bufcoded)[len]] <= 63) len++;
 
-    return ((len*3)/4 - padding) + 1;
+    return (len*3)/4 + 1;
 }
 
 int base64decode(unsigned char *bufplain, const char *bufcoded) {
-- 
2.43.0


From ac8f9c3bdba0a5c6c34d359c133dd11bf042e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 07/38] fix: reject memory images with an unknown format or an
 overflowing size

---
 src/trax.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index ee3017f..e436d43 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 
 #define _TRAX_BUILDING
 
@@ -331,9 +332,15 @@ trax_image* image_decode(char* buffer) {
                 (format == TRAX_IMAGE_MEMORY_GRAY8 ? 1 :
                  (format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 0));
         channels = format == TRAX_IMAGE_MEMORY_RGB ? 3 : 1;
+
+        if (format == TRAX_IMAGE_MEMORY_ILLEGAL || width < 1 || height < 1) return result;
+
+        // Divide instead of multiplying, the size can overflow
+        if (height > INT_MAX / (depth * channels) || width > INT_MAX / (depth * channels * height)) return result;
+
         allocated =  (width * height * depth * channels);
 
-        if (width < 1 || height < 1 || outlen != allocated) return result;
+        if (outlen != allocated) return result;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_MEMORY;
-- 
2.43.0


From 852ee6b7914526f5b9c516f122a80d33fa34ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 08/38] fix: leave room for the terminator when decoding a
 memory image

---
 src/trax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index e436d43..a1ca261 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -347,7 +347,8 @@ trax_image* image_decode(char* buffer) {
         result->width = width;
         result->height = height;
         result->format = format;
-        result->data = (char*) malloc(sizeof(char) * allocated);
+        // The decoder also writes a terminating zero
+        result->data = (char*) malloc(sizeof(char) * (allocated + 1));
         verify = base64decode((unsigned char*)result->data, resource);
 
         assert(verify == allocated);
-- 
2.43.0


From 78679e47963cc5f3d65b3689f669815b1c82fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 09/38] fix: report the exact length of a decoded image buffer

---
 src/trax.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index a1ca261..579a445 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -361,7 +361,8 @@ trax_image* image_decode(char* buffer) {
         resource = strntok(token, ';', 32);
         if (!resource) return NULL;
         format = decode_buffer_format(token);
-        outlen = base64decodelen(resource);
+        if (format == TRAX_IMAGE_BUFFER_ILLEGAL) return NULL;
+        outlen = base64decodelen(resource) - 1;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_BUFFER;
@@ -369,7 +370,8 @@ trax_image* image_decode(char* buffer) {
         result->height = 1;
         result->format = format;
 
-        result->data = (char*) malloc(sizeof(char) * (outlen));
+        // The decoder also writes a terminating zero
+        result->data = (char*) malloc(sizeof(char) * (outlen + 1));
         base64decode((unsigned char*)result->data, resource);
     } else {
         *(resource--) = ':'; // Restore the semicolon and use the buffer as URL
-- 
2.43.0


From eaef3bb5024baa40f66c2abce401fedd50aeb03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 10/38] fix: memory image rows are width pixels apart

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 579a445..c80973e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1668,7 +1668,7 @@ char* trax_image_write_memory_row(trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_memory_row(const trax_image* image, int row) {
@@ -1681,7 +1681,7 @@ const char* trax_image_get_memory_row(const trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_buffer(const trax_image* image, int* length, int* format) {
-- 
2.43.0


From 33fce8217e4f5c6b9f7c5dab8ab2325eee05ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 11/38] fix: trax_properties_append keeps existing values
 unless told to overwrite

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index c80973e..8f86256 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -530,8 +530,8 @@ void channels_encode(int channels, char *key) {
 void copy_properties(const trax_properties* source, trax_properties* dest, int flags) {
 
     trax_enumerator f = (flags & COPY_ALL) ?
-     ((flags && COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
-     ((flags && COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
+     ((flags & COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
+     ((flags & COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
     
     trax_properties_enumerate(source, f, dest);
 
-- 
2.43.0


From 7a05629d3373d09847b1b4b8f80a84686269943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 12/38] fix: initialise the server flags for protocol versions
 before 4

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 8f86256..5788287 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -691,8 +691,8 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
     if (metadata->tracker_family)
         trax_properties_set(properties, "trax.family", metadata->tracker_family);
 
+    flags = 0;
     if (IS_VERSION_4(server)) {
-        flags = 0;
         if (metadata->flags & TRAX_METADATA_MULTI_OBJECT) {
             flags |= TRAX_METADATA_MULTI_OBJECT;
             trax_properties_set_int(properties, "trax.multiobject", 1);
-- 
2.43.0


From fbba220b52ff4cc2b6adc498383f9fa6967dde57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 13/38] fix: check both ends of the polygon point index

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 5788287..5140709 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1833,7 +1833,7 @@ void trax_region_set_polygon_point(trax_region* region, int index, float x, floa
 
     assert(REGION(region)->type == POLYGON);
 
-    assert(index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert(index >= 0 && index < (REGION(region)->data.polygon.count));
 
     REGION(region)->data.polygon.x[index] = x;
     REGION(region)->data.polygon.y[index] = y;
@@ -1843,7 +1843,7 @@ void trax_region_get_polygon_point(const trax_region* region, int index, float*
 
     assert(REGION(region)->type == POLYGON);
 
-    assert (index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert (index >= 0 && index < (REGION(region)->data.polygon.count));
 
     if (x) *x = REGION(region)->data.polygon.x[index];
     if (y) *y = REGION(region)->data.polygon.y[index];
-- 
2.43.0


From eb794c319861f3a4faef7b2fe0bc75f1f07a4254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 14/38] fix: numeric getters return the default for empty and
 out of range values

---
 src/trax.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 5140709..eadb96a 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2003,18 +2003,22 @@ int trax_properties_has(const trax_properties* properties, const char* key) {
 int trax_properties_get_int(const trax_properties* properties, const char* key, int def) {
 
     char* end;
-    long ret;
+    int ret;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
 
+    ret = def;
+
     if (value[0] != '\0') {
-        ret = (int) strtod(value, &end);
-        ret = (*end == '\0' && end != value) ? ret : def;
+        double number = strtod(value, &end);
+        // Only numbers that fit into an integer can be converted
+        if (*end == '\0' && end != value && number > INT_MIN - 1.0 && number < INT_MAX + 1.0)
+            ret = (int) number;
     }
 
     free(value);
-    return (int)ret;
+    return ret;
 
 }
 
@@ -2027,6 +2031,8 @@ float trax_properties_get_float(const trax_properties* properties, const char* k
 
     if (value == NULL) return def;
 
+    ret = def;
+
     if (value[0] != '\0') {
         ret = (float) strtod(value, &end);
         ret = (*end == '\0' && end != value) ? ret : def;
-- 
2.43.0


From 5423988967cffb87b36cf67d401ad53b7cf16e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 15/38] fix: handle missing and unknown formats in the hello
 message

---
 src/trax.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index eadb96a..7eff41a 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -594,12 +594,13 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
 
     client->version = trax_properties_get_int(tmp_properties, "trax.version", 1);
 
+    // Rectangles and file paths are assumed if the server does not specify the formats
     tmp = trax_properties_get(tmp_properties, "trax.region");
-    region_formats = region_formats_decode(tmp);
+    region_formats = tmp ? region_formats_decode(tmp) : TRAX_REGION_RECTANGLE;
     free(tmp);
 
     tmp = trax_properties_get(tmp_properties, "trax.image");
-    image_formats = image_formats_decode(tmp);
+    image_formats = tmp ? image_formats_decode(tmp) : TRAX_IMAGE_PATH;
     free(tmp);
 
     // Multiple channels are only supported in TraX protocol version 2
@@ -607,12 +608,17 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
         channels = TRAX_CHANNEL_COLOR;
     } else {
         tmp = trax_properties_get(tmp_properties, "trax.channels");
-        channels = channels_decode(tmp);
+        channels = tmp ? channels_decode(tmp) : 0;
         free(tmp);
         if (channels == 0)
             channels = TRAX_CHANNEL_COLOR;
     }
 
+    if (region_formats < 0 || image_formats < 0 || channels < 0) {
+        DEBUGMSG("Unknown format in hello message.");
+        goto failure;
+    }
+
     tracker_name = trax_properties_get(tmp_properties, "trax.name");
     tracker_description = trax_properties_get(tmp_properties, "trax.description");
     tracker_family = trax_properties_get(tmp_properties, "trax.family");
-- 
2.43.0


From 257856aaeb3aba0360b71f4eebd8ee0ed0d62a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 16/38] fix: the client only accepts state and quit messages
 while waiting

---
 src/trax.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 7eff41a..4c50c6e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -844,10 +844,12 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
             break;
-        } else if (result == TRAX_ERROR) {
+        } else {
+            // Error or a message that the server should never send
             list_destroy(&arguments);
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
+            result = TRAX_ERROR;
             break;
         }
 
-- 
2.43.0


From f69719fac9eed069368894c613138b1728f859b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 17/38] fix: release temporary data while waiting for multiple
 objects

---
 src/trax.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 4c50c6e..47f8049 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1226,6 +1226,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
     if (!HANDLE_ALIVE(server)) {
         set_error(server, "Server not alive");
+        free(object_regions);
+        free(object_properties);
         return TRAX_ERROR;
     }
 
@@ -1295,6 +1297,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             if (list_size(arguments) == 0) {
                 result = TRAX_INITIALIZE;
                 server->objects = 0;
+                list_destroy(&arguments);
+                trax_properties_release(&tmp_properties);
                 continue;
             }
 
-- 
2.43.0


From 1a1c8df97cbe2b68e5fd061ab7bfcf54532e8184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 18/38] fix: convert polygons with negative coordinates to
 rectangles

---
 src/region.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/region.c b/src/region.c
index cae061b..3e0f02a 100644
--- a/src/region.c
+++ b/src/region.c
@@ -552,9 +552,9 @@ region_container* region_convert(const region_container* region, region_type typ
 		case POLYGON: {
 
 			float top = FLT_MAX;
-			float bottom = FLT_MIN;
+			float bottom = -FLT_MAX;
 			float left = FLT_MAX;
-			float right = FLT_MIN;
+			float right = -FLT_MAX;
 			int i;
 
 			for (i = 0; i < region->data.polygon.count; i++) {
-- 
2.43.0


From a11df577be411dc91a5287e8aafa921531380bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 19/38] fix: round mask coordinates down when testing a point

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index 3e0f02a..5927ceb 100644
--- a/src/region.c
+++ b/src/region.c
@@ -817,7 +817,7 @@ int point_in_mask(const region_mask* mask, float x, float y) {
 	if (x < mask->x || y < mask->y || x >= mask->x + mask->width || y >= mask->y + mask->height)
 		return 0;
 
-	return mask->data[((int)x - mask->x) + ((int)y - mask->y) * mask->width] != 0;
+	return mask->data[((int)floor(x) - mask->x) + ((int)floor(y) - mask->y) * mask->width] != 0;
 }
 
 
-- 
2.43.0


From e49ee6dd360d0773a280496d735b28f82dc86472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 20/38] fix: convert polygons to masks at their actual position
 and size

---
 src/region.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/region.c b/src/region.c
index 5927ceb..05b30d8 100644
--- a/src/region.c
+++ b/src/region.c
@@ -670,14 +670,11 @@ region_container* region_convert(const region_container* region, region_type typ
 		}
 		case POLYGON: {
 
-			reg = (region_container*) malloc(sizeof(region_container));
-			reg->type = type;
+			region_bounds b = bounds_round(compute_bounds_polygon(&(region->data.polygon)));
 
-			region_bounds b = compute_bounds_polygon(&(region->data.polygon));
+			reg = region_create_mask(b.left, b.top, b.right - b.left + 1, b.bottom - b.top + 1);
 
-			reg = region_create_mask(b.left, b.right, b.right - b.left, b.bottom - b.top);
-
-			region_get_mask_offset(region, reg->data.mask.data, b.left, b.right, b.right - b.left, b.bottom - b.top);
+			region_get_mask_offset(region, reg->data.mask.data, b.left, b.top, b.right - b.left + 1, b.bottom - b.top + 1);
 
 			break;
 		}
-- 
2.43.0


From b61fad02b2a1e4962e73e733c05e80bc34ca44e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 21/38] fix: allocate enough space for sequences with empty
 elements

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index 05b30d8..f94fc43 100644
--- a/src/region.c
+++ b/src/region.c
@@ -289,7 +289,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 	int i;
 
-	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer)));
+	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer) + 1));
 
 	const char* pch = buffer;
 	for (i = 0; ; i++) {
-- 
2.43.0


From 71419aa2ef8d6de1e009d7f25129c47226dc1c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 22/38] fix: compare the whole region prefix

---
 src/region.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/region.c b/src/region.c
index f94fc43..e88e238 100644
--- a/src/region.c
+++ b/src/region.c
@@ -246,13 +246,13 @@ const char* __parse_uri_prefix(const char* buffer, region_type* type) {
 		if ((buffer[i] >= 'a' && buffer[i] <= 'z') || buffer[i] == '+' || buffer[i] == '.' || buffer[i] == '-') continue;
 
 		if (buffer[i] == ':') {
-			if (strncmp(buffer, "rect", i - 1) == 0)
+			if (i == 4 && strncmp(buffer, "rect", i) == 0)
 				*type = RECTANGLE;
-			else if (strncmp(buffer, "poly", i - 1) == 0)
+			else if (i == 4 && strncmp(buffer, "poly", i) == 0)
 				*type = POLYGON;
-			else if (strncmp(buffer, "mask", i - 1) == 0)
+			else if (i == 4 && strncmp(buffer, "mask", i) == 0)
 				*type = MASK;
-			else if (strncmp(buffer, "special", i - 1) == 0)
+			else if (i == 7 && strncmp(buffer, "special", i) == 0)
 				*type = SPECIAL;
 			return &(buffer[i + 1]);
 		}
-- 
2.43.0


From a008b4fec323243cfe1594a69aa383ac9b5001f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 23/38] fix: reject malformed region text instead of aborting

---
 src/region.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/region.c b/src/region.c
index e88e238..c3487f9 100644
--- a/src/region.c
+++ b/src/region.c
@@ -336,7 +336,7 @@ int region_parse(const char* buffer, region_container** region) {
 	(*region) = NULL;
 
 	if (!buffer || !buffer[0]) {
-		return 1;
+		return 0;
 	}
 
 	strdata = __parse_uri_prefix(buffer, &prefix_type);
@@ -368,7 +368,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	switch (prefix_type) {
 	case SPECIAL: {
-		assert(num == 1);
+		if (num != 1) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = SPECIAL;
 		(*region)->data.special = (int) data[0];
@@ -377,7 +377,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	}
 	case RECTANGLE: {
-		assert(num == 4);
+		if (num != 4) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = RECTANGLE;
 
@@ -393,7 +393,7 @@ int region_parse(const char* buffer, region_container** region) {
 	case POLYGON: {
 		int j;
 
-		assert(num >= 6 && num % 2 == 0);
+		if (num < 6 || num % 2 != 0) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = POLYGON;
@@ -416,7 +416,7 @@ int region_parse(const char* buffer, region_container** region) {
 		int position, length;
 		char value;
 
-		assert(num > 4);
+		if (num < 4) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = MASK;
@@ -452,6 +452,8 @@ int region_parse(const char* buffer, region_container** region) {
 		free(data);
 		return 1;
 	}
+	default:
+		break;
 	}
 
 	if (data) free(data);
-- 
2.43.0


From b47a5b98394a70bf36de4b00c739502394effb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 24/38] fix: do not lose digits of large numbers in region text

---
 src/region.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/region.c b/src/region.c
index c3487f9..84cbee3 100644
--- a/src/region.c
+++ b/src/region.c
@@ -51,7 +51,7 @@ int region_clear_flags(int mask) {
 
 }
 
-int __is_valid_sequence(float* sequence, int len) {
+int __is_valid_sequence(double* sequence, int len) {
 	int i;
 
 	for (i = 0; i < len; i++) {
@@ -285,11 +285,11 @@ static inline const char* _str_find(const char* in, const char delimiter) {
 
 }
 
-int _parse_sequence(const char* buffer, float** data) {
+int _parse_sequence(const char* buffer, double** data) {
 
 	int i;
 
-	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer) + 1));
+	double* numbers = (double*) malloc(sizeof(double) * (strlen(buffer) + 1));
 
 	const char* pch = buffer;
 	for (i = 0; ; i++) {
@@ -299,10 +299,10 @@ int _parse_sequence(const char* buffer, float** data) {
 			if (tolower(pch[0]) == 'n' && tolower(pch[1]) == 'a' && tolower(pch[2]) == 'n') {
 				numbers[i] = NAN;
 			} else {
-				numbers[i] = (float) atof(pch);
+				numbers[i] = atof(pch);
 			}
 #else
-			numbers[i] = (float) atof(pch);
+			numbers[i] = atof(pch);
 #endif
 		} else
 			break;
@@ -312,7 +312,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 	if (i > 0) {
 		int j;
-		*data = (float*) malloc(sizeof(float) * i);
+		*data = (double*) malloc(sizeof(double) * i);
 		for (j = 0; j < i; j++) { (*data)[j] = numbers[j]; }
 		free(numbers);
 	} else {
@@ -325,7 +325,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 int region_parse(const char* buffer, region_container** region) {
 
-	float* data = NULL;
+	double* data = NULL;
 	const char* strdata = NULL;
 	int num;
 
-- 
2.43.0


From 367e748bbaf04624646cd100e456b9df4b5fd2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 25/38] fix: validate the size and the runs of a mask region

---
 src/region.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/region.c b/src/region.c
index 84cbee3..9071a30 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1,6 +1,7 @@
 
 #include <stdio.h>
 #include <float.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
@@ -323,6 +324,12 @@ int _parse_sequence(const char* buffer, double** data) {
 	return i;
 }
 
+static int __is_integer(double value) {
+
+	return value > INT_MIN - 1.0 && value < INT_MAX + 1.0;
+
+}
+
 int region_parse(const char* buffer, region_container** region) {
 
 	double* data = NULL;
@@ -348,8 +355,8 @@ int region_parse(const char* buffer, region_container** region) {
 	if (!__is_valid_sequence(data, num) || num == 0) {
 		// Preserve legacy support: if four values are given and the fourth one is a number
 		// then this number is taken as a code.
-		if (num == 4 && !isnan(data[3])) {
-			(*region) = region_create_special(-(int) data[3]);
+		if (num == 4 && __is_integer(-data[3])) {
+			(*region) = region_create_special((int) -data[3]);
 		} else {
 			(*region) = region_create_special(TRAX_DEFAULT_CODE);
 		}
@@ -368,7 +375,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	switch (prefix_type) {
 	case SPECIAL: {
-		if (num != 1) break;
+		if (num != 1 || !__is_integer(data[0])) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = SPECIAL;
 		(*region)->data.special = (int) data[0];
@@ -418,6 +425,13 @@ int region_parse(const char* buffer, region_container** region) {
 
 		if (num < 4) break;
 
+		for (i = 0; i < num; i++) {
+			if (!__is_integer(data[i])) break;
+		}
+
+		// All numbers have to be integers, the size has to be positive and small enough
+		if (i < num || (int) data[2] < 1 || (int) data[3] < 1 || (int) data[2] > INT_MAX / (int) data[3]) break;
+
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = MASK;
 
@@ -436,7 +450,7 @@ int region_parse(const char* buffer, region_container** region) {
 		for (i = 4; i < num; i++) {
 
 			int count = (int) data[i];
-			while (count && position < length) {
+			while (count > 0 && position < length) {
 				(*region)->data.mask.data[position++] = value;
 				count--;
 			}
-- 
2.43.0


From d32decf4c9bc6e81ab1756b25e460f15b5cf4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 26/38] fix: special regions do not overlap anything

---
 src/region.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/region.c b/src/region.c
index 9071a30..34aee98 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1130,6 +1130,9 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 	overlap.only1 = 0;
 	overlap.only2 = 0;
 
+	// Only regions that cover an area can overlap
+	if (ra->type == SPECIAL || ra->type == EMPTY || rb->type == SPECIAL || rb->type == EMPTY)
+		return overlap;
 
 	if (__flags & REGION_LEGACY_RASTERIZATION) {
 		b1 = bounds_intersection(region_compute_bounds(ra), bounds);
-- 
2.43.0


From 127a345e15cd28fe7aecddaab2466c5369e7f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 27/38] fix: no crash when a region is out of bounds or empty
 in overlap computation

---
 src/region.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/region.c b/src/region.c
index 34aee98..111fc91 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1142,6 +1142,10 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 		b2 = bounds_intersection(bounds_round(region_compute_bounds(rb)), bounds);
 	}
 
+	// A region that is empty or entirely out of bounds has no pixels to compare
+	if (b1.left > b1.right || b1.top > b1.bottom || b2.left > b2.right || b2.top > b2.bottom)
+		return overlap;
+
 	x = MIN(b1.left, b2.left);
 	y = MIN(b1.top, b2.top);
 
-- 
2.43.0


From 98cf4a913001110b15c30bea427dd8f96888e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 28/38] fix: count the pixels that regions share only along the
 edge of their bounds

---
 src/region.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/region.c b/src/region.c
index 111fc91..0173ab2 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1156,13 +1156,15 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 	// between the two bounding boxes is simply too big and the overlap would
 	// be 0 anyway.
 	
-	a1 = (b1.right - b1.left) * (b1.bottom - b1.top);
-	a2 = (b2.right - b2.left) * (b2.bottom - b2.top);
+	// Both ends of the bounds are inclusive, regions that only share a row or
+	// a column of pixels do overlap
+	a1 = (b1.right - b1.left + 1) * (b1.bottom - b1.top + 1);
+	a2 = (b2.right - b2.left + 1) * (b2.bottom - b2.top + 1);
 
 	if (a1 / a2 < 1e-10 || a2 / a1 < 1e-10 || width < 1 || height < 1) 
 		return overlap;
 
-	if (bounds_overlap(b1, b2) == 0) {
+	if (b1.left > b2.right || b2.left > b1.right || b1.top > b2.bottom || b2.top > b1.bottom) {
 
 		int i;
 
-- 
2.43.0


From 91178354da732e60abf4d58ece83cf516cc80849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 29/38] fix: keep the whole address when decoding a URL image

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 47f8049..65d8211 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -374,7 +374,7 @@ trax_image* image_decode(char* buffer) {
         result->data = (char*) malloc(sizeof(char) * (outlen + 1));
         base64decode((unsigned char*)result->data, resource);
     } else {
-        *(resource--) = ':'; // Restore the semicolon and use the buffer as URL
+        *(--resource) = ':'; // Restore the colon and use the buffer as URL
         result = trax_image_create_url(buffer);
     }
     return result;
-- 
2.43.0


From 1d9a98901e0166f29927e7d65583db967318fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 30/38] fix: allow setting an object of a list to its own
 region

---
 src/trax.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 65d8211..b0c10c3 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2109,9 +2109,12 @@ void trax_object_list_set(trax_object_list* list, int index, trax_region* region
 
     if (index < 0 || index >= list->size) return;
 
+    // The region can be the one that is being replaced
+    trax_region* copy = trax_region_clone(region);
+
     trax_region_release(&(list->regions[index]));
 
-    list->regions[index] = trax_region_clone(region);
+    list->regions[index] = copy;
 
 }
 
-- 
2.43.0


From e027fa19a8b4a626e23095b609a1c5c1cf782bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 31/38] fix: allow appending an object list to itself

---
 src/trax.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index b0c10c3..7e99e8d 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2137,17 +2137,19 @@ int trax_object_list_count(const trax_object_list* list) {
 
 int trax_object_list_append(trax_object_list* list, const trax_object_list* src) {
 
-    int i, o;
+    int i, o, n;
 
     assert(list && src);
 
+    // The list can be appended to itself
+    n = src->size;
     o = list->size;
-    list->size += src->size;
+    list->size += n;
 
     list->regions = (trax_region**) realloc(list->regions, sizeof(trax_region*) * list->size);
     list->properties = (trax_properties**) realloc(list->properties, sizeof(trax_properties*) * list->size);
 
-    for (i = 0; i < src->size; i++) {
+    for (i = 0; i < n; i++) {
         list->regions[i + o] = trax_region_clone(src->regions[i]);
         list->properties[i + o] = trax_properties_create();
         copy_properties(src->properties[i], list->properties[i + o], COPY_ALL | COPY_OVERWRITE);
-- 
2.43.0


From be42e5a05dbeb7ed5bab23dc333ea8127358fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 32/38] fix: send nothing when an image is missing in
 initialize and frame

---
 src/trax.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 7e99e8d..2c37f64 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -862,6 +862,21 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
 }
 
+static int client_verify_images(trax_handle* client, trax_image_list* images) {
+
+    int i;
+
+    for (i = 0; i < TRAX_CHANNELS; i++) {
+        if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i)) && !images->images[i]) {
+            set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
+            return 0;
+        }
+    }
+
+    return 1;
+
+}
+
 int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
     char* data = NULL;
@@ -893,6 +908,9 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
     }
 
     if (IS_VERSION_4(client)) {
+        // Send nothing if the call can not be completed
+        if (!client_verify_images(client, images)) return TRAX_ERROR;
+
         if (client->objects > 0) {
             // Reset object count with an empty initialize message
             write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL);
@@ -978,6 +996,9 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
             return TRAX_ERROR;
         }
 
+        // Send nothing if the call can not be completed
+        if (!client_verify_images(client, images)) return TRAX_ERROR;
+
         for (i = 0; i < n; i++) {
             char* data = NULL;
             string_list* arguments;
-- 
2.43.0


From 1f0c6c4af572a0c989f100513e6734719ea394fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 33/38] fix: reject messages that a client never sends in
 trax_server_wait_mot

---
 src/trax.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 2c37f64..edc6e97 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1345,6 +1345,10 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             copy_properties(tmp_properties, object_properties[object_count-1], COPY_ALL | COPY_OVERWRITE);
 
             result = TRAX_INITIALIZE;
+        } else {
+            // A message that the client should never send
+            set_error(server, "Protocol error, unexpected message");
+            goto failure;
         }
 
         list_destroy(&arguments);
-- 
2.43.0


From f6631ee9cbfb37bfd1aa98f03d2fecade8ce2cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 34/38] fix: pass the reason of quit to servers that track
 several objects

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index edc6e97..5a50621 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1272,7 +1272,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             }   
 
             if (properties)
-                copy_properties(tmp_properties, properties, COPY_EXTERNAL | COPY_OVERWRITE);
+                copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
 
             result = TRAX_QUIT;
             server->flags |= TRAX_FLAG_TERMINATED;
-- 
2.43.0


From 9c450f55b090a66faf2aae83a8b31f2fdd84793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 35/38] fix: refuse memory images whose size does not fit an
 int

---
 src/trax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 5a50621..9f373e7 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -313,7 +313,8 @@ trax_image* image_decode(char* buffer) {
     if (strcmp(buffer, "file") == 0) {
         result = trax_image_create_path(buffer + (compare_prefix(resource, "//") ? 7 : 5));
     } else if (strcmp(buffer, "image") == 0) {
-        int outlen, width, height, depth, format, channels, allocated, verify;
+        int outlen, depth, format, channels, allocated, verify;
+        long width, height;
         char* token;
 
         width = strtol(resource, &resource, 10);
-- 
2.43.0


From 568d9796603970b63b348d33236a1645265df596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 36/38] fix: polygons reach the same pixels in every window of
 a mask

---
 src/region.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index 0173ab2..b82bcc1 100644
--- a/src/region.c
+++ b/src/region.c
@@ -957,7 +957,8 @@ int rasterize_polygon(const region_polygon polygon_input, char* mask, int width,
 					double r = (polygon.y[j] - polygon.y[i]);
 					double k = (polygon.x[j] - polygon.x[i]);
 					if (r != 0) {
-						nodeX[nodes++] = (int) ((double) polygon.x[i] + (double) (pixelY - polygon.y[i]) / r * k);
+						// Round down also for pixels left of the mask
+						nodeX[nodes++] = (int) floor((double) polygon.x[i] + (double) (pixelY - polygon.y[i]) / r * k);
 					} else {
 						nodeX[nodes++] = (double) polygon.x[i];
 					}
-- 
2.43.0


From b14c6e0b00d9459de9e1f0b767de068180ffcaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 37/38] fix: regions without pixels within the limits do not
 overlap

---
 src/region.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/region.c b/src/region.c
index b82bcc1..292f85d 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1183,8 +1183,11 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 			if (tb->data.mask.data[i]) vol_2++;
 		}
 
-		overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
-		overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		// Limits can exclude all pixels of both regions, although they meet their bounds
+		if (vol_1 + vol_2 > 0) {
+			overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
+			overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		}
 
 	} else {
 
@@ -1210,9 +1213,11 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 			else if (mask2[i]) mask_2++;
 		}
 
-		overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
+		if (mask_1 + mask_2 + mask_intersect > 0) {
+			overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
+			overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
+			overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
+		}
 
 	}
 
-- 
2.43.0


From 7cb238e6d0d58ddc01759beca152b38e89b023ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:26 +0000
Subject: [PATCH 38/38] fix: compare points with the extent of a mask without
 rounding its position

---
 src/region.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index 292f85d..c185ee4 100644
--- a/src/region.c
+++ b/src/region.c
@@ -827,7 +827,8 @@ int point_in_polygon(const region_polygon* polygon, float x, float y) {
 
 int point_in_mask(const region_mask* mask, float x, float y) {
 	
-	if (x < mask->x || y < mask->y || x >= mask->x + mask->width || y >= mask->y + mask->height)
+	// A position that is not representable as float would be rounded, compare as double
+	if ((double) x < mask->x || (double) y < mask->y || (double) x >= (double) mask->x + mask->width || (double) y >= (double) mask->y + mask->height)
 		return 0;
 
 	return mask->data[((int)floor(x) - mask->x) + ((int)floor(y) - mask->y) * mask->width] != 0;
-- 
2.43.0

