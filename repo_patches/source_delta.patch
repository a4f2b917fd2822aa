From 1ca25b38bd686d6423845a6b7561717ef3f8cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 01/68] fix: clear the encoder buffer before encoding
 negotiation

Encoding a negotiation packet on an encoder that had already encoded
another packet produced the previous packet followed by the new one.
---
 milter/core/milter-command-encoder.c | 1 +
 milter/core/milter-reply-encoder.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/milter/core/milter-command-encoder.c b/milter/core/milter-command-encoder.c
index fcd3c98..3086fde 100644
--- a/milter/core/milter-command-encoder.c
+++ b/milter/core/milter-command-encoder.c
@@ -87,6 +87,7 @@ milter_command_encoder_encode_negotiate (MilterCommandEncoder *encoder,
     MilterEncoder *base_encoder;
 
     base_encoder = MILTER_ENCODER(encoder);
+    milter_encoder_clear_buffer(base_encoder);
     milter_encoder_encode_negotiate(base_encoder, option);
     milter_encoder_pack(base_encoder, packet, packet_size);
 }
diff --git a/milter/core/milter-reply-encoder.c b/milter/core/milter-reply-encoder.c
index 467321b..0ae2929 100644
--- a/milter/core/milter-reply-encoder.c
+++ b/milter/core/milter-reply-encoder.c
@@ -113,6 +113,7 @@ milter_reply_encoder_encode_negotiate (MilterReplyEncoder *encoder,
     GString *buffer;
 
     base_encoder = MILTER_ENCODER(encoder);
+    milter_encoder_clear_buffer(base_encoder);
     milter_encoder_encode_negotiate(base_encoder, option);
     if (macros_requests) {
         buffer = milter_encoder_get_buffer(base_encoder);
-- 
2.43.0


From 038be14f75872b19676f43025b2be09faa8737c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 02/68] fix: compare macro names as bytes when encoding define
 macro

g_utf8_collate() dereferences NULL when a macro name is not valid UTF-8;
macro names come from the MTA and are arbitrary bytes.
---
 milter/core/milter-command-encoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-command-encoder.c b/milter/core/milter-command-encoder.c
index 3086fde..d61ee54 100644
--- a/milter/core/milter-command-encoder.c
+++ b/milter/core/milter-command-encoder.c
@@ -102,7 +102,7 @@ compare_macro_key (gconstpointer a, gconstpointer b)
         key1++;
     if (key2[0] == '{')
         key2++;
-    return g_utf8_collate(key1, key2);
+    return strcmp(key1, key2);
 }
 
 static void
-- 
2.43.0


From 355b82186f8e06e526f6d50fe16a1e4c55020e4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 03/68] fix: check the socket family of connect command is
 received

---
 milter/core/milter-command-decoder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index d699104..69825f5 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -521,6 +521,11 @@ decode_connect_content (const gchar *buffer, gint length,
     decoded_host_name = buffer;
     i = null_character_point + 1;
 
+    if (!milter_decoder_check_command_length(
+            buffer + i, length - i, sizeof(family),
+            MILTER_DECODER_COMPARE_AT_LEAST, error,
+            "socket family on connect command"))
+        return FALSE;
     family = buffer[i];
     i++;
     switch (family) {
-- 
2.43.0


From 8f82b4f8c8bc78d192d7996c36b9c6e894530f4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 04/68] fix: reject too long UNIX domain socket path on connect
 command

---
 milter/core/milter-command-decoder.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index 69825f5..a5b1456 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -488,6 +488,16 @@ decode_connect_unix_address (const gchar *buffer,
 {
     struct sockaddr_un *address_un;
 
+    if (strlen(buffer) >= sizeof(address_un->sun_path)) {
+        g_set_error(error,
+                    MILTER_COMMAND_DECODER_ERROR,
+                    MILTER_COMMAND_DECODER_ERROR_INVALID_FORMAT,
+                    "too long UNIX domain socket path on connect command: "
+                    "<%s>: <%c>: <%u>: <%s>",
+                    host_name, family, g_ntohs(port), buffer);
+        return FALSE;
+    }
+
     *address_length = sizeof(struct sockaddr_un);
     address_un = g_malloc(*address_length);
     memset(address_un, 0, *address_length);
-- 
2.43.0


From 3b1db8404bc42baeddcfe12e5b518382eb912d31 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 05/68] fix: check macro context existence by the packet length

---
 milter/core/milter-command-decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index a5b1456..0ff0501 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -380,7 +380,7 @@ decode_define_macro (MilterDecoder *decoder, GError **error)
     buffer = milter_decoder_get_buffer(decoder);
 
     if (!milter_decoder_check_command_length(buffer + 1,
-                                             strlen(buffer) - 1,
+                                             command_length - 1,
                                              1,
                                              MILTER_DECODER_COMPARE_AT_LEAST,
                                              error,
-- 
2.43.0


From 2361010199b706c61973349254441d74fda28375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 06/68] fix: pass body chunk size with the type the body signal
 declares

---
 milter/core/milter-command-decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index 0ff0501..401faa0 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -815,7 +815,7 @@ decode_body (MilterDecoder *decoder, GError **error)
                  command_length - 1);
 
     g_signal_emit(decoder, signals[BODY], 0,
-                  buffer + 1, command_length - 1);
+                  buffer + 1, (guint64)(command_length - 1));
     return TRUE;
 }
 
-- 
2.43.0


From 1cc5fa6ea10154e56c810882e245eafe9b4ce5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 07/68] fix: reject a packet that has no command byte

---
 milter/core/milter-decoder.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 88bdf03..8018386 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -401,7 +401,18 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
                 milter_trace("[%u] [decoder][decode][length] <%d>",
                              priv->tag, priv->command_length);
                 g_string_erase(priv->buffer, 0, COMMAND_LENGTH_BYTES);
-                priv->state = IN_COMMAND_CONTENT;
+                if (priv->command_length < 1) {
+                    g_set_error(error,
+                                MILTER_DECODER_ERROR,
+                                MILTER_DECODER_ERROR_SHORT_COMMAND_LENGTH,
+                                "invalid command length: <%d>",
+                                priv->command_length);
+                    priv->state = IN_ERROR;
+                    success = FALSE;
+                    loop = FALSE;
+                } else {
+                    priv->state = IN_COMMAND_CONTENT;
+                }
             }
             break;
         case IN_COMMAND_CONTENT:
-- 
2.43.0


From da3237beb6ec7b54d1e2bbbc347b292ee7ff2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 08/68] fix: refuse data after a decode error

---
 milter/core/milter-decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 8018386..65a4e59 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -367,7 +367,7 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
 
     priv = MILTER_DECODER_GET_PRIVATE(decoder);
 
-    g_return_val_if_fail(priv->state != MILTER_DECODER_ERROR, FALSE);
+    g_return_val_if_fail(priv->state != IN_ERROR, FALSE);
 
     if (size == 0)
         return TRUE;
-- 
2.43.0


From 07b4012333703b35dc30840be5fa1c027973edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 09/68] fix: always report an error when decoding a packet
 fails

---
 milter/core/milter-decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 65a4e59..e8f6bea 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -431,6 +431,12 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
                     priv->state = IN_START;
                     g_string_erase(priv->buffer, 0, priv->command_length);
                 } else {
+                    if (error && !*error)
+                        g_set_error(error,
+                                    MILTER_DECODER_ERROR,
+                                    MILTER_DECODER_ERROR_UNEXPECTED_COMMAND,
+                                    "failed to decode command: <0x%02x>",
+                                    (guchar)priv->buffer->str[0]);
                     priv->state = IN_ERROR;
                     loop = FALSE;
                 }
-- 
2.43.0


From 940cf4e848913791c6033154f1e21b8ff32f296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 10/68] fix: pass body chunks to signal handlers without
 cutting them at NUL

A string signal argument without G_SIGNAL_TYPE_STATIC_SCOPE is copied by
g_strdup() on emission, so a handler that got a chunk with NUL read beyond
the copy.
---
 milter/client/milter-client-context.c                |  4 ++--
 milter/core/milter-command-decoder.c                 |  4 ++--
 milter/core/milter-reply-signals.c                   |  2 +-
 .../manager/milter-manager-control-command-decoder.c |  6 ++++--
 .../manager/milter-manager-control-reply-decoder.c   |  6 ++++--
 milter/server/milter-server-context.c                | 12 ++++++++----
 6 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index a1f824c..e73b078 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -1749,7 +1749,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
@@ -1907,7 +1907,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index 401faa0..393c728 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -177,7 +177,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                       G_TYPE_UINT64
 #else
@@ -194,7 +194,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-reply-signals.c b/milter/core/milter-reply-signals.c
index 5b9c6e2..e234a0a 100644
--- a/milter/core/milter-reply-signals.c
+++ b/milter/core/milter-reply-signals.c
@@ -195,7 +195,7 @@ base_init (gpointer klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/manager/milter-manager-control-command-decoder.c b/milter/manager/milter-manager-control-command-decoder.c
index de47820..9635d50 100644
--- a/milter/manager/milter-manager-control-command-decoder.c
+++ b/milter/manager/milter-manager-control-command-decoder.c
@@ -67,10 +67,12 @@ milter_manager_control_command_decoder_class_init (MilterManagerControlCommandDe
                      NULL, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT
 #endif
             );
 
diff --git a/milter/manager/milter-manager-control-reply-decoder.c b/milter/manager/milter-manager-control-reply-decoder.c
index 3f7a1be..698b5de 100644
--- a/milter/manager/milter-manager-control-reply-decoder.c
+++ b/milter/manager/milter-manager-control-reply-decoder.c
@@ -63,10 +63,12 @@ milter_manager_control_reply_decoder_class_init (MilterManagerControlReplyDecode
                      NULL, NULL,
  #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT
 #endif
             );
 }
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index a8a46ed..ee94c02 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -295,10 +295,12 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT
 #endif
             );
 
@@ -311,10 +313,12 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT
 #endif
             );
 
-- 
2.43.0


From cfc08690e7222a883c832bad4a79f5c82365f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 11/68] fix: don't look for header content beyond the packet on
 insert/change header reply

---
 milter/core/milter-reply-decoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index bceca6b..342b405 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -417,7 +417,7 @@ decode_reply_insert_header (MilterDecoder *decoder, GError **error)
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    decoded = decode_header_content_with_index(buffer + 1, command_length + 1,
+    decoded = decode_header_content_with_index(buffer + 1, command_length - 1,
                                                &index, &name, &value, error);
     if (!decoded)
         return FALSE;
@@ -443,7 +443,7 @@ decode_reply_change_header (MilterDecoder *decoder, GError **error)
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    decoded = decode_header_content_with_index(buffer + 1, command_length + 1,
+    decoded = decode_header_content_with_index(buffer + 1, command_length - 1,
                                                &index, &name, &value, error);
     if (!decoded)
         return FALSE;
-- 
2.43.0


From 72443a44f902ee0169724666cccfb61d59ade9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 12/68] fix: reject a malformed add recipient reply instead of
 reporting it

---
 milter/core/milter-reply-decoder.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 342b405..41f6576 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -541,15 +541,19 @@ decode_reply_change_from (MilterDecoder *decoder, GError **error)
 static gboolean
 decode_reply_add_recipient (MilterDecoder *decoder, GError **error)
 {
+    gint null_character_point;
     const gchar *buffer;
     gint32 command_length;
 
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    milter_decoder_decode_null_terminated_value(
-        buffer + 1, command_length - 1, error,
-        "Recipient isn't terminated by NULL on ADD RECIPIENT reply");
+    null_character_point =
+        milter_decoder_decode_null_terminated_value(
+            buffer + 1, command_length - 1, error,
+            "Recipient isn't terminated by NULL on ADD RECIPIENT reply");
+    if (null_character_point <= 0)
+        return FALSE;
 
     milter_debug("[%u] [reply-decoder][add-recipient] <%s>",
                  milter_decoder_get_tag(decoder),
-- 
2.43.0


From e74daeed31f2bed3f5b1dc0b8f3e350f412a13c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 13/68] fix: look for the space in reply code text only before
 its NULL terminator

---
 milter/core/milter-reply-decoder.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 41f6576..29a4d6c 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -206,13 +206,13 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
         return FALSE;
 
     buffer += 3;
-    command_length -= 3;
+    null_character_point -= 3;
     if (buffer[0] == ' ') {
         buffer++;
-        command_length--;
+        null_character_point--;
     }
 
-    space_character_point = find_space_character(buffer, command_length);
+    space_character_point = find_space_character(buffer, null_character_point);
 
     if (space_character_point <0) {
         extended_code = g_strdup(buffer);
-- 
2.43.0


From 58ebb119191df79e72febd168ba17b7f0fdc8043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 14/68] fix: pass replaced body chunk size with the type the
 signal declares

---
 milter/core/milter-reply-decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 29a4d6c..dc7298a 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -634,7 +634,7 @@ decode_reply_replace_body (MilterDecoder *decoder, GError **error)
                  command_length);
 
     g_signal_emit_by_name(decoder, "replace-body",
-                  buffer + 1, command_length - 1);
+                  buffer + 1, (gsize)(command_length - 1));
 
     return TRUE;
 }
-- 
2.43.0


From baafd51393e31cdcddd22c70ffc94b18d216e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 15/68] fix: evaluation mode milter no longer makes the other
 milters be bypassed

A milter in evaluation mode that rejected, temporarily failed or discarded a
message while its header, body or end of message was processed made the
manager reply at once and abort the remaining milters.
---
 milter/manager/milter-manager-children.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index a5871bf..1c62c14 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1479,8 +1479,12 @@ cb_temporary_failure (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
-        emit_reply_for_message_oriented_command(children, state);
-        milter_manager_children_abort(children);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+        } else {
+            emit_reply_for_message_oriented_command(children, state);
+            milter_manager_children_abort(children);
+        }
         break;
     default:
         if (milter_need_error_log()) {
@@ -1549,8 +1553,12 @@ cb_reject (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
-        emit_reply_for_message_oriented_command(children, state);
-        milter_manager_children_abort(children);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+        } else {
+            emit_reply_for_message_oriented_command(children, state);
+            milter_manager_children_abort(children);
+        }
         break;
     default:
         if (milter_need_error_log()) {
@@ -1689,8 +1697,12 @@ cb_discard (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
-        emit_reply_for_message_oriented_command(children, state);
-        milter_manager_children_abort(children);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+        } else {
+            emit_reply_for_message_oriented_command(children, state);
+            milter_manager_children_abort(children);
+        }
         break;
     default:
         if (milter_need_error_log()) {
-- 
2.43.0


From 4c455fe6f110763b6686eb6a3c107b73c2b7eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 16/68] fix: a reply code is used only for the reply it was
 given for

The reply code of a milter in evaluation mode, of a milter whose answer was
less severe, or of an earlier command could be sent to the MTA.
---
 milter/manager/milter-manager-children.c | 26 ++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 1c62c14..7409968 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -942,13 +942,13 @@ emit_reply_status_of_state (MilterManagerChildren *children,
         g_signal_emit_by_name(children, "reply-code",
                               priv->reply_code, priv->reply_extended_code,
                               priv->reply_message);
-        dispose_reply_related_data(priv);
     } else {
         if (status != MILTER_STATUS_NOT_CHANGE) {
             g_signal_emit_by_name(children,
                                   status_to_signal_name(status));
         }
     }
+    dispose_reply_related_data(priv);
 
     if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         MilterManagerChildrenPrivate *priv;
@@ -1590,12 +1590,25 @@ cb_reply_code (MilterServerContext *context,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    dispose_reply_related_data(priv);
-    priv->reply_code = code;
-    priv->reply_extended_code = g_strdup(extended_code);
-    priv->reply_message = g_strdup(message);
+    MilterServerContextState state;
+    MilterStatus status;
+
+    state = milter_server_context_get_state(context);
+    if ((code / 100) == 4)
+        status = MILTER_STATUS_TEMPORARY_FAILURE;
+    else
+        status = MILTER_STATUS_REJECT;
+
+    if (!milter_manager_child_is_evaluation_mode(MILTER_MANAGER_CHILD(context)) &&
+        milter_status_compare(get_reply_status_for_state(children, state),
+                              status) <= 0) {
+        dispose_reply_related_data(priv);
+        priv->reply_code = code;
+        priv->reply_extended_code = g_strdup(extended_code);
+        priv->reply_message = g_strdup(message);
+    }
 
-    if ((priv->reply_code / 100) == 4) {
+    if (status == MILTER_STATUS_TEMPORARY_FAILURE) {
         cb_temporary_failure(context, user_data);
     } else {
         cb_reject(context, user_data);
@@ -3093,6 +3106,7 @@ init_reply_queue (MilterManagerChildren *children,
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     set_state(children, state);
+    dispose_reply_related_data(priv);
     queue_clear(priv->reply_queue);
     g_hash_table_insert(priv->reply_statuses,
                         GINT_TO_POINTER(state),
-- 
2.43.0


From 436967348104c24f62eb913c71c3e294f98140a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 17/68] fix: keep all bytes of a body chunk

Body chunks are not strings: they may contain NUL and need not be terminated.
---
 milter/manager/milter-manager-children.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 7409968..ba9ff00 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -364,7 +364,7 @@ pending_body_request_new (const gchar *chunk, gsize size)
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_BODY);
-    request->arguments.body.chunk = g_strndup(chunk, size);
+    request->arguments.body.chunk = g_memdup(chunk, size);
     request->arguments.body.size = size;
 
     return request;
@@ -376,7 +376,7 @@ pending_end_of_message_request_new (const gchar *chunk, gsize size)
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_END_OF_MESSAGE);
-    request->arguments.end_of_message.chunk = g_strndup(chunk, size);
+    request->arguments.end_of_message.chunk = g_memdup(chunk, size);
     request->arguments.end_of_message.size = size;
 
     return request;
@@ -4096,7 +4096,7 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
 
     if (priv->end_of_message_chunk)
         g_free(priv->end_of_message_chunk);
-    priv->end_of_message_chunk = g_strdup(chunk);
+    priv->end_of_message_chunk = g_memdup(chunk, size);
     priv->end_of_message_size = size;
     if (priv->body_file)
         g_io_channel_seek_position(priv->body_file, 0, G_SEEK_SET, NULL);
-- 
2.43.0


From 614d51d34e9bc197b5547b082e2e186369d66fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 18/68] fix: forget how far a message was processed when it
 ends

The position in the headers and the mark that the body was replaced were
carried over to the next message of the session: its headers were not sent to
milters and its body was replaced without any milter asking for it.
---
 milter/manager/milter-manager-children.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index ba9ff00..5bd15fd 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -480,6 +480,13 @@ dispose_message_related_data (MilterManagerChildrenPrivate *priv)
         g_free(priv->end_of_message_chunk);
         priv->end_of_message_chunk = NULL;
     }
+    priv->end_of_message_size = 0;
+
+    priv->processing_header_index = 0;
+    priv->sending_body = FALSE;
+    priv->sent_body_offset = 0;
+    priv->replaced_body = FALSE;
+    priv->replaced_body_for_each_child = FALSE;
 
     if (priv->change_from) {
         g_free(priv->change_from);
-- 
2.43.0


From 7e73dcf8e249d898a30dd4f9a6a14cf782ace867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 19/68] fix: answers about a message do not decide about the
 next one

The milters' answers to header, end of header, body and end of message were
kept for the whole session, so one rejected message made the following
messages of the session be rejected too.
---
 milter/manager/milter-manager-children.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 5bd15fd..24b7b1c 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -449,6 +449,19 @@ dispose_reply_related_data (MilterManagerChildrenPrivate *priv)
     }
 }
 
+static void
+dispose_message_related_reply_statuses (MilterManagerChildrenPrivate *priv)
+{
+    g_hash_table_remove(priv->reply_statuses,
+                        GINT_TO_POINTER(MILTER_SERVER_CONTEXT_STATE_HEADER));
+    g_hash_table_remove(priv->reply_statuses,
+                        GINT_TO_POINTER(MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER));
+    g_hash_table_remove(priv->reply_statuses,
+                        GINT_TO_POINTER(MILTER_SERVER_CONTEXT_STATE_BODY));
+    g_hash_table_remove(priv->reply_statuses,
+                        GINT_TO_POINTER(MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE));
+}
+
 static void
 dispose_message_related_data (MilterManagerChildrenPrivate *priv)
 {
@@ -3416,6 +3429,7 @@ milter_manager_children_envelope_from (MilterManagerChildren *children,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
+    dispose_message_related_reply_statuses(priv);
     init_reply_queue(children, state);
     for (child = priv->milters; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-- 
2.43.0


From 6c3af053ef51bf2f5fa87b9a2891ea213a0f49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 20/68] fix: the body a milter gives replaces the whole body

The replaced body was appended to the one an earlier milter gave when the
message had no body, and the part of the original body that came with end of
message was still sent to the following milters.
---
 milter/manager/milter-manager-children.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 24b7b1c..6e5910a 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1228,6 +1228,7 @@ send_command_to_child (MilterManagerChildren *children,
     case MILTER_COMMAND_END_OF_MESSAGE:
         priv->processing_header_index = 0;
         priv->processing_state = MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE;
+        priv->replaced_body_for_each_child = FALSE;
         if (milter_server_context_end_of_message(context,
                                                  priv->end_of_message_chunk,
                                                  priv->end_of_message_size))
@@ -2126,8 +2127,14 @@ cb_replace_body (MilterServerContext *context,
                            "<%" G_GSIZE_FORMAT ">", chunk_size))
         return;
 
-    if (!priv->replaced_body_for_each_child)
+    if (!priv->replaced_body_for_each_child) {
         dispose_body_related_data(priv);
+        if (priv->end_of_message_chunk) {
+            g_free(priv->end_of_message_chunk);
+            priv->end_of_message_chunk = NULL;
+        }
+        priv->end_of_message_size = 0;
+    }
 
     if (!write_body(children, chunk, chunk_size))
         return;
-- 
2.43.0


From 8eed25280519cb40f5eeaf7fc0f2da064a296df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 21/68] fix: a failed milter does not make the other milters be
 bypassed

When a milter failed or timed out while it processed the header, the body or
the end of a message, its fallback status was sent to the MTA at once although
the following milters had not seen the message. While negotiating, the
negotiation reply was replaced by the fallback status.
---
 milter/manager/milter-manager-children.c | 85 ++++++++++++++++++------
 1 file changed, 63 insertions(+), 22 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 6e5910a..c85d2d0 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2259,6 +2259,56 @@ cb_stopped (MilterServerContext *context, gpointer user_data)
     }
 }
 
+static void
+fallback_child (MilterManagerChildren *children,
+                MilterServerContext *context,
+                MilterServerContextState state,
+                MilterStatus fallback_status)
+{
+    MilterManagerChildrenPrivate *priv;
+    gboolean waiting;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    switch (priv->processing_state) {
+    case MILTER_SERVER_CONTEXT_STATE_NEGOTIATE:
+        expire_child(children, context);
+        remove_queue_in_negotiate(children, MILTER_MANAGER_CHILD(context));
+        break;
+    case MILTER_SERVER_CONTEXT_STATE_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_BODY:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
+        waiting =
+            get_first_child_in_command_waiting_child_queue(children) == context;
+        expire_child(children, context);
+        if (!waiting) {
+            priv->command_waiting_child_queue =
+                g_list_remove(priv->command_waiting_child_queue, context);
+            break;
+        }
+        compile_reply_status(children, priv->processing_state, fallback_status);
+        switch (fallback_status) {
+        case MILTER_STATUS_REJECT:
+        case MILTER_STATUS_TEMPORARY_FAILURE:
+        case MILTER_STATUS_DISCARD:
+            emit_reply_for_message_oriented_command(children,
+                                                    priv->processing_state);
+            milter_manager_children_abort(children);
+            break;
+        default:
+            send_first_command_to_next_child(children, context);
+            break;
+        }
+        break;
+    default:
+        compile_reply_status(children, state, fallback_status);
+        expire_child(children, context);
+        remove_child_from_queue(children, context);
+        break;
+    }
+}
+
 static void
 cb_writing_timeout (MilterServerContext *context, gpointer user_data)
 {
@@ -2294,9 +2344,7 @@ cb_writing_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fallback_child(children, context, state, fallback_status);
 }
 
 static void
@@ -2334,9 +2382,7 @@ cb_reading_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fallback_child(children, context, state, fallback_status);
 }
 
 static void
@@ -2375,9 +2421,7 @@ cb_end_of_message_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fallback_child(children, context, state, fallback_status);
 }
 
 static void
@@ -2418,9 +2462,7 @@ cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fallback_child(children, context, state, fallback_status);
 }
 
 static void
@@ -2442,7 +2484,13 @@ cb_finished (MilterAgent *agent, gpointer user_data)
         fallback_status = milter_manager_child_get_fallback_status(child);
         state = milter_server_context_get_state(context);
         milter_server_context_set_status(context, fallback_status);
-        compile_reply_status(children, state, fallback_status);
+        milter_debug("[%u] [children][unexpected] [%u] "
+                     "finish without receiving response: %s",
+                     priv->tag,
+                     milter_agent_get_tag(MILTER_AGENT(context)),
+                     milter_server_context_get_name(context));
+        fallback_child(children, context, state, fallback_status);
+        return;
     }
 
     expire_child(children, context);
@@ -2470,15 +2518,8 @@ cb_finished (MilterAgent *agent, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
-        if (!priv->emitted_reply_for_message_oriented_command &&
-            milter_server_context_is_processing(context)) {
-            milter_debug("[%u] [children][unexpected] [%u] "
-                         "finish without receiving response: %s",
-                         priv->tag,
-                         milter_agent_get_tag(MILTER_AGENT(context)),
-                         milter_server_context_get_name(context));
-            send_first_command_to_next_child(children, context);
-        }
+        priv->command_waiting_child_queue =
+            g_list_remove(priv->command_waiting_child_queue, context);
         break;
     default:
         remove_child_from_queue(children, context);
-- 
2.43.0


From b6df90c341ad7018416c4995a0e638209bd88a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 22/68] fix: a milter started on demand is connected to once

---
 milter/manager/milter-manager-children.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index c85d2d0..95f456a 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -3241,11 +3241,9 @@ milter_manager_children_negotiate (MilterManagerChildren *children,
         MilterManagerChild *child = MILTER_MANAGER_CHILD(node->data);
 
         if (!child_establish_connection(child, option, children, FALSE)) {
-            if (privilege &&
-                milter_manager_children_start_child(children, child)) {
-                prepare_retry_establish_connection(child, option, children,
-                                                   FALSE);
-            }
+            /* child_establish_connection() prepared the retry */
+            if (privilege)
+                milter_manager_children_start_child(children, child);
         }
     }
     g_list_free(copied_milters);
-- 
2.43.0


From cd52de2c620c7da65ed226543daabdc6fb035bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 23/68] fix: the next command of a message follows one without
 a reply once it was sent

A milter that does not reply to headers, the end of headers or body
chunks was taken as having replied while the command was still being
written: its state was still the one of the command before, so that the
reply was counted for that one, and the command after it was refused
because of the previous one. The message stalled, or it was accepted
without the milter.
---
 milter/manager/milter-manager-children.c | 18 ++--------------
 milter/server/milter-server-context.c    | 26 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 95f456a..2e6c90d 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1214,13 +1214,8 @@ send_command_to_child (MilterManagerChildren *children,
         break;
     case MILTER_COMMAND_END_OF_HEADER:
         priv->processing_state = MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER;
-        if (milter_server_context_end_of_header(context)) {
+        if (milter_server_context_end_of_header(context))
             status = MILTER_STATUS_PROGRESS;
-            if (!milter_server_context_need_reply(context,
-                                                 priv->processing_state)) {
-                g_signal_emit_by_name(context, "continue");
-            }
-        }
         break;
     case MILTER_COMMAND_BODY:
         status = send_body_to_child(children, context);
@@ -3674,11 +3669,7 @@ send_next_header_to_child (MilterManagerChildren *children, MilterServerContext
     if (milter_server_context_header(context,
                                      header->name,
                                      header->value + value_offset)) {
-        MilterStatus status = MILTER_STATUS_PROGRESS;
-        if (!milter_server_context_need_reply(context, priv->processing_state)) {
-            g_signal_emit_by_name(context, "continue");
-        }
-        return status;
+        return MILTER_STATUS_PROGRESS;
     } else {
         MilterManagerChild *child;
 
@@ -4113,11 +4104,6 @@ send_body_to_child (MilterManagerChildren *children, MilterServerContext *contex
     else
         status = send_body_to_child_file(children, context);
 
-    if (status == MILTER_STATUS_PROGRESS &&
-        !milter_server_context_need_reply(context, priv->processing_state)) {
-        g_signal_emit_by_name(context, "continue");
-    }
-
     if (status != MILTER_STATUS_PROGRESS)
         priv->sending_body = FALSE;
 
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index ee94c02..90ecc6e 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1421,6 +1421,30 @@ process_next_state (MilterServerContext *context,
         g_free(next_state_name);
 }
 
+static void
+continue_without_reply (MilterServerContext *context,
+                        MilterServerContextState state)
+{
+    MilterServerContextPrivate *priv;
+
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+
+    switch (state) {
+    case MILTER_SERVER_CONTEXT_STATE_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
+        break;
+    case MILTER_SERVER_CONTEXT_STATE_BODY:
+        if (priv->body->len > 0)
+            return;
+        break;
+    default:
+        return;
+    }
+
+    if (!milter_server_context_need_reply(context, state))
+        g_signal_emit_by_name(context, "continue");
+}
+
 static void
 flushed (MilterAgent *agent)
 {
@@ -1471,6 +1495,8 @@ flushed (MilterAgent *agent)
         next_state = GPOINTER_TO_UINT(node->data);
         process_next_state(context, next_state);
         g_signal_emit(context, signals[STATE_TRANSITED], 0, next_state);
+        if (!g_list_next(node))
+            continue_without_reply(context, next_state);
     }
     g_list_free(next_states);
 
-- 
2.43.0


From eb18d7148fa017ea01df5534672d4e4040bb3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 24/68] fix: the MTA gets one reply to a command that milters
 do not reply to

A milter that does not reply to a command was counted with the state of
the command before, so that the MTA, which waits for a reply when one of
the milters replies to the command, got none when only milters without
a reply took part. The MTA was told that it gets no reply when none of
the milters replies, while the replies to headers and body chunks were
still sent and then taken as the replies to later commands: the MTA is
always replied to now. The command after one without a reply was refused
while that was still being written.
---
 milter/manager/milter-manager-children.c | 48 ++++++++++++++----------
 milter/server/milter-server-context.c    | 23 +++++++++++-
 2 files changed, 50 insertions(+), 21 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 2e6c90d..aedf9c0 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2785,7 +2785,7 @@ reply_negotiate (MilterManagerChildren *children)
     }
 
     milter_option_remove_step(priv->option,
-                              MILTER_STEP_NO_EVENT_MASK |
+                              MILTER_STEP_NO_MASK |
                               (MILTER_STEP_YES_MASK &
                                ~(priv->initial_yes_steps &
                                  priv->requested_yes_steps)));
@@ -3359,6 +3359,22 @@ milter_manager_children_check_processing_message (MilterManagerChildren *childre
     return FALSE;
 }
 
+static void
+continue_without_reply (MilterManagerChildren *children,
+                        MilterServerContext *context,
+                        MilterServerContextState state)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    if (!g_queue_find(priv->reply_queue, context))
+        return;
+
+    compile_reply_status(children, state, MILTER_STATUS_CONTINUE);
+    remove_child_from_queue(children, context);
+}
+
 gboolean
 milter_manager_children_connect (MilterManagerChildren *children,
                                  const gchar           *host_name,
@@ -3403,9 +3419,8 @@ milter_manager_children_connect (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        if (!milter_server_context_need_reply(context, state))
+            continue_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -3446,9 +3461,8 @@ milter_manager_children_helo (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        if (!milter_server_context_need_reply(context, state))
+            continue_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -3490,9 +3504,8 @@ milter_manager_children_envelope_from (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        if (!milter_server_context_need_reply(context, state))
+            continue_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -3534,9 +3547,8 @@ milter_manager_children_envelope_recipient (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        if (!milter_server_context_need_reply(context, state))
+            continue_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -3580,9 +3592,8 @@ milter_manager_children_data (MilterManagerChildren *children)
     milter_debug("[%u] [children][data][sent] %d", priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        if (!milter_server_context_need_reply(context, state))
+            continue_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -3636,9 +3647,8 @@ milter_manager_children_unknown (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        if (!milter_server_context_need_reply(context, state))
+            continue_without_reply(children, context, state);
     }
     g_list_free(targets);
 
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 90ecc6e..130e016 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1504,6 +1504,22 @@ flushed (MilterAgent *agent)
                  tag, NULL_SAFE_NAME(name));
 }
 
+static gboolean
+is_flushing_command_without_reply (MilterServerContext *context)
+{
+    MilterServerContextPrivate *priv;
+    GList *last_node;
+
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+
+    last_node = g_list_last(priv->next_states);
+    if (!last_node)
+        return FALSE;
+
+    return !milter_server_context_need_reply(context,
+                                             GPOINTER_TO_UINT(last_node->data));
+}
+
 static gboolean
 write_packet (MilterServerContext *context,
               const gchar *packet, gsize packet_size,
@@ -1512,6 +1528,7 @@ write_packet (MilterServerContext *context,
     GError *agent_error = NULL;
     MilterServerContextPrivate *priv;
     GString *packed_packet;
+    gboolean flushing;
     guint tag;
     MilterEventLoop *loop;
     const gchar *name;
@@ -1533,7 +1550,8 @@ write_packet (MilterServerContext *context,
     case MILTER_SERVER_CONTEXT_STATE_QUIT:
         break;
     default:
-        if (milter_server_context_is_processing(context)) {
+        flushing = is_flushing_command_without_reply(context);
+        if (milter_server_context_is_processing(context) && !flushing) {
             gchar *inspected_current_state;
             gchar *inspected_next_state;
             GError *error = NULL;
@@ -1558,7 +1576,8 @@ write_packet (MilterServerContext *context,
             g_free(inspected_next_state);
             return FALSE;
         }
-        if (next_state != MILTER_SERVER_CONTEXT_STATE_NEGOTIATE &&
+        if (!flushing &&
+            next_state != MILTER_SERVER_CONTEXT_STATE_NEGOTIATE &&
             next_state != MILTER_SERVER_CONTEXT_STATE_BODY) {
             milter_debug("[%u] [server][timer][continue] %g: %s",
                          tag, g_timer_elapsed(priv->elapsed, NULL), name);
-- 
2.43.0


From 8c8f790a5043be56efbf084b3e2581d455df1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 25/68] fix: a command kept until DATA is replied to is not
 forgotten

When no milter replies to the DATA command that is sent before the
first command of a message, DATA is through before the command is kept:
it was never processed, and the MTA got no reply to it.
---
 milter/manager/milter-manager-children.c | 56 ++++++++++++------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index aedf9c0..e161790 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -3711,15 +3711,15 @@ milter_manager_children_header (MilterManagerChildren *children,
         gboolean success;
         milter_debug("[%u] [children][data-command-emulation][header] "
                      "<%s>=<%s>", priv->tag, name, value);
+        dispose_pending_message_request(priv);
+        priv->pending_message_request =
+            pending_header_request_new(name, value);
+        milter_debug("[%u] [children][pending-message-request][header]"
+                     "[keep] <%s>=<%s>",
+                     priv->tag, name, value);
         success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request][header]"
-                         "[keep] <%s>=<%s>",
-                         priv->tag, name, value);
+        if (!success)
             dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_header_request_new(name, value);
-        }
         return success;
     }
 
@@ -3748,15 +3748,15 @@ milter_manager_children_end_of_header (MilterManagerChildren *children)
         gboolean success;
         milter_debug("[%u] [children][data-command-emulation][end-of-header]",
                      priv->tag);
+        dispose_pending_message_request(priv);
+        priv->pending_message_request =
+            pending_end_of_header_request_new();
+        milter_debug("[%u] [children][pending-message-request]"
+                     "[end-of-header][keep]",
+                     priv->tag);
         success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request]"
-                         "[end-of-header][keep]",
-                         priv->tag);
+        if (!success)
             dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_end_of_header_request_new();
-        }
         return success;
     }
 
@@ -3897,15 +3897,15 @@ milter_manager_children_body (MilterManagerChildren *children,
         milter_debug("[%u] [children][data-command-emulation][body] "
                      "size=%" G_GSIZE_FORMAT,
                      priv->tag, size);
+        dispose_pending_message_request(priv);
+        priv->pending_message_request =
+            pending_body_request_new(chunk, size);
+        milter_debug("[%u] [children][pending-message-request][body][keep] "
+                     "size=%" G_GSIZE_FORMAT,
+                     priv->tag, size);
         success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request][body][keep] "
-                         "size=%" G_GSIZE_FORMAT,
-                         priv->tag, size);
+        if (!success)
             dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_body_request_new(chunk, size);
-        }
         return success;
     }
 
@@ -4137,15 +4137,15 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
         milter_debug("[%u] [children][data-command-emulation][end-of-message] "
                      "size=%" G_GSIZE_FORMAT,
                      priv->tag, size);
+        dispose_pending_message_request(priv);
+        priv->pending_message_request =
+            pending_end_of_message_request_new(chunk, size);
+        milter_debug("[%u] [children][pending-message-request]"
+                     "[end-of-message][keep] size=%" G_GSIZE_FORMAT,
+                     priv->tag, size);
         success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request]"
-                         "[end-of-message][keep] size=%" G_GSIZE_FORMAT,
-                         priv->tag, size);
+        if (!success)
             dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_end_of_message_request_new(chunk, size);
-        }
         return success;
     }
 
-- 
2.43.0


From 105f0e8191063b79dd05274b381add54cbb0d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 26/68] fix: a later milter gets what there is of the message
 from its start

When the first command of a message for a later milter is HEADER and
the milters before deleted all headers, it was never gone on with to the
next command: the message stalled. When it is BODY, the kept body was
not rewound: the milter got a part of the body only.
---
 milter/manager/milter-manager-children.c | 38 ++++++++++++++++++++----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index e161790..3669c51 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -198,6 +198,11 @@ static MilterStatus send_next_command
                            (MilterManagerChildren *children,
                             MilterServerContext *context,
                             MilterServerContextState processing_state);
+static MilterStatus send_commands_to_child
+                                            (MilterManagerChildren *children,
+                                             MilterServerContext *context,
+                                             MilterCommand command,
+                                             MilterServerContextState processing_state);
 static MilterStatus send_first_command_to_next_child
                            (MilterManagerChildren *children,
                             MilterServerContext *context);
@@ -1377,10 +1382,12 @@ send_first_command_to_next_child (MilterManagerChildren *children,
 
     first_command = fetch_first_command_for_child_in_queue(next_child,
                                                            &priv->command_queue);
-    if (first_command == -1)
+    if (first_command == -1 ||
+        send_commands_to_child(children, next_child, first_command,
+                               MILTER_SERVER_CONTEXT_STATE_INVALID) ==
+        MILTER_STATUS_NOT_CHANGE) {
         g_signal_emit_by_name(children, "continue");
-    else
-        send_command_to_child(children, next_child, first_command);
+    }
 
     return MILTER_STATUS_PROGRESS;
 }
@@ -3077,15 +3084,34 @@ send_next_command (MilterManagerChildren *children,
     if (next_command == -1)
         return MILTER_STATUS_NOT_CHANGE;
 
-    if (next_command == MILTER_COMMAND_BODY &&
+    return send_commands_to_child(children, context, next_command,
+                                  processing_state);
+}
+
+static MilterStatus
+send_commands_to_child (MilterManagerChildren *children,
+                        MilterServerContext *context,
+                        MilterCommand command,
+                        MilterServerContextState processing_state)
+{
+    MilterManagerChildrenPrivate *priv;
+    MilterStatus status;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    if (command == MILTER_COMMAND_BODY &&
         processing_state != MILTER_SERVER_CONTEXT_STATE_BODY) {
-        MilterStatus status;
         status = init_child_for_body(children, context);
         if (status != MILTER_STATUS_NOT_CHANGE)
             return status;
     }
 
-    return send_command_to_child(children, context, next_command);
+    status = send_command_to_child(children, context, command);
+    if (status != MILTER_STATUS_NOT_CHANGE)
+        return status;
+
+    /* There is nothing to send for the command. */
+    return send_next_command(children, context, priv->processing_state);
 }
 
 static void
-- 
2.43.0


From 6281b00475419f21b1644e7f5ba237d8aeb482e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:42 +0000
Subject: [PATCH 27/68] fix: a body chunk is written after the ones kept in the
 body file

When a milter that is behind gets the kept body and is through before
its end, the next body chunk of the MTA was written over the rest.
---
 milter/manager/milter-manager-children.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 3669c51..b710196 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -3849,7 +3849,10 @@ write_body_to_file (MilterManagerChildren *children,
     if (!chunk || size == 0)
         return TRUE;
 
-    g_io_channel_write_chars(priv->body_file, chunk, size, &written_size, &error);
+    g_io_channel_seek_position(priv->body_file, 0, G_SEEK_END, &error);
+    if (!error)
+        g_io_channel_write_chars(priv->body_file, chunk, size, &written_size,
+                                 &error);
     if (error) {
         milter_error("[%u] [children][error][body][write] %s",
                      priv->tag,
-- 
2.43.0


From 4ea462cb78b82627c87cd72f4d07379ff727e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 28/68] fix: what a milter adds to a message reaches the later
 milters

A body given for a message without a body chunk, and a header added to a
message without headers, did not reach the milters asked afterwards:
the commands they get are the ones the MTA sent.
---
 milter/manager/milter-manager-children.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index b710196..e06ddf8 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1898,6 +1898,26 @@ is_evaluation_mode (MilterManagerChildren *children,
     return TRUE;
 }
 
+static void
+ensure_command (MilterManagerChildren *children, MilterCommand command)
+{
+    MilterManagerChildrenPrivate *priv;
+    GList *next;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    if (g_list_find(priv->command_queue, GINT_TO_POINTER(command)))
+        return;
+
+    if (command == MILTER_COMMAND_HEADER)
+        next = priv->command_queue;
+    else
+        next = g_list_find(priv->command_queue,
+                           GINT_TO_POINTER(MILTER_COMMAND_END_OF_MESSAGE));
+    priv->command_queue = g_list_insert_before(priv->command_queue, next,
+                                               GINT_TO_POINTER(command));
+}
+
 static void
 cb_add_header (MilterServerContext *context,
                const gchar *name, const gchar *value,
@@ -1932,6 +1952,7 @@ cb_add_header (MilterServerContext *context,
     normalized_value = normalize_header_value(children, context, value);
     milter_headers_add_header(priv->headers, name,
                               normalized_value ? normalized_value : value);
+    ensure_command(children, MILTER_COMMAND_HEADER);
 
     if (normalized_value)
         g_free(normalized_value);
@@ -1973,6 +1994,7 @@ cb_insert_header (MilterServerContext *context,
     normalized_value = normalize_header_value(children, context, value);
     milter_headers_insert_header(priv->headers, index, name,
                                  normalized_value ? normalized_value : value);
+    ensure_command(children, MILTER_COMMAND_HEADER);
 
     if (normalized_value)
         g_free(normalized_value);
@@ -2141,6 +2163,7 @@ cb_replace_body (MilterServerContext *context,
     if (!write_body(children, chunk, chunk_size))
         return;
 
+    ensure_command(children, MILTER_COMMAND_BODY);
     priv->replaced_body_for_each_child = TRUE;
     priv->replaced_body = TRUE;
 }
-- 
2.43.0


From a8535956997c5ec637cff3ba7ff4c060a2be0ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 29/68] fix: a milter stopped at DATA does not let the message
 bypass the others

The MTA got the reply to DATA when the first milter was stopped, before
the others had replied, and the replies to the rest of the message,
including those that refuse it, were dropped.
---
 milter/manager/milter-manager-children.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index e06ddf8..3378b8e 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2254,6 +2254,10 @@ cb_stopped (MilterServerContext *context, gpointer user_data)
         cb_continue(context, user_data);
         break;
     case MILTER_SERVER_CONTEXT_STATE_DATA:
+        compile_reply_status(children, state, MILTER_STATUS_ACCEPT);
+        milter_server_context_abort(context);
+        remove_child_from_queue(children, context);
+        break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_BODY:
-- 
2.43.0


From 5296ddddac60bf7f996c59646a537f7c93682b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 30/68] fix: the last milter's body chunk does not spill over
 into the next message

A milter that is through with the message while the kept body is being
given to it, because it takes no body and is stopped at the end of the
message, left a body command and the milters of the message queued: the
next message was given to the wrong milters.
---
 milter/manager/milter-manager-children.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 3378b8e..ede328a 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -4127,7 +4127,7 @@ send_body_to_child_string (MilterManagerChildren *children,
 {
     MilterStatus status = MILTER_STATUS_PROGRESS;
     MilterManagerChildrenPrivate *priv;
-    gsize chunk_size, write_size;
+    gsize chunk_size, write_size, offset;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     if (priv->sent_body_offset >= priv->body->len)
@@ -4135,13 +4135,14 @@ send_body_to_child_string (MilterManagerChildren *children,
 
     chunk_size =
         milter_manager_configuration_get_chunk_size(priv->configuration);
-    write_size = MIN(priv->body->len - priv->sent_body_offset, chunk_size);
-    if (milter_server_context_body(context,
-                                   priv->body->str + priv->sent_body_offset,
-                                   write_size)) {
-        priv->sent_body_offset += write_size;
-        init_command_waiting_child_queue(children, MILTER_COMMAND_BODY);
-    } else {
+    offset = priv->sent_body_offset;
+    write_size = MIN(priv->body->len - offset, chunk_size);
+    /* The milter may be through with the chunk, or even with the message,
+       when milter_server_context_body() returns. */
+    priv->sent_body_offset += write_size;
+    if (!milter_server_context_body(context,
+                                    priv->body->str + offset,
+                                    write_size)) {
         MilterManagerChild *child;
 
         child = MILTER_MANAGER_CHILD(context);
-- 
2.43.0


From 0e49042bdfd4dea70f578674a44759e872c63c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 31/68] fix: a milter that refuses a recipient twice crashes
 the manager

---
 milter/server/milter-server-context.c | 54 +++++++++++++++------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 130e016..a09c59a 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -2662,18 +2662,20 @@ cb_decoder_reply_code (MilterReplyDecoder *decoder,
 
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
         priv->envelope_recipient_status = status;
-        ensure_message_result(priv);
-        if (status == MILTER_STATUS_TEMPORARY_FAILURE) {
-            milter_message_result_add_temporary_failed_recipient(
-                priv->message_result, priv->current_recipient);
-        } else {
-            milter_message_result_add_rejected_recipient(
+        if (priv->current_recipient) {
+            ensure_message_result(priv);
+            if (status == MILTER_STATUS_TEMPORARY_FAILURE) {
+                milter_message_result_add_temporary_failed_recipient(
+                    priv->message_result, priv->current_recipient);
+            } else {
+                milter_message_result_add_rejected_recipient(
+                    priv->message_result, priv->current_recipient);
+            }
+            milter_message_result_remove_recipient(
                 priv->message_result, priv->current_recipient);
+            g_free(priv->current_recipient);
+            priv->current_recipient = NULL;
         }
-        milter_message_result_remove_recipient(
-            priv->message_result, priv->current_recipient);
-        g_free(priv->current_recipient);
-        priv->current_recipient = NULL;
     } else {
         priv->status = status;
     }
@@ -2731,13 +2733,15 @@ cb_decoder_temporary_failure (MilterReplyDecoder *decoder, gpointer user_data)
 
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
         priv->envelope_recipient_status = MILTER_STATUS_TEMPORARY_FAILURE;
-        ensure_message_result(priv);
-        milter_message_result_add_temporary_failed_recipient(
-            priv->message_result, priv->current_recipient);
-        milter_message_result_remove_recipient(
-            priv->message_result, priv->current_recipient);
-        g_free(priv->current_recipient);
-        priv->current_recipient = NULL;
+        if (priv->current_recipient) {
+            ensure_message_result(priv);
+            milter_message_result_add_temporary_failed_recipient(
+                priv->message_result, priv->current_recipient);
+            milter_message_result_remove_recipient(
+                priv->message_result, priv->current_recipient);
+            g_free(priv->current_recipient);
+            priv->current_recipient = NULL;
+        }
     } else {
         priv->status = MILTER_STATUS_TEMPORARY_FAILURE;
     }
@@ -2793,13 +2797,15 @@ cb_decoder_reject (MilterReplyDecoder *decoder, gpointer user_data)
 
     if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) {
         priv->envelope_recipient_status = MILTER_STATUS_REJECT;
-        ensure_message_result(priv);
-        milter_message_result_add_rejected_recipient(priv->message_result,
-                                                     priv->current_recipient);
-        milter_message_result_remove_recipient(priv->message_result,
-                                               priv->current_recipient);
-        g_free(priv->current_recipient);
-        priv->current_recipient = NULL;
+        if (priv->current_recipient) {
+            ensure_message_result(priv);
+            milter_message_result_add_rejected_recipient(priv->message_result,
+                                                         priv->current_recipient);
+            milter_message_result_remove_recipient(priv->message_result,
+                                                   priv->current_recipient);
+            g_free(priv->current_recipient);
+            priv->current_recipient = NULL;
+        }
     } else {
         priv->status = MILTER_STATUS_REJECT;
     }
-- 
2.43.0


From 19eab70757865af392b2864a6e19bc07ee6409c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:03 +0000
Subject: [PATCH 32/68] fix: body chunk of several packets is answered before
 it is sent, and its rest may end up in the next message

---
 milter/server/milter-server-context.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index a09c59a..1c26e7c 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1885,6 +1885,7 @@ milter_server_context_reset_message_related_data (MilterServerContext *context)
     priv->processing_message = FALSE;
     priv->envelope_recipient_status = MILTER_STATUS_DEFAULT;
 
+    g_string_truncate(priv->body, 0);
     if (priv->body_response_queue) {
         g_list_free(priv->body_response_queue);
         priv->body_response_queue = NULL;
@@ -2514,6 +2515,7 @@ clear_process_body_count (MilterServerContext *context)
     MilterServerContextPrivate *priv;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    g_string_truncate(priv->body, 0);
     if (priv->body_response_queue) {
         g_list_free(priv->body_response_queue);
         priv->body_response_queue = NULL;
@@ -2558,6 +2560,15 @@ decrement_process_body_count (MilterServerContext *context)
         g_timer_stop(priv->elapsed);
         milter_debug("[%u] [server][timer][stop] [%s] <%g>",
                      tag, name, g_timer_elapsed(priv->elapsed, NULL));
+        if (priv->body->len > 0) {
+            /* The milter has got only a part of the chunk. */
+            if (!flush_body(context)) {
+                milter_debug("[%u] [server][receive][continue]"
+                             "[body][flush][error] [%s]",
+                             tag, name);
+            }
+            return;
+        }
         g_signal_emit_by_name(context, "continue");
         if (priv->sent_end_of_message)
             milter_server_context_set_state(
@@ -2597,13 +2608,6 @@ cb_decoder_continue (MilterReplyDecoder *decoder, gpointer user_data)
       case MILTER_SERVER_CONTEXT_STATE_BODY:
         if (check_reply_after_quit(context, priv->state, "continue")) {
             decrement_process_body_count(context);
-            if (priv->body->len > 0) {
-                if (!flush_body(context)) {
-                    milter_debug("[%u] [server][receive][continue]"
-                                 "[body][flush][error] [%s]",
-                                 tag, name);
-                }
-            }
         }
         break;
       case MILTER_SERVER_CONTEXT_STATE_CONNECT:
-- 
2.43.0


From f2e63395df75ef019de1425d3d284526fb1196ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 33/68] fix: abort that is flushed with the next message
 destroys the data of the next message

---
 milter/server/milter-server-context.c | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 1c26e7c..358c8e3 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1374,6 +1374,11 @@ process_next_state (MilterServerContext *context,
         milter_server_context_set_state(context, next_state);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ABORT:
+        if (priv->processing_message) {
+            /* The next message has begun before [abort] packet
+             * is flushed. Its data must be kept. */
+            break;
+        }
         if (MILTER_STATUS_IS_PASS(priv->status) &&
             (MILTER_SERVER_CONTEXT_STATE_DEFINE_MACRO <= priv->state &&
              priv->state < MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)) {
@@ -1388,9 +1393,6 @@ process_next_state (MilterServerContext *context,
         emit_message_processed_signal(context);
         milter_server_context_reset_message_related_data(context);
         break;
-    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM:
-        priv->processing_message = TRUE;
-        /* FALLTHROUGH */
     default:
         milter_server_context_set_state(context, next_state);
         if (milter_server_context_need_reply(context, next_state)) {
@@ -1919,21 +1921,6 @@ milter_server_context_envelope_from (MilterServerContext *context,
     milter_debug("[%u] [server][send][envelope-from] <%s>: %s",
                  tag, from, name);
 
-    /* TODO:
-     * Those information will be cleared if both [abort]
-     * packet and [envelope-from] packet are flushed at the
-     * same time. Because
-     * milter_server_context_reset_message_related_data() is
-     * called in process_next_state() when [abort] packet is
-     * flushed:
-     *
-     *   milter_server_context_abort() ->
-     *   milter_server_context_envelope_from() ->
-     *   (flushed) ->
-     *   process_next_state() for [abort] ->
-     *   milter_server_context_reset_message_related_data()
-     *     resets data set at milter_server_context_envelope_from().
-     */
     ensure_message_result(priv);
     milter_message_result_set_from(priv->message_result, from);
     milter_message_result_set_state(priv->message_result,
-- 
2.43.0


From db4abcb4e106ffa5e390743d466bf0835c9df782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:50 +0000
Subject: [PATCH 34/68] fix: macros are used after they are freed when debug
 log is enabled

---
 milter/server/milter-server-context.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 358c8e3..1d49a9d 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1039,9 +1039,6 @@ prepend_macro (MilterServerContext *context, GString *packed_packet,
                                                &packet, &packet_size,
                                                command,
                                                target_macros);
-    if (filtered_macros)
-        g_hash_table_unref(filtered_macros);
-
     if (milter_need_debug_log()) {
         gchar *command_name;
         gchar *inspected_macros;
@@ -1059,6 +1056,9 @@ prepend_macro (MilterServerContext *context, GString *packed_packet,
         g_free(inspected_macros);
     }
 
+    if (filtered_macros)
+        g_hash_table_unref(filtered_macros);
+
     g_string_prepend_len(packed_packet, packet, packet_size);
 }
 
-- 
2.43.0


From bcbdf301a10e996a7f72f5690b4f00a5f9dbcc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 35/68] fix: a milter that skipped the body of a message does
 not get the body of the next one

---
 milter/server/milter-server-context.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 1d49a9d..56497b9 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1912,6 +1912,8 @@ milter_server_context_envelope_from (MilterServerContext *context,
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
     priv->status = MILTER_STATUS_NOT_CHANGE;
+    priv->envelope_recipient_status = MILTER_STATUS_DEFAULT;
+    priv->skip_body = FALSE;
 
     if (milter_need_debug_log()) {
         tag = milter_agent_get_tag(MILTER_AGENT(context));
-- 
2.43.0


From 299c5f8221276ec9b876930afd866f63728dac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:03 +0000
Subject: [PATCH 36/68] fix: a milter excluded from a message at MAIL gets the
 rest of it if it has handled the message before

---
 milter/server/milter-server-context.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 56497b9..cc3e004 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1914,6 +1914,7 @@ milter_server_context_envelope_from (MilterServerContext *context,
     priv->status = MILTER_STATUS_NOT_CHANGE;
     priv->envelope_recipient_status = MILTER_STATUS_DEFAULT;
     priv->skip_body = FALSE;
+    priv->processing_message = FALSE;
 
     if (milter_need_debug_log()) {
         tag = milter_agent_get_tag(MILTER_AGENT(context));
-- 
2.43.0


From 4a02bdb4bcb4f09dc58bb5f93b634f0cd50e32a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 37/68] fix: header names are compared without case

A milter that changes or deletes "subject" means the header "Subject"; the
change was done by adding a duplicate, the deletion did nothing.
---
 milter/core/milter-headers.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/milter/core/milter-headers.c b/milter/core/milter-headers.c
index 1f4d5cf..bd0e927 100644
--- a/milter/core/milter-headers.c
+++ b/milter/core/milter-headers.c
@@ -98,6 +98,18 @@ milter_header_equal (gconstpointer data1, gconstpointer data2)
         string_equal(header1->value, header2->value);
 }
 
+static gboolean
+header_name_equal (const gchar *name1, const gchar *name2)
+{
+    if (name1 == name2)
+        return TRUE;
+
+    if (name1 == NULL || name2 == NULL)
+        return FALSE;
+
+    return g_ascii_strcasecmp(name1, name2) == 0;
+}
+
 static void
 milter_header_change_value (MilterHeader *header,
                             const gchar *new_value)
@@ -268,7 +280,7 @@ static gint
 milter_header_name_compare (MilterHeader *header1,
                             const gchar *name)
 {
-    return milter_utils_strcmp0(header1->name, name);
+    return header_name_equal(header1->name, name) ? 0 : 1;
 }
 
 MilterHeader *
@@ -319,7 +331,7 @@ milter_headers_index_in_same_header_name (MilterHeaders *headers,
     for (node = priv->header_list; node; node = g_list_next(node)) {
         MilterHeader *header = node->data;
 
-        if (!string_equal(header->name, target->name))
+        if (!header_name_equal(header->name, target->name))
             continue;
 
         found_count++;
@@ -361,7 +373,7 @@ milter_headers_add_header (MilterHeaders *headers,
 
     for (node = priv->header_list; node; node = g_list_next(node)) {
         MilterHeader *header = node->data;
-        if (g_ascii_strcasecmp(header->name, name) == 0) {
+        if (header_name_equal(header->name, name)) {
             same_name_header = node;
             break;
         }
@@ -424,7 +436,7 @@ milter_headers_lookup_by_name_with_index (MilterHeaders *headers,
     for (node = priv->header_list; node; node = g_list_next(node)) {
         MilterHeader *header = node->data;
 
-        if (!string_equal(header->name, name))
+        if (!header_name_equal(header->name, name))
             continue;
 
         found_count++;
-- 
2.43.0


From 5c1f7bdef79245eb049da2b3bd24da1f60d297e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 38/68] fix: each header of a name is changed or deleted itself

With several headers of the same name the changes sent to the MTA could all
name the first one, or the wrong one could be deleted.
---
 milter/manager/milter-manager-children.c | 100 +++++++++++++----------
 1 file changed, 58 insertions(+), 42 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index ede328a..a932b03 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1241,68 +1241,84 @@ send_command_to_child (MilterManagerChildren *children,
     return status;
 }
 
+static gint
+compare_header_name (gconstpointer header, gconstpointer name)
+{
+    return g_ascii_strcasecmp(((const MilterHeader *)header)->name, name);
+}
+
+static gint
+get_index_in_same_header_name (const GList *header_list,
+                               const MilterHeader *target)
+{
+    const GList *node;
+    gint index = 0;
+
+    for (node = header_list; node; node = g_list_next(node)) {
+        const MilterHeader *header = node->data;
+
+        if (compare_header_name(header, target->name) == 0)
+            index++;
+        if (header == target)
+            break;
+    }
+
+    return index;
+}
+
 static void
 emit_header_signals (MilterManagerChildren *children)
 {
     MilterManagerChildrenPrivate *priv;
-    const GList *header_list, *node;
-    MilterHeaders *processing_headers;
+    const GList *original_header_list, *node;
+    GList *processing_headers, *found_node;
     gint i;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    processing_headers = milter_headers_copy(priv->original_headers);
-    header_list = milter_headers_get_list(priv->headers);
+    original_header_list = milter_headers_get_list(priv->original_headers);
+    processing_headers = g_list_copy((GList *)original_header_list);
 
     /* FIXME the following process admits improvement. */
-    for (node = header_list, i = 0;
+    for (node = milter_headers_get_list(priv->headers), i = 0;
          node;
          node = g_list_next(node), i++) {
         MilterHeader *header = node->data;
-        MilterHeader *found_header;
-        gint index;
 
-        if (milter_headers_find(processing_headers, header)) {
-            milter_headers_remove(processing_headers, header);
-            continue;
-        }
-
-        found_header = milter_headers_lookup_by_name(processing_headers,
-                                                     header->name);
-        if (!found_header) {
-            g_signal_emit_by_name(children, "insert-header",
-                                  i, header->name, header->value);
-            continue;
-        }
-        index = milter_headers_index_in_same_header_name(priv->original_headers,
-                                                         found_header);
-        if (index == -1) {
-            g_signal_emit_by_name(children, "add-header",
-                                  header->name, header->value);
-        } else {
-            g_signal_emit_by_name(children, "change-header",
-                                  header->name, index, header->value);
-            milter_headers_remove(processing_headers, found_header);
+        found_node = g_list_find_custom(processing_headers,
+                                        header,
+                                        (GCompareFunc)milter_header_compare);
+        if (!found_node) {
+            found_node = g_list_find_custom(processing_headers,
+                                            header->name,
+                                            compare_header_name);
+            if (!found_node) {
+                g_signal_emit_by_name(children, "insert-header",
+                                      i, header->name, header->value);
+                continue;
+            }
+            g_signal_emit_by_name(
+                children, "change-header",
+                header->name,
+                get_index_in_same_header_name(original_header_list,
+                                              found_node->data),
+                header->value);
         }
+        processing_headers = g_list_delete_link(processing_headers, found_node);
     }
 
-    if (milter_headers_length(processing_headers) > 0) {
-        header_list = milter_headers_get_list(processing_headers);
-
-        for (node = g_list_last((GList *)header_list);
-             node;
-             node = g_list_previous(node)) {
-            MilterHeader *header = node->data;
-            gint index;
+    for (node = g_list_last(processing_headers);
+         node;
+         node = g_list_previous(node)) {
+        MilterHeader *header = node->data;
 
-            index = milter_headers_index_in_same_header_name(priv->original_headers,
-                                                             header);
-            g_signal_emit_by_name(children, "delete-header",
-                                  header->name, index);
-        }
+        g_signal_emit_by_name(
+            children, "delete-header",
+            header->name,
+            get_index_in_same_header_name(original_header_list, header));
     }
 
-    g_object_unref(processing_headers);
+    g_list_free(processing_headers);
 }
 
 static void
-- 
2.43.0


From 284de4440771924c21ecf62b713851a60a2430a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 39/68] fix: a body replaced by an empty one is replaced

An empty replacement was not sent to the MTA, which then kept the original body.
---
 milter/client/milter-client-context.c    | 10 ++++++----
 milter/core/milter-reply-encoder.c       |  5 +++--
 milter/manager/milter-manager-children.c |  7 ++++---
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index e73b078..b7630b0 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3155,7 +3155,7 @@ milter_client_context_replace_body (MilterClientContext *context,
                                     GError **error)
 {
     MilterClientContextPrivate *priv;
-    gsize rest_size, packed_size = 0;
+    gsize rest_size = body_size, packed_size = 0;
     MilterEncoder *encoder;
     MilterReplyEncoder *reply_encoder;
 
@@ -3178,7 +3178,7 @@ milter_client_context_replace_body (MilterClientContext *context,
 
     encoder = milter_agent_get_encoder(MILTER_AGENT(context));
     reply_encoder = MILTER_REPLY_ENCODER(encoder);
-    for (rest_size = body_size; rest_size > 0; rest_size -= packed_size) {
+    do {
         const gchar *packet = NULL;
         gsize packet_size;
         gsize offset;
@@ -3189,12 +3189,14 @@ milter_client_context_replace_body (MilterClientContext *context,
                                                  body + offset,
                                                  rest_size,
                                                  &packed_size);
-        if (packed_size == 0)
+        if (packed_size == 0 && rest_size > 0)
             return FALSE;
 
         if (!write_packet_on_end_of_message(context, packet, packet_size))
             return FALSE;
-    }
+
+        rest_size -= packed_size;
+    } while (rest_size > 0);
 
     return TRUE;
 }
diff --git a/milter/core/milter-reply-encoder.c b/milter/core/milter-reply-encoder.c
index 0ae2929..f0d1da8 100644
--- a/milter/core/milter-reply-encoder.c
+++ b/milter/core/milter-reply-encoder.c
@@ -426,7 +426,7 @@ milter_reply_encoder_encode_replace_body (MilterReplyEncoder *encoder,
     MilterEncoder *base_encoder;
     GString *buffer;
 
-    if (body_size <= 0 || (body == NULL && body_size > 0)) {
+    if (body == NULL && body_size > 0) {
         *packet = NULL;
         *packet_size = 0;
         *packed_size = 0;
@@ -442,7 +442,8 @@ milter_reply_encoder_encode_replace_body (MilterReplyEncoder *encoder,
         *packed_size = MILTER_CHUNK_SIZE;
     else
         *packed_size = body_size;
-    g_string_append_len(buffer, body, *packed_size);
+    if (*packed_size > 0)
+        g_string_append_len(buffer, body, *packed_size);
     milter_encoder_pack(base_encoder, packet, packet_size);
 }
 
diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index a932b03..aa6e06c 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1172,18 +1172,19 @@ static gboolean
 emit_replace_body_signal_string (MilterManagerChildren *children)
 {
     MilterManagerChildrenPrivate *priv;
-    gsize offset, chunk_size, write_size;
+    gsize offset = 0, chunk_size, write_size;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     chunk_size =
         milter_manager_configuration_get_chunk_size(priv->configuration);
-    for (offset = 0; offset < priv->body->len; offset += write_size) {
+    do {
         write_size = MIN(priv->body->len - offset, chunk_size);
         g_signal_emit_by_name(children, "replace-body",
                               priv->body->str + offset,
                               write_size);
-    }
+        offset += write_size;
+    } while (offset < priv->body->len);
 
     return TRUE;
 }
-- 
2.43.0


From 81e576e2148dd7688df80d6bbe67c1f35b9f54b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 40/68] fix: a header added by a change is given to the next
 milters

A message without headers to which a milter adds one by a change-header was
given to the following milters without it.
---
 milter/manager/milter-manager-children.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index aa6e06c..5b6db0d 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2054,6 +2054,8 @@ cb_change_header (MilterServerContext *context,
     milter_headers_change_header(priv->headers,
                                  name, index,
                                  normalized_value ? normalized_value : value);
+    if (value)
+        ensure_command(children, MILTER_COMMAND_HEADER);
 
     if (normalized_value)
         g_free(normalized_value);
-- 
2.43.0


From 0781b2adfac3ec47e6b066c7695e100ca57b051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:20 +0000
Subject: [PATCH 41/68] fix: a reply text without an extended code is kept as
 the text

The first word of "550 Go away" was taken for an extended code, which is not
valid, so that the MTA got no reply at all.
---
 milter/core/milter-reply-decoder.c | 34 ++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index dc7298a..fbae4a9 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -157,6 +157,27 @@ find_space_character (const gchar *buffer, gint length)
     return -1;
 }
 
+static gboolean
+is_extended_code (const gchar *text, gint length)
+{
+    gint i, n_digits = 0, n_dots = 0;
+
+    for (i = 0; i < length; i++) {
+        if (g_ascii_isdigit(text[i])) {
+            n_digits++;
+            if (n_digits > 3)
+                return FALSE;
+        } else if (text[i] == '.' && n_digits > 0 && n_dots < 2) {
+            n_dots++;
+            n_digits = 0;
+        } else {
+            return FALSE;
+        }
+    }
+
+    return n_dots == 2 && n_digits > 0;
+}
+
 static gboolean
 decode_reply_reply_code (MilterDecoder *decoder, GError **error)
 {
@@ -165,7 +186,7 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
     const gchar *buffer;
     gint32 command_length;
     gchar *reply_code_str;
-    gchar *extended_code;
+    gchar *extended_code = NULL;
     gchar *message = NULL;
     guint reply_code;
 
@@ -214,11 +235,16 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
 
     space_character_point = find_space_character(buffer, null_character_point);
 
-    if (space_character_point <0) {
-        extended_code = g_strdup(buffer);
-    } else {
+    if (space_character_point < 0) {
+        if (is_extended_code(buffer, null_character_point))
+            extended_code = g_strdup(buffer);
+        else if (null_character_point > 0)
+            message = g_strdup(buffer);
+    } else if (is_extended_code(buffer, space_character_point)) {
         extended_code = g_strndup(buffer, space_character_point);
         message = g_strdup(buffer + space_character_point + 1);
+    } else {
+        message = g_strdup(buffer);
     }
 
     milter_debug("[%u] [reply-decoder][reply-code] <%u %s %s>",
-- 
2.43.0


From 39e3b04a889fc163af7181fbc8a8a2d9ff061eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:20 +0000
Subject: [PATCH 42/68] fix: a refusal with an invalid extended code is still a
 refusal

The MTA got no reply, and the session hung.
---
 milter/manager/milter-manager-leader.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index c59cf48..cd666a9 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -590,7 +590,6 @@ cb_reply_code (MilterReplySignals *_reply,
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(leader),
                                     error);
         g_error_free(error);
-        return;
     }
 
     if ((code / 100) == 4) {
-- 
2.43.0


From 9e9664548f1b897ee36b9cb38c428327e90b95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:20 +0000
Subject: [PATCH 43/68] fix: the reply code of one refusal is not used for a
 later one

The MTA got the code and the text of an earlier reply code for a plain reject
or temporary failure that followed it on the same connection.
---
 milter/client/milter-client-context.c  | 18 ++++++++++++++++++
 milter/client/milter-client-context.h  |  9 +++++++++
 milter/manager/milter-manager-leader.c |  9 +++++++++
 3 files changed, 36 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index b7630b0..3a3e157 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -2613,6 +2613,24 @@ milter_client_context_set_reply (MilterClientContext *context,
     return TRUE;
 }
 
+void
+milter_client_context_reset_reply (MilterClientContext *context)
+{
+    MilterClientContextPrivate *priv;
+
+    priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+
+    priv->reply_code = 0;
+    if (priv->extended_reply_code) {
+        g_free(priv->extended_reply_code);
+        priv->extended_reply_code = NULL;
+    }
+    if (priv->reply_message) {
+        g_free(priv->reply_message);
+        priv->reply_message = NULL;
+    }
+}
+
 gchar *
 milter_client_context_format_reply (MilterClientContext *context)
 {
diff --git a/milter/client/milter-client-context.h b/milter/client/milter-client-context.h
index 1a2d791..c383510 100644
--- a/milter/client/milter-client-context.h
+++ b/milter/client/milter-client-context.h
@@ -575,6 +575,15 @@ gboolean             milter_client_context_set_reply         (MilterClientContex
                                                               const gchar *message,
                                                               GError **error);
 
+/**
+ * milter_client_context_reset_reply:
+ * @context: a %MilterClientContext.
+ *
+ * Forgets the error reply code set by
+ * milter_client_context_set_reply().
+ */
+void                 milter_client_context_reset_reply       (MilterClientContext *context);
+
 /**
  * milter_client_context_format_reply:
  * @context: a %MilterClientContext.
diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index cd666a9..f84a153 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -581,6 +581,7 @@ cb_reply_code (MilterReplySignals *_reply,
     GError *error = NULL;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
+    milter_client_context_reset_reply(priv->client_context);
     milter_client_context_set_reply(priv->client_context,
                                     code, extended_code, message,
                                     &error);
@@ -603,6 +604,10 @@ static void
 cb_temporary_failure (MilterReplySignals *_reply, gpointer user_data)
 {
     MilterManagerLeader *leader = user_data;
+    MilterManagerLeaderPrivate *priv;
+
+    priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
+    milter_client_context_reset_reply(priv->client_context);
     reply(leader, MILTER_STATUS_TEMPORARY_FAILURE);
 }
 
@@ -610,6 +615,10 @@ static void
 cb_reject (MilterReplySignals *_reply, gpointer user_data)
 {
     MilterManagerLeader *leader = user_data;
+    MilterManagerLeaderPrivate *priv;
+
+    priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
+    milter_client_context_reset_reply(priv->client_context);
     reply(leader, MILTER_STATUS_REJECT);
 }
 
-- 
2.43.0


From c94e8a7f53077f705b9b8115b55b39eb102f32fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:00 +0000
Subject: [PATCH 44/68] fix: a reply code is used only for a refusal of its
 class

As documented a 4xx code is used for a temporary failure and a 5xx code for a
reject; a 4xx code set before turned a reject into a temporary failure.
---
 milter/client/milter-client-context.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 3a3e157..4684510 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3326,9 +3326,13 @@ create_reply_packet (MilterClientContext *context, MilterStatus status,
     case MILTER_STATUS_TEMPORARY_FAILURE:
     case MILTER_STATUS_REJECT:
     {
-        gchar *code;
+        MilterClientContextPrivate *priv;
+        gchar *code = NULL;
 
-        code = milter_client_context_format_reply(context);
+        priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+        if (priv->reply_code / 100 ==
+            (status == MILTER_STATUS_TEMPORARY_FAILURE ? 4 : 5))
+            code = milter_client_context_format_reply(context);
         if (code) {
             milter_reply_encoder_encode_reply_code(reply_encoder,
                                                    packet, packet_size,
-- 
2.43.0


From 00965e76b6e035da30ba1b3483353323b6eec380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 45/68] fix: a reply code of several lines is understood

A code followed by '-' as libmilter's smfi_setmlreply sends it was taken for an
invalid extended code, and the codes of the following lines were repeated.
---
 milter/core/milter-reply-decoder.c | 39 +++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index fbae4a9..3e325c3 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -178,6 +178,34 @@ is_extended_code (const gchar *text, gint length)
     return n_dots == 2 && n_digits > 0;
 }
 
+static gchar *
+join_reply_lines (const gchar *message, const gchar *code,
+                  const gchar *extended_code)
+{
+    GString *joined_message;
+    const gchar *line, *end;
+    gsize extended_code_size;
+
+    extended_code_size = extended_code ? strlen(extended_code) : 0;
+    joined_message = g_string_new(NULL);
+    line = message;
+    while ((end = strstr(line, "\r\n"))) {
+        g_string_append_len(joined_message, line, end - line);
+        g_string_append_c(joined_message, '\n');
+        line = end + 2;
+        if (strncmp(line, code, 3) == 0 && (line[3] == ' ' || line[3] == '-')) {
+            line += 4;
+            if (extended_code &&
+                strncmp(line, extended_code, extended_code_size) == 0 &&
+                line[extended_code_size] == ' ')
+                line += extended_code_size + 1;
+        }
+    }
+    g_string_append(joined_message, line);
+
+    return g_string_free(joined_message, FALSE);
+}
+
 static gboolean
 decode_reply_reply_code (MilterDecoder *decoder, GError **error)
 {
@@ -185,6 +213,7 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
     gint space_character_point;
     const gchar *buffer;
     gint32 command_length;
+    const gchar *code;
     gchar *reply_code_str;
     gchar *extended_code = NULL;
     gchar *message = NULL;
@@ -226,9 +255,10 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
     if (null_character_point <= 0)
         return FALSE;
 
+    code = buffer;
     buffer += 3;
     null_character_point -= 3;
-    if (buffer[0] == ' ') {
+    if (buffer[0] == ' ' || buffer[0] == '-') {
         buffer++;
         null_character_point--;
     }
@@ -239,12 +269,13 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
         if (is_extended_code(buffer, null_character_point))
             extended_code = g_strdup(buffer);
         else if (null_character_point > 0)
-            message = g_strdup(buffer);
+            message = join_reply_lines(buffer, code, NULL);
     } else if (is_extended_code(buffer, space_character_point)) {
         extended_code = g_strndup(buffer, space_character_point);
-        message = g_strdup(buffer + space_character_point + 1);
+        message = join_reply_lines(buffer + space_character_point + 1,
+                                   code, extended_code);
     } else {
-        message = g_strdup(buffer);
+        message = join_reply_lines(buffer, code, NULL);
     }
 
     milter_debug("[%u] [reply-decoder][reply-code] <%u %s %s>",
-- 
2.43.0


From bba03f16eb444ad4bee3c048b3bf3e24196fd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 46/68] fix: a reply code without a text is one line

Without a text the code was repeated in a second line, and with an empty text
the reply was empty.
---
 milter/core/milter-utils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-utils.c b/milter/core/milter-utils.c
index 2cfd56e..7b6974f 100644
--- a/milter/core/milter-utils.c
+++ b/milter/core/milter-utils.c
@@ -384,8 +384,12 @@ milter_utils_format_reply_code (guint reply_code,
     if (reply_code == 0)
         return NULL;
 
-    if (!reply_message)
-        reply_message = "\n";
+    if (!reply_message || reply_message[0] == '\0') {
+        if (extended_code)
+            return g_strdup_printf("%3u %s", reply_code, extended_code);
+        else
+            return g_strdup_printf("%3u", reply_code);
+    }
     messages = g_strsplit(reply_message, "\n", -1);
 
     original_messages = messages;
-- 
2.43.0


From 052f0d8c0e24076ddb3e5b64d4f87e445273b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 47/68] fix: a modification that cannot be written does not
 crash the manager

milter_client_context_*() return FALSE without an error when writing to the MTA
failed, the error has been emitted then.
---
 milter/manager/milter-manager-leader.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index f84a153..10e7052 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -719,7 +719,7 @@ cb_delete_header (MilterReplySignals *_reply,
                                             &error)) {
         milter_debug(
             "[%u] [leader][header][delete] <%s>[%u]", priv->tag, name, index);
-    } else {
+    } else if (error) {
         milter_error("[%u] [leader][error][delete-header] %s",
                      priv->tag, error->message);
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(leader), error);
@@ -742,7 +742,7 @@ cb_change_from (MilterReplySignals *_reply,
         milter_debug(
             "[%u] [leader][from][change] <%s>(%s)",
             priv->tag, from, parameters ? parameters : "NULL");
-    } else {
+    } else if (error) {
         milter_error("[%u] [leader][error][change-from] %s",
                      priv->tag, error->message);
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(leader), error);
@@ -765,7 +765,7 @@ cb_add_recipient (MilterReplySignals *_reply,
                                             &error)) {
         milter_debug("[%u] [leader][recipient][add] <%s>(%s)",
                      priv->tag, recipient, parameters ? parameters : "NULL");
-    } else {
+    } else if (error) {
         milter_error("[%u] [leader][error][add-recipient] %s",
                      priv->tag, error->message);
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(leader), error);
@@ -787,7 +787,7 @@ cb_delete_recipient (MilterReplySignals *_reply,
                                                &error)) {
         milter_debug("[%u] [leader][recipient][delete] <%s>",
                      priv->tag, recipient);
-    } else {
+    } else if (error) {
         milter_error("[%u] [leader][error][delete-recipient] %s",
                      priv->tag, error->message);
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(leader), error);
@@ -811,7 +811,7 @@ cb_replace_body (MilterReplySignals *_reply,
                      priv->tag,
                      chunk, chunk_size > 10 ? "..." : "",
                      chunk_size);
-    } else {
+    } else if (error) {
         milter_error("[%u] [leader][error][replace-body] %s",
                      priv->tag, error->message);
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(leader), error);
-- 
2.43.0


From 47376579cb6b0f8bcc5ef65824b5f72176535f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 48/68] fix: a modification without a packet is not taken for a
 modification

---
 milter/client/milter-client-context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 4684510..d8d1bea 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -2785,6 +2785,9 @@ write_packet_on_end_of_message (MilterClientContext *context,
     gboolean success = TRUE;
     MilterClientContextPrivate *priv;
 
+    if (!packet)
+        return FALSE;
+
     milter_debug("[%u] [client][buffered-packets][buffer]",
                  milter_agent_get_tag(MILTER_AGENT(context)));
 
-- 
2.43.0


From a86110a1a4cee8c9bcf61db9828cdeeb6d6278a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:08 +0000
Subject: [PATCH 49/68] fix: the leader replied twice to a command that no
 milter processes

---
 milter/manager/milter-manager-leader.c | 40 +++++++++++++++++++-------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index 10e7052..8333590 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -85,6 +85,8 @@ static void teardown_children_signals
                             MilterManagerChildren *children);
 static void reply          (MilterManagerLeader *leader,
                             MilterStatus         status);
+static gboolean is_replied_state
+                           (MilterManagerLeaderState state);
 static gboolean boolean_handled_accumulator
                            (GSignalInvocationHint *hint,
                             GValue                *return_accumulator,
@@ -992,6 +994,22 @@ teardown_children_signals (MilterManagerLeader *leader,
 #undef DISCONNECT
 }
 
+/*
+ * The children may have replied (e.g. by the error that no milter is alive)
+ * before they return FALSE.
+ */
+static MilterStatus
+fallback_status_if_not_replied (MilterManagerLeader *leader,
+                                MilterStatus fallback_status)
+{
+    MilterManagerLeaderPrivate *priv;
+
+    priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
+    if (is_replied_state(priv->state))
+        return MILTER_STATUS_PROGRESS;
+    return fallback_status;
+}
+
 MilterStatus
 milter_manager_leader_negotiate (MilterManagerLeader *leader,
                                  MilterOption *option,
@@ -1026,7 +1044,7 @@ milter_manager_leader_negotiate (MilterManagerLeader *leader,
                                           macros_requests)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
@@ -1051,7 +1069,7 @@ milter_manager_leader_connect (MilterManagerLeader *leader,
                                         address, address_length)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
@@ -1072,7 +1090,7 @@ milter_manager_leader_helo (MilterManagerLeader *leader, const gchar *fqdn)
     if (milter_manager_children_helo(priv->children, fqdn)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
@@ -1094,7 +1112,7 @@ milter_manager_leader_envelope_from (MilterManagerLeader *leader,
     if (milter_manager_children_envelope_from(priv->children, from)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
@@ -1116,7 +1134,7 @@ milter_manager_leader_envelope_recipient (MilterManagerLeader *leader,
     if (milter_manager_children_envelope_recipient(priv->children, recipient)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
@@ -1137,7 +1155,7 @@ milter_manager_leader_data (MilterManagerLeader *leader)
     if (milter_manager_children_data(priv->children)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
@@ -1159,7 +1177,7 @@ milter_manager_leader_unknown (MilterManagerLeader *leader,
     if (milter_manager_children_unknown(priv->children, command)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
@@ -1181,7 +1199,7 @@ milter_manager_leader_header (MilterManagerLeader *leader,
     if (milter_manager_children_header(priv->children, name, value)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
@@ -1202,7 +1220,7 @@ milter_manager_leader_end_of_header (MilterManagerLeader *leader)
     if (milter_manager_children_end_of_header(priv->children)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
@@ -1224,7 +1242,7 @@ milter_manager_leader_body (MilterManagerLeader *leader,
     if (milter_manager_children_body(priv->children, chunk, size)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
@@ -1275,7 +1293,7 @@ milter_manager_leader_end_of_message (MilterManagerLeader *leader,
     if (milter_manager_children_end_of_message(priv->children, chunk, size)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback_status_if_not_replied(leader, fallback_status);
     }
 }
 
-- 
2.43.0


From 1f89095cb986c63cbc282098dede634b1cc084d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:08 +0000
Subject: [PATCH 50/68] fix: modifications of an aborted message were sent with
 the next message

---
 milter/client/milter-client-context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index d8d1bea..058f871 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3308,6 +3308,9 @@ milter_client_context_reset_message_related_data (MilterClientContext *context)
     milter_protocol_agent_clear_message_related_macros(agent);
     milter_client_context_clear_mail_transaction_shelf(context);
 
+    priv->buffering = FALSE;
+    g_string_truncate(priv->buffered_packets, 0);
+
     dispose_message_result(priv);
 }
 
-- 
2.43.0


From 4340db87571b77f659d7a4cc577f2223754f30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:08 +0000
Subject: [PATCH 51/68] fix: end-of-message-bytes called the handler of
 end-of-message with a GBytes

---
 milter/client/milter-client-context.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 058f871..5e4ca27 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -1932,7 +1932,8 @@ milter_client_context_class_init (MilterClientContextClass *klass)
         g_signal_new("end-of-message-bytes",
                      MILTER_TYPE_CLIENT_CONTEXT,
                      G_SIGNAL_RUN_LAST,
-                     G_STRUCT_OFFSET(MilterClientContextClass, end_of_message),
+                     G_STRUCT_OFFSET(MilterClientContextClass,
+                                     end_of_message_bytes),
                      status_accumulator, NULL,
                      NULL,
                      MILTER_TYPE_STATUS, 1, G_TYPE_BYTES);
-- 
2.43.0


From ee0691ca85560751578c56eff7448ad62665c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:08 +0000
Subject: [PATCH 52/68] fix: an early end of message was taken for that of
 every later message

---
 milter/manager/milter-manager-leader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index 8333590..3a0dd1f 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -1233,6 +1233,7 @@ milter_manager_leader_body (MilterManagerLeader *leader,
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_BODY;
+    priv->sent_end_of_message = FALSE;
 
     fallback_status =
         milter_manager_configuration_get_fallback_status(priv->configuration);
-- 
2.43.0


From 5ccb8b1c7beea815c1b798f3703d7abb104fbbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:38 +0000
Subject: [PATCH 53/68] fix: macros set together were not seen once macros had
 been asked for

---
 milter/core/milter-protocol-agent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/core/milter-protocol-agent.c b/milter/core/milter-protocol-agent.c
index afeb0e6..630d9e5 100644
--- a/milter/core/milter-protocol-agent.c
+++ b/milter/core/milter-protocol-agent.c
@@ -347,6 +347,7 @@ milter_protocol_agent_set_macros_valist (MilterProtocolAgent *agent,
         update_macro(macros, name, value);
         name = va_arg(var_args, gchar *);
     }
+    clear_available_macros(priv);
 }
 
 void
-- 
2.43.0


From 63a0adad54b43aeea28ff9afca743c3d0f1e970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:47 +0000
Subject: [PATCH 54/68] fix: a reader was used after it was freed when its
 connection was closed

---
 milter/core/milter-reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/milter/core/milter-reader.c b/milter/core/milter-reader.c
index 62d30a8..2d8bf07 100644
--- a/milter/core/milter-reader.c
+++ b/milter/core/milter-reader.c
@@ -219,6 +219,7 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     MilterReader *reader = data;
     gboolean keep_callback = TRUE;
 
+    g_object_ref(reader);
     priv = MILTER_READER_GET_PRIVATE(reader);
     priv->processing = TRUE;
     milter_trace("[%d] [reader][callback][read][process][start]", priv->tag);
@@ -250,6 +251,7 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
 
     milter_trace("[%d] [reader][callback][read][process][done]", priv->tag);
     priv->processing = FALSE;
+    g_object_unref(reader);
 
     return keep_callback;
 }
@@ -262,6 +264,7 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     gboolean keep_callback = FALSE;
     gboolean error_occurred = FALSE;
 
+    g_object_ref(reader);
     priv = MILTER_READER_GET_PRIVATE(reader);
     milter_trace("[%d] [reader][callback][error][start]", priv->tag);
 
@@ -302,6 +305,7 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     priv->error_watch_id = 0;
     clear_watch_id(priv);
     finish(reader);
+    g_object_unref(reader);
 
     return keep_callback;
 }
-- 
2.43.0


From 20c47687d50ba8e3a9465904716d6e5f0fd85889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:47 +0000
Subject: [PATCH 55/68] fix: buffered data was still handed over after a reader
 was shut down

---
 milter/core/milter-reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/core/milter-reader.c b/milter/core/milter-reader.c
index 2d8bf07..e408ef1 100644
--- a/milter/core/milter-reader.c
+++ b/milter/core/milter-reader.c
@@ -228,6 +228,7 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
         milter_trace("[%d] [reader][callback][read][reading] ...", priv->tag);
         keep_callback = read_from_channel(reader, channel);
         while (keep_callback &&
+               !priv->shutdown_requested &&
                g_io_channel_get_buffered(priv->io_channel) &&
                (g_io_channel_get_buffer_condition(priv->io_channel) & G_IO_IN)) {
             milter_trace("[%d] [reader][callback][read][reading][buffer] ...",
-- 
2.43.0


From 43fd74bfdd32376357555f9502890785ba982db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:47 +0000
Subject: [PATCH 56/68] fix: what a peer had sent was lost when it had closed
 the connection

---
 milter/core/milter-reader.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-reader.c b/milter/core/milter-reader.c
index e408ef1..5286aa6 100644
--- a/milter/core/milter-reader.c
+++ b/milter/core/milter-reader.c
@@ -132,7 +132,8 @@ milter_reader_init (MilterReader *reader)
 
 #define BUFFER_SIZE 4096
 static gboolean
-read_from_channel (MilterReader *reader, GIOChannel *channel)
+read_from_channel (MilterReader *reader, GIOChannel *channel,
+                   gsize *read_size)
 {
     MilterReaderPrivate *priv;
     gboolean error_occurred = FALSE;
@@ -146,6 +147,7 @@ read_from_channel (MilterReader *reader, GIOChannel *channel)
 
     status = g_io_channel_read_chars(channel, stream, BUFFER_SIZE,
                                      &length, &io_error);
+    *read_size = length;
     if (status == G_IO_STATUS_EOF) {
         milter_trace("[%u] [reader][eof]", priv->tag);
         eof = TRUE;
@@ -218,6 +220,7 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     MilterReaderPrivate *priv;
     MilterReader *reader = data;
     gboolean keep_callback = TRUE;
+    gsize read_size;
 
     g_object_ref(reader);
     priv = MILTER_READER_GET_PRIVATE(reader);
@@ -226,14 +229,14 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
 
     if (!priv->shutdown_requested) {
         milter_trace("[%d] [reader][callback][read][reading] ...", priv->tag);
-        keep_callback = read_from_channel(reader, channel);
+        keep_callback = read_from_channel(reader, channel, &read_size);
         while (keep_callback &&
                !priv->shutdown_requested &&
                g_io_channel_get_buffered(priv->io_channel) &&
                (g_io_channel_get_buffer_condition(priv->io_channel) & G_IO_IN)) {
             milter_trace("[%d] [reader][callback][read][reading][buffer] ...",
                          priv->tag);
-            keep_callback = read_from_channel(reader, channel);
+            keep_callback = read_from_channel(reader, channel, &read_size);
         }
     }
 
@@ -270,7 +273,18 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     milter_trace("[%d] [reader][callback][error][start]", priv->tag);
 
     if (!priv->shutdown_requested && (condition & G_IO_HUP)) {
+        gsize read_size;
+
         milter_trace("[%d] [reader][callback][error][closed]", priv->tag);
+        if (!(condition & G_IO_ERR)) {
+            /* What was sent before the close is still to be read. */
+            priv->processing = TRUE;
+            while (read_from_channel(reader, channel, &read_size) &&
+                   read_size > 0 &&
+                   !priv->shutdown_requested) {
+            }
+            priv->processing = FALSE;
+        }
         priv->shutdown_requested = TRUE;
     }
 
-- 
2.43.0


From dfd9fa35631a2b895c7955ae2b2aadc1c8749790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:36 +0000
Subject: [PATCH 57/68] fix: a writer was used after it was freed when its
 owner dropped it while told about it

---
 milter/core/milter-writer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/milter/core/milter-writer.c b/milter/core/milter-writer.c
index 66a293e..4c63b1b 100644
--- a/milter/core/milter-writer.c
+++ b/milter/core/milter-writer.c
@@ -275,6 +275,7 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     GIOStatus status;
     GError *channel_error = NULL;
 
+    g_object_ref(writer);
     priv = MILTER_WRITER_GET_PRIVATE(writer);
 
     milter_trace("[%u] [writer][flush-callback] [%u]",
@@ -310,6 +311,7 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
                      priv->tag, priv->flush_watch_id);
         priv->flush_watch_id = 0;
     }
+    g_object_unref(writer);
 
     return keep_callback;
 }
@@ -341,6 +343,7 @@ write_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     MilterWriterPrivate *priv;
     gboolean keep_callback = TRUE;
 
+    g_object_ref(writer);
     priv = MILTER_WRITER_GET_PRIVATE(writer);
 
     milter_trace("[%u] [writer][write-callback] [%u] "
@@ -419,6 +422,7 @@ write_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
                      priv->tag, priv->write_watch_id);
         priv->write_watch_id = 0;
     }
+    g_object_unref(writer);
 
     return keep_callback;
 }
@@ -525,6 +529,7 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     gchar *message;
     GError *error = NULL;
 
+    g_object_ref(writer);
     priv = MILTER_WRITER_GET_PRIVATE(writer);
 
     message = milter_utils_inspect_io_condition_error(condition);
@@ -545,6 +550,7 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
         clear_flush_watch_id(priv);
         milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(writer));
     }
+    g_object_unref(writer);
 
     return keep_callback;
 }
-- 
2.43.0


From 93d52d5b846d458eeaf1d8b8704131555eb3cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:36 +0000
Subject: [PATCH 58/68] fix: a flush asked for with nothing left to write, or
 while told of another, was forgotten

---
 milter/core/milter-writer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-writer.c b/milter/core/milter-writer.c
index 4c63b1b..cf4201a 100644
--- a/milter/core/milter-writer.c
+++ b/milter/core/milter-writer.c
@@ -272,6 +272,7 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     MilterWriter *writer = data;
     MilterWriterPrivate *priv;
     gboolean keep_callback = FALSE;
+    gboolean flushed = FALSE;
     GIOStatus status;
     GError *channel_error = NULL;
 
@@ -302,7 +303,7 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
         if (status == G_IO_STATUS_AGAIN) {
             keep_callback = TRUE;
         } else {
-            g_signal_emit(writer, signals[FLUSHED], 0);
+            flushed = TRUE;
         }
     }
 
@@ -310,6 +311,8 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
         milter_trace("[%u] [writer][flush-callback][finish] [%u]",
                      priv->tag, priv->flush_watch_id);
         priv->flush_watch_id = 0;
+        if (flushed)
+            g_signal_emit(writer, signals[FLUSHED], 0);
     }
     g_object_unref(writer);
 
@@ -506,7 +509,7 @@ milter_writer_flush (MilterWriter *writer, GError **error)
         return FALSE;
     }
 
-    if (priv->write_watch_id > 0) {
+    if (priv->write_watch_id > 0 && priv->buffer->len > 0) {
         priv->flush_point = priv->buffer->len;
         milter_trace("[%u] [writer][flush][flush-point][set] [%u] "
                      "<%" G_GSIZE_FORMAT ">",
-- 
2.43.0


From 8c53354e9c7de770b14c99ea925b3e6ff04b93ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:58 +0000
Subject: [PATCH 59/68] fix: an agent was used after it was freed when its
 owner dropped it while told about it

---
 milter/core/milter-agent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/milter/core/milter-agent.c b/milter/core/milter-agent.c
index 93cbdb6..6cf1afd 100644
--- a/milter/core/milter-agent.c
+++ b/milter/core/milter-agent.c
@@ -379,6 +379,7 @@ cb_reader_flow (MilterReader *reader,
     MilterAgentPrivate *priv;
     GError *decoder_error = NULL;
 
+    g_object_ref(user_data);
     priv = MILTER_AGENT_GET_PRIVATE(user_data);
 
     milter_decoder_decode(priv->decoder, data, data_size, &decoder_error);
@@ -397,6 +398,7 @@ cb_reader_flow (MilterReader *reader,
                                     error);
         g_error_free(error);
     }
+    g_object_unref(user_data);
 }
 
 static void
@@ -661,6 +663,7 @@ milter_agent_shutdown (MilterAgent *agent)
     if (priv->shutting_down)
         return;
 
+    g_object_ref(agent);
     priv->shutting_down = TRUE;
 
     if (priv->reader) {
@@ -678,6 +681,7 @@ milter_agent_shutdown (MilterAgent *agent)
         milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(agent));
     }
     priv->shutting_down = FALSE;
+    g_object_unref(agent);
 }
 
 guint
-- 
2.43.0


From d9469016d8878423a88e85fc358ab1be6a8f2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:58 +0000
Subject: [PATCH 60/68] fix: the end of an agent was told twice when it was
 shut down while told so

---
 milter/core/milter-agent.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-agent.c b/milter/core/milter-agent.c
index 6cf1afd..9d5b972 100644
--- a/milter/core/milter-agent.c
+++ b/milter/core/milter-agent.c
@@ -430,8 +430,10 @@ cb_reader_finished (MilterFinishedEmittable *emittable, gpointer user_data)
 
     priv = MILTER_AGENT_GET_PRIVATE(agent);
     milter_agent_set_reader(agent, NULL);
-    if (!priv->finished)
+    if (!priv->finished) {
+        priv->finished = TRUE;
         milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(agent));
+    }
 }
 
 void
@@ -678,6 +680,7 @@ milter_agent_shutdown (MilterAgent *agent)
     }
 
     if (!have_reader && !priv->finished) {
+        priv->finished = TRUE;
         milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(agent));
     }
     priv->shutting_down = FALSE;
-- 
2.43.0


From 451c520df534fd605904f5688351ffc029c5a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:45 +0000
Subject: [PATCH 61/68] fix: xxfi_negotiate was called with the macro requests
 for its context

---
 libmilter/libmilter-compatible.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 577185a..6dabc75 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -263,7 +263,7 @@ smfi_register (struct smfiDesc description)
 
 static MilterStatus
 cb_negotiate (MilterClientContext *context, MilterOption *option,
-              gpointer user_data)
+              MilterMacrosRequests *macros_requests, gpointer user_data)
 {
     SmfiContext *smfi_context = user_data;
     sfsistat status;
-- 
2.43.0


From f520fe20d1427cf2f68d8f0081278d5da1d19afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:45 +0000
Subject: [PATCH 62/68] fix: the macros asked for by smfi_setsymlist were never
 asked for

---
 libmilter/libmilter-compatible.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 6dabc75..68a6fd3 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -49,6 +49,7 @@ typedef struct _SmfiContextPrivate	SmfiContextPrivate;
 struct _SmfiContextPrivate
 {
     MilterClientContext *client_context;
+    MilterMacrosRequests *macros_requests;
     gpointer private_data;
 };
 
@@ -102,6 +103,7 @@ smfi_context_init (SmfiContext *context)
 
     priv = SMFI_CONTEXT_GET_PRIVATE(context);
     priv->client_context = NULL;
+    priv->macros_requests = NULL;
     priv->private_data = NULL;
 }
 
@@ -266,6 +268,7 @@ cb_negotiate (MilterClientContext *context, MilterOption *option,
               MilterMacrosRequests *macros_requests, gpointer user_data)
 {
     SmfiContext *smfi_context = user_data;
+    SmfiContextPrivate *priv;
     sfsistat status;
     gulong action, step, preserve1 = 0, preserve2 = 0;
     gulong action_out, step_out, preserve1_out = 0, preserve2_out = 0;
@@ -275,11 +278,14 @@ cb_negotiate (MilterClientContext *context, MilterOption *option,
 
     action = action_out = milter_option_get_action(option);
     step = step_out = milter_option_get_step(option);
+    priv = SMFI_CONTEXT_GET_PRIVATE(smfi_context);
+    priv->macros_requests = macros_requests;
     status = filter_description->xxfi_negotiate(smfi_context,
                                                 action, step,
                                                 preserve1, preserve2,
                                                 &action_out, &step_out,
                                                 &preserve1_out, &preserve2_out);
+    priv->macros_requests = NULL;
     if (status == SMFIS_CONTINUE) {
         milter_option_set_action(option, action_out);
         milter_option_set_step(option, step_out);
@@ -1034,22 +1040,23 @@ int
 smfi_setsymlist (SMFICTX *context, int state, char *macros)
 {
     SmfiContextPrivate *priv;
-    MilterProtocolAgent *agent;
-    MilterMacrosRequests *macros_requests;
+    MilterCommand command;
     gchar **macro_array;
 
     priv = SMFI_CONTEXT_GET_PRIVATE(context);
-    if (!priv->client_context)
+    if (!priv->macros_requests)
         return MI_FAILURE;
 
-    agent = MILTER_PROTOCOL_AGENT(priv->client_context);
-    macros_requests = milter_protocol_agent_get_macros_requests(agent);
-    if (!macros_requests)
-        macros_requests = milter_macros_requests_new();
+    if (!macros || macros[0] == '\0')
+        return MI_FAILURE;
+
+    command = milter_utils_macro_stage_to_command(state);
+    if (!command)
+        return MI_FAILURE;
 
     macro_array = g_strsplit(macros, " ", -1);
-    milter_macros_requests_set_symbols_string_array(macros_requests,
-                                                    state,
+    milter_macros_requests_set_symbols_string_array(priv->macros_requests,
+                                                    command,
                                                     (const gchar**)macro_array);
     g_strfreev(macro_array);
 
-- 
2.43.0


From 47f3a257f86bb50907ac3fee4d2e730a97b56bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:45 +0000
Subject: [PATCH 63/68] fix: smfi_setmlreply without text said it had set a
 reply and had not

---
 libmilter/libmilter-compatible.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 68a6fd3..21dc598 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -805,11 +805,10 @@ smfi_setmlreply (SMFICTX *context,
     va_end(var_args);
 
     if (result == MI_SUCCESS) {
-        if (string->len > 0)
-            result = smfi_setreply(context,
-                                   (char *)return_code,
-                                   (char *)extended_code,
-                                   string->str);
+        result = smfi_setreply(context,
+                               (char *)return_code,
+                               (char *)extended_code,
+                               string->str);
     }
     g_string_free(string, TRUE);
 
-- 
2.43.0


From ca20e918bc5411d22cbf04ee5433cab638f426cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 64/68] fix: the last chunk of a body was kept from a libmilter
 filter without xxfi_eom

---
 libmilter/libmilter-compatible.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 21dc598..c9672fe 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -513,6 +513,8 @@ smfi_context_attach_to_client_context (SmfiContext *context)
     CONNECT(end_of_header, eoh);
     CONNECT(body, body);
     CONNECT(end_of_message, eom);
+    else
+        CONNECT(end_of_message, body); /* the last chunk comes with it */
     CONNECT(abort, abort);
 
 #undef CONNECT
-- 
2.43.0


From 3bd4c4b5e1622c86012a69bbd72e81c6bc5d6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 65/68] fix: keep fallback status and evaluation mode of a
 milter defined again

---
 milter/manager/milter-manager-egg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/milter/manager/milter-manager-egg.c b/milter/manager/milter-manager-egg.c
index 3c85217..acc1fe4 100644
--- a/milter/manager/milter-manager-egg.c
+++ b/milter/manager/milter-manager-egg.c
@@ -828,6 +828,10 @@ milter_manager_egg_merge (MilterManagerEgg *egg,
 
     milter_manager_egg_set_enabled(egg,
                                    milter_manager_egg_is_enabled(other_egg));
+    milter_manager_egg_set_fallback_status(
+        egg, milter_manager_egg_get_fallback_status(other_egg));
+    milter_manager_egg_set_evaluation_mode(
+        egg, milter_manager_egg_is_evaluation_mode(other_egg));
 
     user_name = milter_manager_egg_get_user_name(other_egg);
     if (user_name)
-- 
2.43.0


From 1f8f2254324a980609dbe376dbc89bfeef3c906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 66/68] fix: don't crash on encoding an empty list of macros

---
 milter/core/milter-reply-encoder.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/milter/core/milter-reply-encoder.c b/milter/core/milter-reply-encoder.c
index f0d1da8..e2a542b 100644
--- a/milter/core/milter-reply-encoder.c
+++ b/milter/core/milter-reply-encoder.c
@@ -86,12 +86,14 @@ encode_macros_request (MilterCommand command, GList *symbols, gpointer user_data
     memcpy(encoded_stage, &normalized_stage, sizeof(encoded_stage));
     g_string_append_len(buffer, encoded_stage, sizeof(encoded_stage));
 
-    g_string_append(buffer, symbols->data);
-    for (symbols = g_list_next(symbols);
-         symbols;
-         symbols = g_list_next(symbols)) {
-        g_string_append_c(buffer, ' ');
+    if (symbols) {
         g_string_append(buffer, symbols->data);
+        for (symbols = g_list_next(symbols);
+             symbols;
+             symbols = g_list_next(symbols)) {
+            g_string_append_c(buffer, ' ');
+            g_string_append(buffer, symbols->data);
+        }
     }
     g_string_append_c(buffer, '\0');
 }
-- 
2.43.0


From 07bd65a0ae784b7fb752eff7d366a3ca3d3cfb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 67/68] fix: don't accept chunk size 0, with which a body is
 never sent to its end

---
 milter/manager/milter-manager-configuration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-configuration.c b/milter/manager/milter-manager-configuration.c
index ba9498f..5cef24d 100644
--- a/milter/manager/milter-manager-configuration.c
+++ b/milter/manager/milter-manager-configuration.c
@@ -2462,7 +2462,7 @@ milter_manager_configuration_set_chunk_size (MilterManagerConfiguration *configu
     MilterManagerConfigurationPrivate *priv;
 
     priv = MILTER_MANAGER_CONFIGURATION_GET_PRIVATE(configuration);
-    priv->chunk_size = MIN(size, MILTER_CHUNK_SIZE);
+    priv->chunk_size = CLAMP(size, 1, MILTER_CHUNK_SIZE);
 }
 
 guint
-- 
2.43.0


From d24e70d02ce27826a14b5186c55ddde5c388dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 68/68] fix: keep the removal of the controller's socket apart
 from that of the manager's

---
 milter/manager/milter-manager-configuration.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/manager/milter-manager-configuration.c b/milter/manager/milter-manager-configuration.c
index 5cef24d..a14ea77 100644
--- a/milter/manager/milter-manager-configuration.c
+++ b/milter/manager/milter-manager-configuration.c
@@ -291,7 +291,7 @@ milter_manager_configuration_class_init (MilterManagerConfigurationClass *klass)
                                 TRUE,
                                 G_PARAM_READWRITE | G_PARAM_CONSTRUCT);
     g_object_class_install_property(gobject_class,
-                                    PROP_REMOVE_MANAGER_UNIX_SOCKET_ON_CLOSE,
+                                    PROP_REMOVE_CONTROLLER_UNIX_SOCKET_ON_CLOSE,
                                     spec);
 
     spec = g_param_spec_boolean("remove-manager-unix-socket-on-create",
@@ -311,7 +311,7 @@ milter_manager_configuration_class_init (MilterManagerConfigurationClass *klass)
                                 TRUE,
                                 G_PARAM_READWRITE | G_PARAM_CONSTRUCT);
     g_object_class_install_property(gobject_class,
-                                    PROP_REMOVE_MANAGER_UNIX_SOCKET_ON_CREATE,
+                                    PROP_REMOVE_CONTROLLER_UNIX_SOCKET_ON_CREATE,
                                     spec);
 
     spec = g_param_spec_boolean("daemon",
-- 
2.43.0

