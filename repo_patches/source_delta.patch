From 763fa67328d79e36269afbf78cec3f58557e5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 01/27] fix: wipe unauthenticated plaintext when OpenSSL AESGCM
 decryption fails

noise_aesgcm_decrypt() decrypts in place before the tag is checked. On a
failure the unauthenticated plaintext stayed in the caller's buffer.
---
 src/backend/openssl/cipher-aesgcm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index cb11bc1..37a69ff 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -158,20 +158,24 @@ static int noise_aesgcm_decrypt(NoiseCipherState *state, const uint8_t *ad, size
      */
     if (!EVP_DecryptUpdate(st->ctx, data, &len, data, data_len)) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_SYSTEM;
     }
 
     /* Set expected tag value. Works in OpenSSL 1.0.1d and later */
     if (!EVP_CIPHER_CTX_ctrl(st->ctx, EVP_CTRL_GCM_SET_TAG, 16, data + len)) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_SYSTEM;
     }
 
     /* Finalise the decryption. A positive return value indicates success,
-     * anything else is a failure - the plaintext is not trustworthy.
+     * anything else is a failure - the plaintext is not trustworthy,
+     * so it must not be left in the caller's buffer.
      */
     if (EVP_DecryptFinal_ex(st->ctx, data + len, &len) <= 0) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_MAC_FAILURE;
     }
 
-- 
2.43.0


From 50312c5e9468d2e2ccf749c7f03b12539b56a686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 02/27] fix: do not leak the AESGCM state when
 EVP_CIPHER_CTX_new() fails

---
 src/backend/openssl/cipher-aesgcm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index 37a69ff..47b8764 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -194,8 +194,10 @@ NoiseCipherState *noise_aesgcm_new_openssl(void)
     NoiseAESGCMState *state = noise_new(NoiseAESGCMState);
     if (!state)
         return 0;
-    if (!(state->ctx = EVP_CIPHER_CTX_new()))
+    if (!(state->ctx = EVP_CIPHER_CTX_new())) {
+        noise_free(state, sizeof(NoiseAESGCMState));
         return 0;
+    }
     state->parent.cipher_id = NOISE_CIPHER_AESGCM;
     state->parent.key_len = 32;
     state->parent.mac_len = 16;
-- 
2.43.0


From bf0a919540af21780569b55616ee31dcae8356c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 03/27] fix: refuse fallback from the one-way pattern Xnoidh,
 as from X

---
 src/protocol/handshakestate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 87ce1ea..3516528 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -984,8 +984,10 @@ int noise_handshakestate_fallback_to(NoiseHandshakeState *state, int pattern_id)
     if (!state)
         return NOISE_ERROR_INVALID_PARAM;
 
-    /* The original pattern must end in "K" for fallback to be possible */
+    /* The original pattern must be interactive and end in "K" for
+       fallback to be possible */
     if (state->symmetric->id.pattern_id < NOISE_PATTERN_NN ||
+            state->symmetric->id.pattern_id == NOISE_PATTERN_X_NOIDH ||
             (state->requirements & NOISE_REQ_FALLBACK_POSSIBLE) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From ac08aabbfbb3d53b8dd0e986c063bc96fc7a525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 04/27] fix: refuse to start XXfallback+hfs directly, as
 XXfallback

---
 src/protocol/handshakestate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 3516528..6a2830f 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -804,7 +804,8 @@ int noise_handshakestate_start(NoiseHandshakeState *state)
         return NOISE_ERROR_INVALID_PARAM;
     if (state->action != NOISE_ACTION_NONE)
         return NOISE_ERROR_INVALID_STATE;
-    if (state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK &&
+    if ((state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK ||
+            state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK_HFS) &&
             (state->requirements & NOISE_REQ_FALLBACK_PREMSG) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From c23ac1bf3787845ce8cfd198e0e9194db41c0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 05/27] fix: do not hand out a freed HandshakeState when its
 creation fails

---
 src/protocol/handshakestate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 6a2830f..cc344e8 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -223,6 +223,7 @@ static int noise_handshakestate_new
     /* Bail out if we had an error trying to create the DHState objects */
     if (err != NOISE_ERROR_NONE) {
         noise_handshakestate_free(*state);
+        *state = 0;
         return err;
     }
 
-- 
2.43.0


From c7adc1bd722399d8ec1e0723f14f8a21abe28dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 06/27] fix: reject Ed25519 signatures whose S component is not
 reduced

---
 src/backend/ref/sign-ed25519.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/backend/ref/sign-ed25519.c b/src/backend/ref/sign-ed25519.c
index 7ab0ea6..daa7e53 100644
--- a/src/backend/ref/sign-ed25519.c
+++ b/src/backend/ref/sign-ed25519.c
@@ -77,12 +77,36 @@ static int noise_ed25519_sign
     return NOISE_ERROR_NONE;
 }
 
+/* Order of the base point, in little-endian byte order */
+static uint8_t const noise_ed25519_order[32] = {
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58,
+    0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+};
+
+/* Determine if the S component of a signature is fully reduced.
+   If it was not checked, then adding the order of the base point to S
+   would turn a valid signature into a different valid signature */
+static int noise_ed25519_is_canonical(const uint8_t *s)
+{
+    int posn;
+    for (posn = 31; posn >= 0; --posn) {
+        if (s[posn] != noise_ed25519_order[posn])
+            return s[posn] < noise_ed25519_order[posn];
+    }
+    return 0;
+}
+
 static int noise_ed25519_verify
         (const NoiseSignState *state, const uint8_t *message,
          size_t message_len, const uint8_t *signature)
 {
     const NoiseEd25519State *st = (const NoiseEd25519State *)state;
-    int result = ed25519_sign_open
+    int result;
+    if (!noise_ed25519_is_canonical(signature + 32))
+        return NOISE_ERROR_INVALID_SIGNATURE;
+    result = ed25519_sign_open
         (message, message_len, st->public_key, signature);
     return result ? NOISE_ERROR_INVALID_SIGNATURE : NOISE_ERROR_NONE;
 }
-- 
2.43.0


From 11badc67adab1b912d530048b072396d7404c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 07/27] fix: step over multi-byte UTF-8 sequences when
 validating strings

---
 src/protobufs/protobufs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index a3826d6..b9711f2 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -874,6 +874,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 2;
             size -= 2;
             if (code >= 0xD800 && code <= 0xDFFF) {
                 /* Surrogate pairs are not allowed */
@@ -899,6 +900,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 3;
             size -= 3;
             if (code > 0x10FFFFUL) {
                 /* Unicode code points stop at U+10FFFF */
-- 
2.43.0


From 14083b5806a4cf9a894b18f9007e78a1ec6b5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 08/27] fix: report a read error in the middle of a key or
 certificate file

---
 src/keys/loader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 3cb2580..7e1b597 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -127,7 +127,7 @@ static int noise_load_file
 
     /* Read the entire contents of the file into memory */
     size = fread(pbuf->data, 1, pbuf->size, file);
-    if (!size && ferror(file)) {
+    if (ferror(file)) {
         noise_free(pbuf->data, pbuf->size);
         pbuf->data = 0;
         fclose(file);
-- 
2.43.0


From 7eac10f1d6f52f598e8bfb312eeaec4950ed3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 09/27] fix: reject over-long key and certificate files that
 cannot be measured in advance

---
 src/keys/loader.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 7e1b597..0861a73 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -89,6 +89,7 @@ static int noise_load_file
 {
     FILE *file;
     size_t size;
+    int err;
 
     /* Initialize the buffer */
     pbuf->data = 0;
@@ -127,11 +128,18 @@ static int noise_load_file
 
     /* Read the entire contents of the file into memory */
     size = fread(pbuf->data, 1, pbuf->size, file);
-    if (ferror(file)) {
+    err = NOISE_ERROR_NONE;
+    if (size == NOISE_MAX_PAYLOAD_LEN && fgetc(file) != EOF) {
+        /* The length was not known in advance and it is too large */
+        err = NOISE_ERROR_INVALID_FORMAT;
+    }
+    if (ferror(file))
+        err = NOISE_ERROR_SYSTEM;
+    if (err != NOISE_ERROR_NONE) {
         noise_free(pbuf->data, pbuf->size);
         pbuf->data = 0;
         fclose(file);
-        return NOISE_ERROR_SYSTEM;
+        return err;
     }
     pbuf->size = size;
 
-- 
2.43.0


From 361e94fb4c049c6b406e312834b6b57509b68a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 10/27] fix: report errors from closing a saved key or
 certificate file

---
 src/keys/loader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 0861a73..ce07dd3 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -615,7 +615,8 @@ static int noise_save_to_file
     if (file) {
         if (fwrite(data, 1, size, file) != size)
             err = NOISE_ERROR_SYSTEM;
-        fclose(file);
+        if (fclose(file) != 0)
+            err = NOISE_ERROR_SYSTEM;
     } else {
         err = NOISE_ERROR_SYSTEM;
     }
@@ -780,7 +781,8 @@ int noise_save_private_key_to_file
             size_t len = pbuf.size - pbuf.posn;
             if (fwrite(pbuf.data + pbuf.posn, 1, len, file) != len)
                 err = NOISE_ERROR_SYSTEM;
-            fclose(file);
+            if (fclose(file) != 0)
+                err = NOISE_ERROR_SYSTEM;
         } else {
             err = NOISE_ERROR_SYSTEM;
         }
-- 
2.43.0


From 3360b57d4045523e8bc16ee1e0dc8b8306fd7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 11/27] fix: read multi-byte values correctly when peeking at a
 protobuf

---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index b9711f2..ae9ecc6 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1063,7 +1063,7 @@ static int noise_protobuf_peek_varint
     posn = pbuf->posn + *length;
     if (posn >= pbuf->size)
         return NOISE_ERROR_INVALID_FORMAT;
-    ch = pbuf->data[posn];
+    ch = pbuf->data[posn++];
     ++(*length);
     if ((ch & 0x80) == 0) {
         *value = ch;
-- 
2.43.0


From e09c2484095a8f4819d6eb1f6a62bee823f92add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 12/27] fix: report allocation failure when adding an element
 read from a protobuf

---
 src/keys/certificate.c           | 49 +++++++++++++++++++++++---------
 tools/protoc/proto3-generate-c.c | 12 ++++++--
 2 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index 99b107b..dd8bee6 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -192,8 +192,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
                 int err;
                 Noise_Signature_read(pbuf, 3, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->signatures), &((*obj)->signatures_count_), &((*obj)->signatures_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_Signature_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -386,8 +389,11 @@ int Noise_CertificateChain_read(NoiseProtobuf *pbuf, int tag, Noise_CertificateC
                 int err;
                 Noise_Certificate_read(pbuf, 8, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->certs), &((*obj)->certs_count_), &((*obj)->certs_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_Certificate_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -548,16 +554,22 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
                 int err;
                 Noise_PublicKeyInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_PublicKeyInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
                 int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_MetaInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -1580,8 +1592,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
                 int err;
                 Noise_MetaInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_MetaInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -2151,16 +2166,22 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
                 int err;
                 Noise_PrivateKeyInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_PrivateKeyInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
                 int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_MetaInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 08732f0..dde8f57 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -837,9 +837,17 @@ static void type_named_read_field
         fprintf(output, "&((*obj)->%s_max_), &value, sizeof(value));\n",
                 field->name.name);
         print_indent();
-        fprintf(output, "if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)\n");
+        fprintf(output, "if (err != NOISE_ERROR_NONE) {\n");
         print_indent();
-        fprintf(output, "   pbuf->error = err;\n");
+        fprintf(output, "    ");
+        generate_name(output, field->type.name.name);
+        fprintf(output, "_free(value);\n");
+        print_indent();
+        fprintf(output, "    if (pbuf->error == NOISE_ERROR_NONE)\n");
+        print_indent();
+        fprintf(output, "        pbuf->error = err;\n");
+        print_indent();
+        fprintf(output, "}\n");
     } else {
         print_indent();
         generate_name(output, field->type.name.name);
-- 
2.43.0


From d905e9c7011bab8a6c6bcb54a7d4594bccfead0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 13/27] fix: report allocation failure when reading a protobuf
 object

---
 src/keys/certificate.c           | 50 +++++++++++++++++++++++++-------
 tools/protoc/proto3-generate-c.c |  5 +++-
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index dd8bee6..e1ede9e 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -174,8 +174,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Certificate_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -379,8 +382,11 @@ int Noise_CertificateChain_read(NoiseProtobuf *pbuf, int tag, Noise_CertificateC
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_CertificateChain_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -526,8 +532,11 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_SubjectInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -879,8 +888,11 @@ int Noise_PublicKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PublicKeyInfo *
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PublicKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1039,8 +1051,11 @@ int Noise_MetaInfo_read(NoiseProtobuf *pbuf, int tag, Noise_MetaInfo **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_MetaInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1212,8 +1227,11 @@ int Noise_Signature_read(NoiseProtobuf *pbuf, int tag, Noise_Signature **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Signature_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1564,8 +1582,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_ExtraSignedInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1852,8 +1873,11 @@ int Noise_EncryptedPrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_Encrypted
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_EncryptedPrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2138,8 +2162,11 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2491,8 +2518,11 @@ int Noise_PrivateKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKeyInfo
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index dde8f57..9563ba9 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -1594,8 +1594,11 @@ static void generate_implement_read(FILE *output, Proto3Message *message)
     fprintf(output, "    err = ");
     generate_name(output, message->name.name);
     fprintf(output, "_new(obj);\n");
-    fprintf(output, "    if (err != NOISE_ERROR_NONE)\n");
+    fprintf(output, "    if (err != NOISE_ERROR_NONE) {\n");
+    fprintf(output, "        if (pbuf->error == NOISE_ERROR_NONE)\n");
+    fprintf(output, "            pbuf->error = err;\n");
     fprintf(output, "        return err;\n");
+    fprintf(output, "    }\n");
     fprintf(output, "    noise_protobuf_read_start_element(pbuf, tag, &end_posn);\n");
     fprintf(output, "    while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {\n");
     fprintf(output, "        switch (noise_protobuf_peek_tag(pbuf)) {\n");
-- 
2.43.0


From 7197dac7d9a900857acd1a96353d49486cd293dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 14/27] fix: only retry saving a private key when its nonce is
 reserved

---
 src/keys/loader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index ce07dd3..301e8d4 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -916,9 +916,9 @@ int noise_save_private_key_to_buffer
                                    pbuf->posn - pcopy.posn - mac_len,
                                    pbuf->posn - pcopy.posn);
             err = noise_cipherstate_encrypt_with_ad(cipher, 0, 0, &buf);
-            if (err != NOISE_ERROR_NONE) {
-                /* The nonce is probably the reserved value 2^64 - 1,
-                   which we cannot use.  Generate a new salt and try again */
+            if (err == NOISE_ERROR_INVALID_NONCE) {
+                /* The nonce is the reserved value 2^64 - 1, which we
+                   cannot use.  Generate a new salt and try again */
                 noise_randstate_generate_simple(salt, sizeof(salt));
                 retry = 1;
             }
-- 
2.43.0


From 2c5c037780fb41d9e8b61a6d70dbe832be0a7554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 15/27] fix: do not leak a certificate that cannot be added to
 its chain

---
 src/keys/loader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 301e8d4..d8824e6 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -344,6 +344,7 @@ int noise_load_certificate_chain_from_buffer
         if (err == NOISE_ERROR_NONE)
             err = Noise_CertificateChain_insert_certs(*chain, 0, cert);
         if (err != NOISE_ERROR_NONE) {
+            Noise_Certificate_free(cert);
             Noise_CertificateChain_free(*chain);
             *chain = 0;
         }
-- 
2.43.0


From 7315e39f18c36185976bfc2dac8e4ecd0fb26902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 16/27] fix: skip unknown fields when loading a certificate
 from a chain

---
 src/keys/loader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index d8824e6..61621ad 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -239,6 +239,10 @@ int noise_load_certificate_from_buffer
         Noise_Certificate *cert2 = 0;
         noise_protobuf_read_start_element(pbuf, 0, &end_posn);
         while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
+            if (noise_protobuf_peek_tag(pbuf) != 8) {
+                noise_protobuf_read_skip(pbuf);
+                continue;
+            }
             err = Noise_Certificate_read(pbuf, 8, &cert2);
             if (err != NOISE_ERROR_NONE)
                 break;
-- 
2.43.0


From 7adc851414ecb5164441e664e119eb0e25d477cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 17/27] fix: protobufs: refuse negative tags when reading

---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index ae9ecc6..463d30f 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1218,7 +1218,7 @@ static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
         err = pbuf->error;
     } else {
         /* The caller-supplied tag is negative, which is always an error */
-        if (pbuf->error != NOISE_ERROR_NONE)
+        if (pbuf->error == NOISE_ERROR_NONE)
             pbuf->error = NOISE_ERROR_INVALID_FORMAT;
         err = pbuf->error;
     }
-- 
2.43.0


From 38313cc91ee8727acce64286aff0209554b3387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 18/27] fix: keytool generate: honour Diffie-Hellman names in
 --algorithms

---
 tools/keytool/generate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/keytool/generate.c b/tools/keytool/generate.c
index f6e08c1..2599382 100644
--- a/tools/keytool/generate.c
+++ b/tools/keytool/generate.c
@@ -103,8 +103,8 @@ static int parse_algorithms(const char *names)
                     fprintf(stderr, "'\n");
                     return 0;
                 }
-                add_algorithm_id(id);
             }
+            add_algorithm_id(id);
         }
         names += len;
         if (*names == ',')
@@ -220,10 +220,15 @@ int main_generate(const char *progname, int argc, char *argv[])
                     retval = 1;
                     goto cleanup;
                 }
-                noise_dhstate_get_keypair
+                err = noise_dhstate_get_keypair
                     (dh, private_key, private_key_length,
                      public_key, public_key_length);
                 noise_dhstate_free(dh);
+                if (err != NOISE_ERROR_NONE) {
+                    noise_perror(name, err);
+                    retval = 1;
+                    goto cleanup;
+                }
             } else {
                 fprintf(stderr, "Unknown Diffie-Hellman algorithm '%s'\n",
                         name);
-- 
2.43.0


From fbb9161eff1539e5e455f3bc8dee60c8482ad374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 19/27] fix: keytool show: recognise certificate chains

---
 tools/keytool/show.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index 4f3759d..7f37526 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -330,7 +330,7 @@ static int show_file(const char *filename)
     if (data[0] == 0x50) {
         /* Encrypted private key */
         ok = show_private_key(filename, &pbuf);
-    } else if (data[0] == 0x40) {
+    } else if (data[0] == 0x42) {
         /* Certificate chain */
         ok = show_certificate_chain(filename, &pbuf);
     } else {
-- 
2.43.0


From c4d97315ff00d0e1d0c89db0108a3b3e83a95505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 20/27] fix: keytool show: print the values of meta information

---
 tools/keytool/show.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index 7f37526..ff34473 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -120,7 +120,7 @@ static void dump_certificate(const Noise_Certificate *cert)
             const Noise_MetaInfo *meta =
                 Noise_SubjectInfo_get_at_meta(subject, index);
             const char *name = Noise_MetaInfo_get_name(meta);
-            const char *value = Noise_MetaInfo_get_name(meta);
+            const char *value = Noise_MetaInfo_get_value(meta);
             if (!name)
                 name = "Unknown";
             if (!value)
@@ -244,7 +244,7 @@ static void dump_private_key(const Noise_PrivateKey *priv_key)
         const Noise_MetaInfo *meta =
             Noise_PrivateKey_get_at_meta(priv_key, index);
         const char *name = Noise_MetaInfo_get_name(meta);
-        const char *value = Noise_MetaInfo_get_name(meta);
+        const char *value = Noise_MetaInfo_get_value(meta);
         if (!name)
             name = "Unknown";
         if (!value)
-- 
2.43.0


From f958077d835680f07c0b5c0eaf3f3e57032f42f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 21/27] fix: keytool show: report read errors and over-long
 files

---
 tools/keytool/show.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index ff34473..ccb3248 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -313,11 +313,13 @@ static int show_file(const char *filename)
         return 0;
     }
     len = fread(data, 1, NOISE_MAX_PAYLOAD_LEN, file);
-    if (!len) {
+    if (!len || ferror(file) || getc(file) != EOF || ferror(file)) {
         if (ferror(file))
             perror(filename);
-        else
+        else if (!len)
             fprintf(stderr, "%s: Empty file\n", filename);
+        else
+            fprintf(stderr, "%s: File is too long\n", filename);
         fclose(file);
         noise_free(data, NOISE_MAX_PAYLOAD_LEN);
         return 0;
-- 
2.43.0


From 89bfd618fe46ef65100af8b1a65ef87db1d61543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 22/27] fix: keytool sign: do not report success without
 signing anything

---
 tools/keytool/sign.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tools/keytool/sign.c b/tools/keytool/sign.c
index 269b659..d23f197 100644
--- a/tools/keytool/sign.c
+++ b/tools/keytool/sign.c
@@ -104,14 +104,11 @@ static int parse_options_sign(const char *progname, int argc, char *argv[])
 /* Main entry point for the "sign" subcommand */
 int main_sign(const char *progname, int argc, char *argv[])
 {
-    int retval = 0;
-
     /* Parse the command-line options */
     if (!parse_options_sign(progname, argc, argv))
         return 1;
 
     // TODO
-
-    /* Clean up and exit */
-    return retval;
+    fprintf(stderr, "%s: signing is not implemented yet\n", input_certificate);
+    return 1;
 }
-- 
2.43.0


From c2f3d9fbf4fdaee49586eccec588a90eeeda0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:04 +0000
Subject: [PATCH 23/27] fix: noise-protoc: clearing repeated strings left a
 stale size array

The generated clear function of a repeated string or bytes field freed the
array of element sizes but kept the pointer, so that adding an element
afterwards, or freeing the message, used and freed it again.
---
 tools/protoc/proto3-generate-c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 9563ba9..746c4e2 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -409,6 +409,8 @@ static void type_string_clear_field
     if (field->qualifier == PROTO3_QUAL_REPEATED ||
             field->qualifier == PROTO3_QUAL_PACKED) {
         print_indent();
+        fprintf(output, "obj->%s_size_ = 0;\n", field->name.name);
+        print_indent();
         fprintf(output, "obj->%s_count_ = 0;\n", field->name.name);
         print_indent();
         fprintf(output, "obj->%s_max_ = 0;\n", field->name.name);
-- 
2.43.0


From e6ac8f48bbb7fdff97d5e6e06b292b180931dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:04 +0000
Subject: [PATCH 24/27] fix: noise-protoc: reading a repeated string leaked
 every element

The generated add function copies its argument, so the buffer that the
element was read into must be released afterwards.
---
 tools/protoc/proto3-generate-c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 746c4e2..2ad0294 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -470,6 +470,8 @@ static void type_string_read_field
         print_indent();
         generate_name(output, message->name.name);
         fprintf(output, "_add_%s(*obj, value, len);\n", field->name.name);
+        print_indent();
+        fprintf(output, "noise_protobuf_free_memory(value, len);\n");
     } else {
         print_indent();
         fprintf(output, "noise_protobuf_free_memory((*obj)->%s, (*obj)->%s_size_);\n",
-- 
2.43.0


From 5580f12271d9aaf84a605727a883324e73f19565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 25/27] fix: noise-protoc: reading reported success with
 elements missing

The generated read functions ignored failures to add an element to a
repeated number, string or bytes field, so that a failed memory allocation
silently dropped it.  Repeated messages were handled already.
---
 tools/protoc/proto3-generate-c.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 2ad0294..f198d76 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -161,6 +161,25 @@ static void type_numeric_write_field
     }
 }
 
+/**
+ * \brief Adds a value that was read to a repeated field.
+ *
+ * Failure to do so is recorded in "pbuf" so that the read does not succeed
+ * with some of the elements missing.
+ */
+static void generate_read_add
+    (Proto3Message *message, Proto3Field *field, const char *args)
+{
+    print_indent();
+    fprintf(output, "err = ");
+    generate_name(output, message->name.name);
+    fprintf(output, "_add_%s(*obj, %s);\n", field->name.name, args);
+    print_indent();
+    fprintf(output, "if (err != NOISE_ERROR_NONE && pbuf->error == NOISE_ERROR_NONE)\n");
+    print_indent();
+    fprintf(output, "    pbuf->error = err;\n");
+}
+
 /**
  * \brief Reads a numeric field.
  */
@@ -173,9 +192,7 @@ static void type_numeric_read_field
         print_indent();
         fprintf(output, "noise_protobuf_read_%s(pbuf, %d, &value);\n",
                 type->proto_name, tag);
-        print_indent();
-        generate_name(output, message->name.name);
-        fprintf(output, "_add_%s(*obj, value);\n", field->name.name);
+        generate_read_add(message, field, "value");
     } else if (field->qualifier == PROTO3_QUAL_PACKED) {
         print_indent();
         fprintf(output, "size_t end_packed = 0;\n");
@@ -189,9 +206,7 @@ static void type_numeric_read_field
         print_indent();
         fprintf(output, "noise_protobuf_read_%s(pbuf, 0, &value);\n",
                 type->proto_name);
-        print_indent();
-        generate_name(output, message->name.name);
-        fprintf(output, "_add_%s(*obj, value);\n", field->name.name);
+        generate_read_add(message, field, "value");
         --indent_level;
         print_indent();
         fprintf(output, "}\n");
@@ -467,9 +482,7 @@ static void type_string_read_field
         } else {
             fprintf(output, "noise_protobuf_read_alloc_bytes(pbuf, %d, &value, 0, &len);\n", tag);
         }
-        print_indent();
-        generate_name(output, message->name.name);
-        fprintf(output, "_add_%s(*obj, value, len);\n", field->name.name);
+        generate_read_add(message, field, "value, len");
         print_indent();
         fprintf(output, "noise_protobuf_free_memory(value, len);\n");
     } else {
-- 
2.43.0


From 35c3167191a5c1d751a7c324b444c2a533927f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 26/27] fix: noise-protoc: do not leave truncated output after
 a write error

Write errors such as a full disk went unnoticed and the truncated source
and header files were kept with a successful exit status.
---
 tools/protoc/main.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/tools/protoc/main.c b/tools/protoc/main.c
index ca30d33..5bb0d55 100644
--- a/tools/protoc/main.c
+++ b/tools/protoc/main.c
@@ -83,6 +83,17 @@ static int parse_options(int argc, char *argv[])
     return 1;
 }
 
+/* Close an output file, reporting failure to write its contents */
+static int close_file(FILE *file, const char *filename)
+{
+    int failed = ferror(file);
+    if (fclose(file) != 0)
+        failed = 1;
+    if (failed)
+        fprintf(stderr, "%s: could not write the file\n", filename);
+    return !failed;
+}
+
 int main(int argc, char *argv[])
 {
     int retval = 0;
@@ -118,11 +129,11 @@ int main(int argc, char *argv[])
         generate_c(output_c_file, output_c, output_h_file, output_h);
     }
 
-    /* Close the output files */
-    if (output_c)
-        fclose(output_c);
-    if (output_h)
-        fclose(output_h);
+    /* Close the output files and check that everything was written */
+    if (output_c && !close_file(output_c, output_c_file))
+        retval = 1;
+    if (output_h && !close_file(output_h, output_h_file))
+        retval = 1;
 
     /* Clean up and exit */
     proto3_cleanup();
-- 
2.43.0


From ab02e6b5c1cbe7aecb35d2b9a824c9d5038568d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 27/27] fix: noise-protoc: bytes outside ASCII silently ended
 the definition

The lexer returned them as negative numbers (and zero bytes as zero),
which the parser takes for the end of the file: the rest of the definition
was ignored and code for the first part of it generated without an error.
---
 tools/protoc/proto3-lexer.l | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/protoc/proto3-lexer.l b/tools/protoc/proto3-lexer.l
index 9e3cc93..8cf012f 100644
--- a/tools/protoc/proto3-lexer.l
+++ b/tools/protoc/proto3-lexer.l
@@ -94,6 +94,9 @@ STRCHAR     [^"\n]
 
 "//".*\n    { ++yylloc.first_line; }
 
-.           { return yytext[0]; }
+.           {
+                /* Zero and negative values would mean "end of file" */
+                return yytext[0] ? (yytext[0] & 0xFF) : 0xFF;
+            }
 
 %%
-- 
2.43.0

