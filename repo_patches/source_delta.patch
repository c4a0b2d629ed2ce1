From ce3fd70128ab334f2ead4057c8adaf286c2ffb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 1/8] fix: make the last signature with the genuine key before
 deleting the key

The signers wiped seeds, root and stored state when they reached the last
index and then computed the last signature from the zeroed key; the index
field was afterwards overwritten by idx + 1, which is 0 for a total height
of 40. Delete the key only when it is exhausted, or after the last
signature is complete.
---
 xmss_core.c      | 28 +++++++++++++++++++---------
 xmss_core_fast.c | 48 ++++++++++++++++++++++++++++++++----------------
 2 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index af9f8d1..a45e180 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -196,6 +196,7 @@ int xmssmt_core_sign(const xmss_params *params,
     unsigned char idx_bytes_32[32];
     unsigned int i;
     uint32_t idx_leaf;
+    int last;
 
     uint32_t ots_addr[8] = {0};
     set_type(ots_addr, XMSS_ADDR_TYPE_OTS);
@@ -209,25 +210,24 @@ int xmssmt_core_sign(const xmss_params *params,
     idx = (unsigned long)bytes_to_ull(sk, params->index_bytes);
     
     /* Check if we can still sign with this sk.
-     * If not, return -2
+     * If not, delete it and return -2
      * 
      * If this is the last possible signature (because the max index value 
-     * is reached), production implementations should delete the secret key 
-     * to prevent accidental further use.
+     * is reached), the secret key is deleted as soon as that signature has
+     * been made, to prevent accidental further use.
      * 
      * For the case of total tree height of 64 we do not use the last signature 
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    last = (idx == ((1ULL << params->full_height) - 1));
+    if (idx > ((1ULL << params->full_height) - 1)
+        || (last && params->full_height == 64)) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
     
     memcpy(sm, sk, params->index_bytes);
@@ -236,7 +236,12 @@ int xmssmt_core_sign(const xmss_params *params,
      * THIS IS WHERE PRODUCTION IMPLEMENTATIONS WOULD UPDATE THE SECRET KEY. *
      *************************************************************************/
     /* Increment the index in the secret key. */
-    ull_to_bytes(sk, params->index_bytes, idx + 1);
+    if (last) {
+        memset(sk, 0xFF, params->index_bytes);
+    }
+    else {
+        ull_to_bytes(sk, params->index_bytes, idx + 1);
+    }
 
     /* Compute the digest randomization value. */
     ull_to_bytes(idx_bytes_32, 32, idx);
@@ -269,5 +274,10 @@ int xmssmt_core_sign(const xmss_params *params,
         sm += params->tree_height*params->n;
     }
 
+    if (last) {
+        /* That was the last one-time key. */
+        memset(sk + params->index_bytes, 0, params->sk_bytes - params->index_bytes);
+    }
+
     return 0;
 }
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index cbf87ec..a1a70c8 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -589,6 +589,7 @@ int xmss_core_sign(const xmss_params *params,
     const unsigned char *pub_root = sk + params->index_bytes + 2*params->n;
 
     uint16_t i = 0;
+    int last;
 
     // TODO refactor BDS state not to need separate treehash instances
     bds_state state;
@@ -602,25 +603,24 @@ int xmss_core_sign(const xmss_params *params,
     unsigned long idx = ((unsigned long)sk[0] << 24) | ((unsigned long)sk[1] << 16) | ((unsigned long)sk[2] << 8) | sk[3];
     
     /* Check if we can still sign with this sk.
-     * If not, return -2
+     * If not, delete it and return -2
      * 
      * If this is the last possible signature (because the max index value 
-     * is reached), production implementations should delete the secret key 
-     * to prevent accidental further use.
+     * is reached), the secret key is deleted as soon as that signature has
+     * been made, to prevent accidental further use.
      * 
      * For the case of total tree height of 64 we do not use the last signature 
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    last = (idx == ((1ULL << params->full_height) - 1));
+    if (idx > ((1ULL << params->full_height) - 1)
+        || (last && params->full_height == 64)) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
     
     unsigned char sk_seed[params->n];
@@ -639,6 +639,9 @@ int xmss_core_sign(const xmss_params *params,
     sk[1] = ((idx + 1) >> 16) & 255;
     sk[2] = ((idx + 1) >> 8) & 255;
     sk[3] = (idx + 1) & 255;
+    if (last) {
+        memset(sk, 0xFF, params->index_bytes);
+    }
     // Secret key for this non-forward-secure version is now updated.
     // A production implementation should consider using a file handle instead,
     //  and write the updated secret key at this point!
@@ -716,6 +719,11 @@ int xmss_core_sign(const xmss_params *params,
     /* Write the updated BDS state back into sk. */
     xmss_serialize_state(params, sk, &state);
 
+    if (last) {
+        /* That was the last one-time key. */
+        memset(sk + params->index_bytes, 0, params->sk_bytes - params->index_bytes);
+    }
+
     return 0;
 }
 
@@ -794,6 +802,7 @@ int xmssmt_core_sign(const xmss_params *params,
     uint64_t i, j;
     int needswap_upto = -1;
     unsigned int updates;
+    int last;
 
     unsigned char sk_seed[params->n];
     unsigned char sk_prf[params->n];
@@ -823,25 +832,24 @@ int xmssmt_core_sign(const xmss_params *params,
     }
 
     /* Check if we can still sign with this sk.
-     * If not, return -2
+     * If not, delete it and return -2
      * 
      * If this is the last possible signature (because the max index value 
-     * is reached), production implementations should delete the secret key 
-     * to prevent accidental further use.
+     * is reached), the secret key is deleted as soon as that signature has
+     * been made, to prevent accidental further use.
      * 
      * For the case of total tree height of 64 we do not use the last signature 
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    last = (idx == ((1ULL << params->full_height) - 1));
+    if (idx > ((1ULL << params->full_height) - 1)
+        || (last && params->full_height == 64)) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
     
     memcpy(sk_seed, sk+params->index_bytes, params->n);
@@ -852,6 +860,9 @@ int xmssmt_core_sign(const xmss_params *params,
     for (i = 0; i < params->index_bytes; i++) {
         sk[i] = ((idx + 1) >> 8*(params->index_bytes - 1 - i)) & 255;
     }
+    if (last) {
+        memset(sk, 0xFF, params->index_bytes);
+    }
     // Secret key for this non-forward-secure version is now updated.
     // A production implementation should consider using a file handle instead,
     //  and write the updated secret key at this point!
@@ -984,5 +995,10 @@ int xmssmt_core_sign(const xmss_params *params,
 
     xmssmt_serialize_state(params, sk, states);
 
+    if (last) {
+        /* That was the last one-time key. */
+        memset(sk + params->index_bytes, 0, params->sk_bytes - params->index_bytes);
+    }
+
     return 0;
 }
-- 
2.43.0


From 0ec91abb74219a92362b5cd8f37843c2ad955d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 2/8] fix: refuse a deleted key whose all-ones index equals the
 last index

For a total height of 40 the index field has no value above the last index,
so a deleted (all-ones, zeroed) key looked like one with its last one-time
key left and was used to sign again.
---
 xmss_core.c      | 18 +++++++++++++++++-
 xmss_core_fast.c | 20 ++++++++++++++++++--
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index a45e180..3886596 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -176,6 +176,22 @@ int xmssmt_core_keypair(const xmss_params *params,
     return 0;
 }
 
+/**
+ * Tells whether nothing but zeroes is left of a secret key after its index.
+ * For some total heights (e.g. 40) the all-ones index of a deleted key is also
+ * the last valid index, so that the index alone does not tell them apart.
+ */
+static int sk_is_deleted(const xmss_params *params, const unsigned char *sk)
+{
+    unsigned char bits = 0;
+    unsigned int i;
+
+    for (i = 0; i < 4 * params->n; i++) {
+        bits |= sk[params->index_bytes + i];
+    }
+    return bits == 0;
+}
+
 /**
  * Signs a message. Returns an array containing the signature followed by the
  * message and an updated secret key.
@@ -222,7 +238,7 @@ int xmssmt_core_sign(const xmss_params *params,
      */ 
     last = (idx == ((1ULL << params->full_height) - 1));
     if (idx > ((1ULL << params->full_height) - 1)
-        || (last && params->full_height == 64)) {
+        || (last && (params->full_height == 64 || sk_is_deleted(params, sk)))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index a1a70c8..8677c9a 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -530,6 +530,22 @@ unsigned long long xmss_xmssmt_core_sk_bytes(const xmss_params *params)
         + (params->d - 1) * params->wots_sig_bytes;
 }
 
+/**
+ * Tells whether nothing but zeroes is left of a secret key after its index.
+ * For some total heights (e.g. 40) the all-ones index of a deleted key is also
+ * the last valid index, so that the index alone does not tell them apart.
+ */
+static int sk_is_deleted(const xmss_params *params, const unsigned char *sk)
+{
+    unsigned char bits = 0;
+    unsigned int i;
+
+    for (i = 0; i < 4 * params->n; i++) {
+        bits |= sk[params->index_bytes + i];
+    }
+    return bits == 0;
+}
+
 /*
  * Generates a XMSS key pair for a given parameter set.
  * Format sk: [(32bit) idx || SK_SEED || SK_PRF || root || PUB_SEED]
@@ -615,7 +631,7 @@ int xmss_core_sign(const xmss_params *params,
      */ 
     last = (idx == ((1ULL << params->full_height) - 1));
     if (idx > ((1ULL << params->full_height) - 1)
-        || (last && params->full_height == 64)) {
+        || (last && (params->full_height == 64 || sk_is_deleted(params, sk)))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
@@ -844,7 +860,7 @@ int xmssmt_core_sign(const xmss_params *params,
      */ 
     last = (idx == ((1ULL << params->full_height) - 1));
     if (idx > ((1ULL << params->full_height) - 1)
-        || (last && params->full_height == 64)) {
+        || (last && (params->full_height == 64 || sk_is_deleted(params, sk)))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
-- 
2.43.0


From 15cf51f83f01f614828f2bc063d6c64a54313e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 3/8] fix: reject signed messages shorter than a signature

The message length underflowed and verification read and wrote far outside
the caller's buffers.
---
 xmss_commons.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmss_commons.c b/xmss_commons.c
index 2b76b94..d201ba5 100644
--- a/xmss_commons.c
+++ b/xmss_commons.c
@@ -156,6 +156,11 @@ int xmssmt_core_sign_open(const xmss_params *params,
     set_type(ltree_addr, XMSS_ADDR_TYPE_LTREE);
     set_type(node_addr, XMSS_ADDR_TYPE_HASHTREE);
 
+    /* Anything shorter than a signature can not be a valid signed message. */
+    if (smlen < params->sig_bytes) {
+        *mlen = 0;
+        return -1;
+    }
     *mlen = smlen - params->sig_bytes;
 
     /* Convert the index bytes from the signature to an integer. */
-- 
2.43.0


From 9028020ea2e18c8e639786020030354931c7ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 4/8] fix: keep the high checksum digit for w = 256

When the checksum digits fill whole bytes (w = 256: 2 * 8 bits) there are no
empty low bits, but the checksum was shifted left by 8 and lost its most
significant digit.
---
 wots.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.c b/wots.c
index d9c8449..50ebf8b 100644
--- a/wots.c
+++ b/wots.c
@@ -93,7 +93,7 @@ static void wots_checksum(const xmss_params *params,
 
     /* Convert checksum to base_w. */
     /* Make sure expected empty zero bits are the least significant bits. */
-    csum = csum << (8 - ((params->wots_len2 * params->wots_log_w) % 8));
+    csum = csum << ((8 - ((params->wots_len2 * params->wots_log_w) % 8)) % 8);
     ull_to_bytes(csum_bytes, sizeof(csum_bytes), csum);
     base_w(params, csum_base_w, params->wots_len2, csum_bytes);
 }
-- 
2.43.0


From edea2f4cc98dfac3e07bed1d37b70a8f86bb5068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 5/8] fix: sign: release the signature only after the advanced
 key is stored

The signing tool ignored the result of signing and of every read and write:
it printed uninitialised memory when the key was refused or exhausted, and
printed the signature even when the advanced index never reached the key
file, so that the same one-time key would be used again.
---
 ui/sign.c | 73 ++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 14 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index d82ea6b..1366d61 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -23,7 +23,9 @@ int main(int argc, char **argv) {
     uint8_t buffer[XMSS_OID_LEN];
     int parse_oid_result;
 
+    long m_size;
     unsigned long long mlen;
+    int ret = -1;
 
     if (argc != 3) {
         fprintf(stderr, "Expected keypair and message filenames as two "
@@ -47,11 +49,22 @@ int main(int argc, char **argv) {
     }
 
     /* Find out the message length. */
-    fseek(m_file, 0, SEEK_END);
-    mlen = ftell(m_file);
+    if (fseek(m_file, 0, SEEK_END) || (m_size = ftell(m_file)) < 0
+        || fseek(m_file, 0, SEEK_SET)) {
+        fprintf(stderr, "Could not determine the message length.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
+    mlen = m_size;
 
     /* Read the OID from the public key, as we need its length to seek past it */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     /* The XMSS_OID_LEN bytes in buffer are a big-endian uint32. */
     oid_pk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_pk);
@@ -63,9 +76,14 @@ int main(int argc, char **argv) {
     }
 
     /* fseek past the public key */
-    fseek(keypair_file, params.pk_bytes, SEEK_CUR);
     /* This is the OID we're actually going to use. Likely the same, but still. */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fseek(keypair_file, params.pk_bytes, SEEK_CUR)
+        || fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     oid_sk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_sk);
     if (parse_oid_result != 0) {
@@ -80,23 +98,50 @@ int main(int argc, char **argv) {
     unsigned char *sm = malloc(params.sig_bytes + mlen);
     unsigned long long smlen;
 
+    if ((m == NULL && mlen > 0) || sm == NULL) {
+        fprintf(stderr, "Out of memory.\n");
+        goto cleanup;
+    }
+
     /* fseek back to start of sk. */
-    fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR);
-    fseek(m_file, 0, SEEK_SET);
-    fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
-    fread(m, 1, mlen, m_file);
+    if (fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR)
+        || fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file)
+           != XMSS_OID_LEN + params.sk_bytes) {
+        fprintf(stderr, "Could not read secret key.\n");
+        goto cleanup;
+    }
+    if (fread(m, 1, mlen, m_file) != mlen) {
+        fprintf(stderr, "Could not read message.\n");
+        goto cleanup;
+    }
 
-    XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
 
-    fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR);
-    fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file);
-    fwrite(sm, 1, smlen, stdout);
+    /* The changed key has to be stored before the signature is released. */
+    if (fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR)
+        || fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file)
+           != params.sk_bytes
+        || fflush(keypair_file)) {
+        fprintf(stderr, "Could not update secret key.\n");
+        ret = -1;
+        goto cleanup;
+    }
+    if (ret) {
+        fprintf(stderr, "Signing failed.\n");
+        goto cleanup;
+    }
+
+    if (fwrite(sm, 1, smlen, stdout) != smlen || fflush(stdout)) {
+        fprintf(stderr, "Could not write signature.\n");
+        ret = -1;
+    }
 
+cleanup:
     fclose(keypair_file);
     fclose(m_file);
 
     free(m);
     free(sm);
 
-    return 0;
+    return ret;
 }
-- 
2.43.0


From 4431a98d1cd41ce5f80a76ae74517738d790c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 6/8] fix: open: fail on unreadable or truncated input files

Results of reads and allocations were ignored, so the outcome was computed
from uninitialised memory (or a null pointer) when a file was too short.
---
 ui/open.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/ui/open.c b/ui/open.c
index a0b0b94..6f95761 100644
--- a/ui/open.c
+++ b/ui/open.c
@@ -22,8 +22,9 @@ int main(int argc, char **argv) {
     uint8_t buffer[XMSS_OID_LEN];
     int parse_oid_result;
 
+    long sm_size;
     unsigned long long smlen;
-    int ret;
+    int ret = -1;
 
     if (argc != 3) {
         fprintf(stderr, "Expected keypair and signature + message filenames "
@@ -47,10 +48,20 @@ int main(int argc, char **argv) {
     }
 
     /* Find out the message length. */
-    fseek(sm_file, 0, SEEK_END);
-    smlen = ftell(sm_file);
+    if (fseek(sm_file, 0, SEEK_END) || (sm_size = ftell(sm_file)) < 0) {
+        fprintf(stderr, "Could not determine the message length.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
+    smlen = sm_size;
 
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
     oid = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid);
     if (parse_oid_result != 0) {
@@ -65,10 +76,18 @@ int main(int argc, char **argv) {
     unsigned char *m = malloc(smlen);
     unsigned long long mlen;
 
-    fseek(keypair_file, 0, SEEK_SET);
-    fseek(sm_file, 0, SEEK_SET);
-    fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file);
-    fread(sm, 1, smlen, sm_file);
+    if ((sm == NULL || m == NULL) && smlen > 0) {
+        fprintf(stderr, "Out of memory.\n");
+        goto cleanup;
+    }
+
+    if (fseek(keypair_file, 0, SEEK_SET) || fseek(sm_file, 0, SEEK_SET)
+        || fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file)
+           != XMSS_OID_LEN + params.pk_bytes
+        || fread(sm, 1, smlen, sm_file) != smlen) {
+        fprintf(stderr, "Could not read public key or signed message.\n");
+        goto cleanup;
+    }
 
     ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen, pk);
 
@@ -79,6 +98,7 @@ int main(int argc, char **argv) {
         printf("Verification succeeded.\n");
     }
 
+cleanup:
     fclose(keypair_file);
     fclose(sm_file);
 
-- 
2.43.0


From 5db2160507d195354c401c5b3480afa68ca5fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 7/8] fix: keypair: report unknown names, failed generation and
 failed writes

The tool exited with status 0 although the key pair had not been generated or
had not been written out completely.
---
 ui/keypair.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/ui/keypair.c b/ui/keypair.c
index 612c448..55585c0 100644
--- a/ui/keypair.c
+++ b/ui/keypair.c
@@ -27,7 +27,10 @@ int main(int argc, char **argv)
         return -1;
     }
 
-    XMSS_STR_TO_OID(&oid, argv[1]);
+    if (XMSS_STR_TO_OID(&oid, argv[1])) {
+        fprintf(stderr, "Unknown parameter string.\n");
+        return -1;
+    }
     parse_oid_result = XMSS_PARSE_OID(&params, oid);
     if (parse_oid_result != 0) {
         fprintf(stderr, "Error parsing oid.\n");
@@ -37,12 +40,19 @@ int main(int argc, char **argv)
     unsigned char pk[XMSS_OID_LEN + params.pk_bytes];
     unsigned char sk[XMSS_OID_LEN + params.sk_bytes];
 
-    XMSS_KEYPAIR(pk, sk, oid);
-
-    fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout);
-    fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout);
+    if (XMSS_KEYPAIR(pk, sk, oid)) {
+        fprintf(stderr, "Key generation failed.\n");
+        return -1;
+    }
 
-    fclose(stdout);
+    if (fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout)
+           != XMSS_OID_LEN + params.pk_bytes
+        || fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout)
+           != XMSS_OID_LEN + params.sk_bytes
+        || fclose(stdout)) {
+        fprintf(stderr, "Could not write keypair.\n");
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From b026b47136f13567414ef238d28863eb7e3b83bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:00 +0000
Subject: [PATCH 8/8] fix: charge the update budget only for next trees that
 still grow

In the stateful multi-tree signer a next tree that had all its leaves went on
consuming one update per signature, because its leaf count was compared with
the total height instead of the height of a tree. With trees of height 5 and
8 or 12 layers nothing was left for layer 3, whose next tree was promoted
with 31 of its 32 leaves: signature 2^20 and those after it did not verify.
---
 xmss_core_fast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index 8677c9a..e032140 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -980,7 +980,7 @@ int xmssmt_core_sign(const xmss_params *params,
             set_tree_addr(addr, (idx_tree + 1));
             // if a NEXT-tree exists for this level;
             if ((1 + idx_tree) * (1 << params->tree_height) + idx_leaf < (1ULL << (params->full_height - params->tree_height * i))) {
-                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->full_height)) {
+                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->tree_height)) {
                     bds_state_update(params, &states[params->d + i], sk_seed, pub_seed, addr);
                     updates--;
                 }
-- 
2.43.0

