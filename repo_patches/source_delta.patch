From d549e29e5593e2eea4bae670bea45d55b35c271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 01/25] fix: reject index entries with a zero or
 unrepresentable length

Entries whose end offset does not lie behind the previous one (or lies too
far behind it) were skipped with a warning, so that an extraction reported
success although part of the image was missing. Entries of length zero were
accepted without looking at any data, marked their id as the one contained
in the buffer (making the next entry with that id write stale data) and
tripped an assertion when inserted into an index.
---
 caibx.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/caibx.c b/caibx.c
index b2ed622..6c74c5f 100644
--- a/caibx.c
+++ b/caibx.c
@@ -206,6 +206,16 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 
 		char chunk_id[CHUNK_ID_STRLEN];
 
+		/* Entries must be in strictly ascending order and chunks that
+		 * we cannot represent at all cannot be dealt with later on.
+		 * Skipping them would silently leave a hole in the image.
+		 */
+		if (len == 0 || len > UINT32_MAX) {
+			chunk_format_id(chunk_id, &buf[8]);
+			u_log(ERR, "chunk %s has invalid length %"PRIu64, chunk_id, len);
+			return -1;
+		}
+
 		// chunks other than the last one should not be shorter than
 		// the minimum size
 		if (len < params->min_size && (i+1) < n_entries) {
@@ -221,13 +231,8 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 			 * of the chunks that do not fit within the declared
 			 * size bounds, as such chunks should not be produced
 			 * by a conforming encoder. But if the chunk ID still
-			 * matches in the end we should be fine. Only skip
-			 * chunks that we cannot represent at all.
+			 * matches in the end we should be fine.
 			 */
-			if (len > UINT32_MAX) {
-				u_log(WARN, "skipping chunk %s", chunk_id);
-				continue;
-			}
 		}
 
 		if (cb(last_offset, (uint32_t)len, &buf[8], arg) < 0)
-- 
2.43.0


From 93249a3aeb8ffd1531eb88f5ab0e673cd4ee79fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 02/25] fix: only reuse the previous chunk for entries of the
 same length

An index that lists the same id twice in a row with different lengths made
the second entry write stale buffer contents, or data from beyond the end
of the buffer, instead of failing.
---
 main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 0e13df5..d69501d 100644
--- a/main.c
+++ b/main.c
@@ -34,6 +34,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 	static bool have_last_id = false;
 	static bool resuming = true;
 	static uint8_t last_id[CHUNK_ID_LEN];
+	static uint32_t last_len;
 	static uint8_t buf[256*1024] __attribute__((aligned(4096)));
 
 	if (resuming) {
@@ -54,7 +55,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		resuming = false;
 	}
 
-	if (!have_last_id || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
+	if (!have_last_id || last_len != len || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
 		ssize_t ret = store_get_chunk(store, id, buf, sizeof(buf));
 		if (ret < 0 || len != (size_t)ret) {
 			u_log(ERR, "result size %zd does not match expected length %"PRIu32, ret, len);
@@ -62,6 +63,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		}
 
 		memcpy(last_id, id, CHUNK_ID_LEN);
+		last_len = len;
 		have_last_id = true;
 	}
 
-- 
2.43.0


From 172fb62c73ce639e713d3dbcdc2675052cfbb324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 03/25] fix: do not abort on stores that are estimated to
 contain no chunks

Local stores smaller than about 54 KiB, empty side-loaded indices and
extracting an empty index with the target as a store tripped the assertion
that the expected size is nonzero.
---
 index.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 1c0a089..6e84a9c 100644
--- a/index.c
+++ b/index.c
@@ -7,7 +7,10 @@
 int index_init(struct index *idx, size_t expected_size)
 {
 	u_assert(idx);
-	u_assert(expected_size > 0);
+
+	// small stores can legitimately be estimated to contain no chunks
+	if (expected_size == 0)
+		expected_size = 1;
 
 	idx->entries = calloc(expected_size, sizeof(*idx->entries));
 	u_notnull(idx->entries, return -1);
-- 
2.43.0


From 4038b4ed55e2af817107fb7f11edf9f3f3f2805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 04/25] fix: do not free the index of a local store twice

If rescanning a store fails before the new index has been allocated, the
old index was freed a second time on exit, aborting an otherwise successful
run.
---
 index.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index.c b/index.c
index 6e84a9c..f9577ea 100644
--- a/index.c
+++ b/index.c
@@ -27,6 +27,7 @@ void index_cleanup(struct index *idx)
 	u_assert(idx);
 
 	free(idx->entries);
+	idx->entries = NULL;
 }
 
 struct index_entry *index_insert(struct index *idx, uint64_t offset, uint32_t len, const uint8_t *id)
-- 
2.43.0


From f68d93edd20f72a50a123746949162814622311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 05/25] fix: rescan a store if a side-loaded entry cannot be
 read

A side-loaded index that lists ranges beyond the end of the store or chunks
that are too large made the whole store fail instead of just being
discarded.
---
 store-local.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/store-local.c b/store-local.c
index b683064..7609bdd 100644
--- a/store-local.c
+++ b/store-local.c
@@ -141,11 +141,20 @@ restart:
 	if (e->len > out_max) {
 		u_log(ERR, "output buffer to small (%zu) to contain cunk of size %"PRIu32,
 		      out_max, e->len);
+
+		// a side-loaded entry might simply be wrong
+		if (!(e->flags & INDEX_FLAG_VALIDATED))
+			goto rescan;
+
 		return -1;
 	}
 
 	if (preadall(ls->fd, out, e->len, e->start) < 0) {
 		u_log(ERR, "reading chunk failed");
+
+		if (!(e->flags & INDEX_FLAG_VALIDATED))
+			goto rescan;
+
 		return -1;
 	}
 
@@ -171,6 +180,7 @@ restart:
 	chunk_format_id(chunk_id_str, actual_chunk_id);
 	u_log(ERR, " got chunk id: %s", chunk_id_str);
 
+rescan:
 	u_log(ERR, "rescanning store '%s'", s->name);
 
 	index_cleanup(&ls->idx);
-- 
2.43.0


From baed44fc2eb5d862627a065e1f401575fc6d2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 06/25] fix: verify chunks from scanned stores when they are
 used

The contents of a local store can change between scanning it and
retrieving a chunk, most notably if the store shares its storage with the
target. Stale entries led to wrong data being written silently.
---
 store-local.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/store-local.c b/store-local.c
index 7609bdd..81f7a84 100644
--- a/store-local.c
+++ b/store-local.c
@@ -158,17 +158,15 @@ restart:
 		return -1;
 	}
 
-	if (e->flags & INDEX_FLAG_VALIDATED)
-		return e->len;
-
-	// if the entry has not been validated, check its contents
+	/* Always check the contents. Side-loaded entries might be wrong, but the
+	 * store can also have changed since it was scanned (in particular if it
+	 * shares storage with the target).
+	 */
 	uint8_t actual_chunk_id[CHUNK_ID_LEN];
 	chunk_calculate_id(out, e->len, actual_chunk_id);
 
-	if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0) {
-		e->flags |= INDEX_FLAG_VALIDATED;
+	if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0)
 		return e->len;
-	}
 
 	char chunk_id_str[CHUNK_ID_STRLEN];
 	u_log(ERR, "chunk validation failure at offset %"PRIu64" (chunk length %"PRIu32")",
@@ -180,6 +178,10 @@ restart:
 	chunk_format_id(chunk_id_str, actual_chunk_id);
 	u_log(ERR, " got chunk id: %s", chunk_id_str);
 
+	// scanning again is only useful if the index came from somewhere else
+	if (e->flags & INDEX_FLAG_VALIDATED)
+		return 0;
+
 rescan:
 	u_log(ERR, "rescanning store '%s'", s->name);
 
-- 
2.43.0


From 55341ac155ba3aa60900b2a760a45d1d83a5e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 07/25] fix: verify chunks that are copied within the target

---
 target.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/target.c b/target.c
index f0ea9f7..1df9dec 100644
--- a/target.c
+++ b/target.c
@@ -4,6 +4,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <inttypes.h>
 
 #include "utils.h"
 #include "chunker.h"
@@ -67,6 +68,14 @@ static ssize_t target_get_chunk(struct store *s, uint8_t *id, uint8_t *out, size
 		return -1;
 	}
 
+	// make sure not to spread data that has changed behind our back
+	uint8_t calculated_id[CHUNK_ID_LEN];
+	chunk_calculate_id(out, e->len, calculated_id);
+	if (memcmp(calculated_id, id, CHUNK_ID_LEN) != 0) {
+		u_log(WARN, "chunk at offset %"PRIu64" has changed in the target", e->start);
+		return 0;
+	}
+
 	return e->len;
 }
 
-- 
2.43.0


From b066ac1956800e504fb96b60979b529770b5f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 08/25] fix: start over with decoding when a download is
 retried

If a transfer times out after part of the body has been received, the
decoder, the decryption stream and the output position were not reset
before the next attempt, so its data was appended to the partial data.
---
 store-http.c | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/store-http.c b/store-http.c
index 815797d..1e8a90b 100644
--- a/store-http.c
+++ b/store-http.c
@@ -232,13 +232,41 @@ static bool curl_is_transient_error(CURLcode code)
 	       code == CURLE_OPERATION_TIMEDOUT;
 }
 
-static CURLcode retried_curl_easy_perform(struct store_http *hs)
+/* Bring all decoding state back to the start, so that nothing a previous
+ * (possibly partial) response left behind can influence the next one.
+ */
+static int reset_decoding(struct http_request_ctx *ctx, uint8_t *id)
 {
+	struct store_http *hs = ctx->hs;
+
+	hs->decode_buffer_fill = 0;
+	ctx->outbuf_written = 0;
+	ctx->state = HTTP_REQUEST_STARTED;
+
+	ZSTD_initDStream(hs->zstd);
+
+	if (hs->encrypted) {
+		// uses the first 24 bytes of the id as the nonce
+		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
+			u_log(ERR, "failed to re-initialize encryption");
+			return -1;
+		}
+	}
+
+	return 0;
+}
+
+static CURLcode retried_curl_easy_perform(struct http_request_ctx *ctx, uint8_t *id)
+{
+	struct store_http *hs = ctx->hs;
 	CURLcode ret;
 	int remaining = CONNECT_TRIES;
 	useconds_t wait_us = 200 * 1000;
 
 	do {
+		if (reset_decoding(ctx, id) < 0)
+			return CURLE_FAILED_INIT;
+
 		ret = curl_easy_perform(hs->curl);
 
 		if (!curl_is_transient_error(ret))
@@ -274,23 +302,11 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 {
 	struct store_http *hs = (struct store_http*) s;
 
-	hs->decode_buffer_fill = 0;
-
-	ZSTD_initDStream(hs->zstd);
-
 	if (set_url(hs, id) < 0) {
 		u_log(ERR, "setting request URL failed");
 		return -1;
 	}
 
-	if (hs->encrypted) {
-		// uses the first 24 bytes of the id as the nonce
-		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
-			u_log(ERR, "failed to re-initialize encryption");
-			return -1;
-		}
-	}
-
 	struct http_request_ctx ctx = {
 		.hs = hs,
 		.outbuf = out,
@@ -303,7 +319,7 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 	u_log(DEBUG, "trying to fetch chunk from '%s'", hs->url_buf);
 
 	CURLcode curl_ret;
-	curl_ret = retried_curl_easy_perform(hs);
+	curl_ret = retried_curl_easy_perform(&ctx, id);
 
 	if (curl_is_transient_error(curl_ret)) {
 		u_log(WARN, "transient transfer failure, increasing error counter");
-- 
2.43.0


From 582678ee1617dae63768e93263c9627bfec3af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 09/25] fix: hash all of the data when falling back from kcapi

The data already passed to the kernel was missing from the hash computed
by the fallback.
---
 sha.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sha.c b/sha.c
index 3e272d6..0c1e64b 100644
--- a/sha.c
+++ b/sha.c
@@ -84,10 +84,12 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 	if (kcapi_fd < 0)
 		return (SHA256(data, len, out) != NULL) ? 0 : -1;
 
-	while (len) {
+	size_t sent = 0;
+
+	while (sent < len) {
 		ssize_t ret;
 
-		ret = send(kcapi_fd, data, len, MSG_MORE);
+		ret = send(kcapi_fd, &data[sent], len - sent, MSG_MORE);
 		if (ret < 0) {
 			if (errno == EINTR)
 				continue;
@@ -96,8 +98,7 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 			goto disable;
 		}
 
-		data += ret;
-		len -= ret;
+		sent += ret;
 	}
 
 	ssize_t ret;
-- 
2.43.0


From c0d9cf22aa15e500544d8c132f4605ba852c4d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 10/25] fix: do not start synchronizing after printing the
 casync help

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index d69501d..dbda8eb 100644
--- a/main.c
+++ b/main.c
@@ -239,7 +239,7 @@ static int casync(int argc, char **argv)
 		switch (c) {
 			case 'h':
 				casync_help();
-				return 0;
+				exit(EXIT_SUCCESS);
 			case ARG_STORE:
 			case ARG_SEED:
 				if (append_store_from_arg(sc, optarg) < 0)
-- 
2.43.0


From 3ea06a683c0e7490ce952fdc87ccd345998cee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 11/25] fix: only strip line endings from the end of a string

A line ending in the middle used to cut off everything from the last line
break on, even if other characters followed.
---
 utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils.c b/utils.c
index 70cc46a..a4d2f48 100644
--- a/utils.c
+++ b/utils.c
@@ -279,6 +279,7 @@ void chomp(char *s)
 			while (*p == '\r' || *p == '\n')
 				p++;
 		} else {
+			q = NULL;
 			p++;
 		}
 	}
-- 
2.43.0


From e933c7d2318393779fe6b660c783b2aabb2312b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 12/25] fix: refuse to chunk with an average size that is too
 small

The derived discriminator is zero for an average size of one, which led to
a division by zero.
---
 chunker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chunker.c b/chunker.c
index b499f49..d638e3a 100644
--- a/chunker.c
+++ b/chunker.c
@@ -3,6 +3,7 @@
 #include <stdbool.h>
 #include <stdio.h>
 #include <unistd.h>
+#include <inttypes.h>
 
 #include "utils.h"
 
@@ -117,6 +118,10 @@ int chunker_init(struct chunker *c, struct chunker_params *params)
 	// make sure we match casync's results here
 	u_build_assert(CA_CHUNKER_DISCRIMINATOR_FROM_AVG(64 * 1024) == 0xc17f);
 	c->discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG(c->params.avg_size);
+	if (c->discriminator == 0) {
+		u_log(ERR, "average chunk size %"PRIu32" is not supported", c->params.avg_size);
+		return -1;
+	}
 
 	chunker_reset(c);
 
-- 
2.43.0


From 15fc294d09ee3b9e71f1523fad96ad2469629473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 13/25] fix: let csn-tool write to stdout even if a file named
 - exists

---
 csn-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index 6ed3582..e09dc03 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -72,7 +72,7 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 		}
 	}
 
-	if (access(output_path, F_OK) == 0)
+	if (!streq(output_path, "-") && access(output_path, F_OK) == 0)
 		return 0;
 
 	// this uses the first 24 bytes of chunk_id
-- 
2.43.0


From a020e564026d23f167f76e9cbf882123fd5fd34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 14/25] fix: do not leave incomplete chunks behind in csn-tool

---
 csn-tool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/csn-tool.c b/csn-tool.c
index e09dc03..e2c0ded 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -107,6 +107,11 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 
 	if (writeall(fd, buf, chunk_size) < 0) {
 		u_log(ERR, "failed to write to output file");
+
+		// an incomplete file would be taken for a finished one later on
+		if (fd != STDOUT_FILENO)
+			unlink(output_path);
+
 		goto out_fd;
 	}
 
-- 
2.43.0


From 91a98afb64966e24bc03ba65917200b862c6847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 15/25] fix: require csn-tool inputs to be named by exactly a
 chunk id

---
 csn-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index e2c0ded..ae83ed7 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -23,7 +23,7 @@ static int chunk_id_from_path(uint8_t id[CHUNK_ID_LEN], const char *path)
 		return -1;
 	}
 
-	if (!streq(&basename[name_len-6], ".cacnk") && !streq(&basename[name_len-10], ".cacnk.enc")) {
+	if (!streq(&basename[64], ".cacnk") && !streq(&basename[64], ".cacnk.enc")) {
 		u_log(ERR, "chunk basename '%s' does not end with '.cacnk' or '.cacnk.enc'", basename);
 		return -1;
 	}
-- 
2.43.0


From d61032dbfa00b0f68558a182a63cf7fecfaa2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 16/25] fix: refuse key files that contain null bytes

---
 encrypt.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/encrypt.c b/encrypt.c
index 6e3d814..22d9a4c 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -158,10 +158,19 @@ int encrypt_parse_keyspec(uint8_t key_out[static 32], const char *keyspec)
 			return -1;
 		}
 	} else if(startswith(keyspec, "file:")) {
-		char *slurped = slurp_file(&keyspec[5], true, NULL);
+		off_t size;
+		char *slurped = slurp_file(&keyspec[5], true, &size);
 		if (!slurped)
 			return -1;
 
+		if (strlen(slurped) != (size_t)size) {
+			u_log(ERR, "key file contains null bytes");
+
+			crypto_wipe(slurped, size);
+			free(slurped);
+			return -1;
+		}
+
 		chomp(slurped);
 
 		key_str = slurped;
-- 
2.43.0


From 58c2a58539deb195a09705a1f55a30f69467cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:39 +0000
Subject: [PATCH 17/25] fix: csn-tool reports an unreadable list on standard
 input

---
 csn-tool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/csn-tool.c b/csn-tool.c
index ae83ed7..af30774 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -156,6 +156,11 @@ static int do_crypt(int argc, char **argv)
 				goto out;
 		}
 
+		if (ferror(stdin)) {
+			u_log_errno("reading from stdin failed");
+			goto out;
+		}
+
 		ret = EXIT_SUCCESS;
 	} else {
 		char *input_path = argv[2];
-- 
2.43.0


From 6913dd06d3580b0ed8956bfa8609d4dcc5567f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 18/25] fix: casync refuses options that displace index or
 target

---
 main.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index dbda8eb..023f7d2 100644
--- a/main.c
+++ b/main.c
@@ -209,9 +209,11 @@ static int casync(int argc, char **argv)
 		exit(EXIT_FAILURE);
 	}
 
-	index_fd = open(argv[argc-2], O_RDONLY);
+	const char *index_path = argv[argc-2];
+
+	index_fd = open(index_path, O_RDONLY);
 	if (index_fd < 0) {
-		u_log_errno("opening index '%s' failed", argv[argc-2]);
+		u_log_errno("opening index '%s' failed", index_path);
 		return -1;
 	}
 
@@ -259,7 +261,10 @@ static int casync(int argc, char **argv)
 	argc -= optind;
 	argv += optind;
 
-	if (argc < 3 || !streq(argv[0], "extract")) {
+	// options behind 'extract' can make something else end up in the place
+	// we have taken the index and the target from
+	if (argc < 3 || !streq(argv[0], "extract") ||
+	    argv[argc-2] != index_path || argv[argc-1] != target_path) {
 		casync_help();
 		exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From e56e887a932b1015555b7a634b30bc5a827c5954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 19/25] fix: keep files from taking the place of closed
 standard descriptors

When started with stdout and stderr closed, the target was opened as file
descriptor 2 and log messages were written into it.
---
 log.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/log.c b/log.c
index 822b03d..8537639 100644
--- a/log.c
+++ b/log.c
@@ -3,6 +3,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <assert.h>
 
 #include "utils.h"
@@ -11,10 +12,28 @@
 static enum u_loglevel loglevel = U_LOG_INFO;
 static bool is_tty;
 
+/* If we have been started without some of the standard file descriptors, files
+ * that are opened later on would take their place and end up being read from or
+ * having log messages written to them. Occupy the free ones in a way that makes
+ * using them fail like before.
+ */
+static void occupy_stdio(void)
+{
+	for (int fd = STDIN_FILENO; fd <= STDERR_FILENO; fd++) {
+		if (fcntl(fd, F_GETFD) >= 0 || errno != EBADF)
+			continue;
+
+		if (open("/dev/null", fd == STDIN_FILENO ? O_WRONLY : O_RDONLY) != fd)
+			exit(EXIT_FAILURE);
+	}
+}
+
 void u_log_init(void)
 {
 	const char *s;
 
+	occupy_stdio();
+
 	is_tty = isatty(STDERR_FILENO);
 
 	s = getenv("LOGLEVEL");
-- 
2.43.0


From 44d8b43a8adf3ea3cc4d5796b897b17e0bb85124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 20/25] fix: decode all of a response however it is delivered

The zstd decoder stops at the end of each frame. Data behind it, like further
frames, was only looked at if more pieces of the response followed, so that
whether a chunk was obtained depended on the way the transport delivered it.
---
 store-http.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/store-http.c b/store-http.c
index 1e8a90b..75df87d 100644
--- a/store-http.c
+++ b/store-http.c
@@ -131,12 +131,25 @@ static ssize_t handle_data(struct http_request_ctx *ctx, uint8_t *data, size_t l
 		.pos = ctx->outbuf_written
 	};
 
-	size_t ret;
-	ret = ZSTD_decompressStream(ctx->hs->zstd, &zstd_out, &zstd_in);
-	if (ZSTD_isError(ret)) {
-		u_log(ERR, "zstd decompression failed with error: %s", ZSTD_getErrorName(ret));
-		return -1;
-	}
+	/* The decoder stops at the end of a frame even if there is more data.
+	 * Carry on so that the result does not depend on whether that happens
+	 * to arrive separately.
+	 */
+	do {
+		size_t last_in = zstd_in.pos, last_out = zstd_out.pos;
+
+		size_t ret;
+		ret = ZSTD_decompressStream(ctx->hs->zstd, &zstd_out, &zstd_in);
+		if (ZSTD_isError(ret)) {
+			u_log(ERR, "zstd decompression failed with error: %s", ZSTD_getErrorName(ret));
+			return -1;
+		}
+
+		if (zstd_in.pos == last_in && zstd_out.pos == last_out && zstd_in.size) {
+			u_log(WARN, "data does not fit into %zu bytes", zstd_out.size);
+			return -1;
+		}
+	} while (zstd_in.pos < zstd_in.size);
 
 	u_log(DEBUG, "decompression consumed %zu out of %zu available bytes and produced %zu",
 	      zstd_in.pos, zstd_in.size, zstd_out.pos);
-- 
2.43.0


From 62dcaf89669bfdb1931bb40ce6fca5523f3d55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 21/25] fix: count the answers of a store from zero

Once the array of substores had been grown, the counters of the new elements
were never initialized, so the statistics reported arbitrary numbers.
---
 store.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store.c b/store.c
index ecdbbf3..11cb866 100644
--- a/store.c
+++ b/store.c
@@ -127,6 +127,7 @@ int store_chain_append(struct store_chain *sc, struct store *s)
 	struct substore *substore = &sc->stores[sc->n_stores];
 	substore->s = s;
 	substore->active = true;
+	substore->hits = 0;
 
 	sc->n_stores++;
 
-- 
2.43.0


From a301bdaa5afc441f56117b53bd5a3d2bea8eb84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 22/25] fix: do not truncate long log messages

The format, assembled in a buffer of 128 bytes, was cut off for longer
messages, losing part of the text and the newline, such that the next message
ended up on the same line. If the cut was within a conversion, its arguments
were misinterpreted.
---
 log.c | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/log.c b/log.c
index 8537639..60aa1a2 100644
--- a/log.c
+++ b/log.c
@@ -70,8 +70,6 @@ bool check_loglevel(enum u_loglevel level)
 
 void _u_log(enum u_loglevel level, const char *path, const char *func, int line, const char *format, ...)
 {
-	int _;
-
 	if (check_loglevel(level) == false)
 		return;
 
@@ -81,7 +79,9 @@ void _u_log(enum u_loglevel level, const char *path, const char *func, int line,
 	else
 		file = path;
 
-	char buf[128];
+	va_list args;
+	va_start(args, format);
+
 	if (is_tty) {
 		static const int color_map[] = {
 			[U_LOG_ERR] = COLOR_RED,
@@ -90,10 +90,9 @@ void _u_log(enum u_loglevel level, const char *path, const char *func, int line,
 			[U_LOG_DEBUG] = COLOR_BLUE
 		};
 
-		_ = snprintf(buf, sizeof(buf), COLOR_START "%s:%s:%d\t%s" COLOR_END "\n",
-		             color_map[level],
-		             file, func, line,
-		             format);
+		fprintf(stderr, COLOR_START "%s:%s:%d\t", color_map[level], file, func, line);
+		vfprintf(stderr, format, args);
+		fputs(COLOR_END "\n", stderr);
 	} else {
 		static const char *level_map[] = {
 			[U_LOG_ERR] = "ERR",
@@ -102,20 +101,11 @@ void _u_log(enum u_loglevel level, const char *path, const char *func, int line,
 			[U_LOG_DEBUG] = "DBG"
 		};
 
-		_ = snprintf(buf, sizeof(buf), "%s %s:%s:%d %s\n",
-		             level_map[level],
-		             file, func, line,
-		             format);
+		fprintf(stderr, "%s %s:%s:%d ", level_map[level], file, func, line);
+		vfprintf(stderr, format, args);
+		fputc('\n', stderr);
 	}
 
-	if (_ < 0) {
-		fputs("error formatting log message", stderr);
-		return;
-	}
-
-	va_list args;
-	va_start(args, format);
-	vfprintf(stderr, buf, args);
 	va_end(args);
 }
 
-- 
2.43.0


From ece653cca1cc9b96189d59930ecad5e13a616d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 23/25] fix: keep the progress from wrapping around with huge
 indexes

With more than 42949672 entries the multiplication overflowed, such that the
progress started over at 0% and never got to 100%.
---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 023f7d2..b860e9a 100644
--- a/main.c
+++ b/main.c
@@ -79,7 +79,7 @@ progress:
 		static uint32_t handled_entries = 0;
 		static progess_status_t progress_status = PROGRESS_STATUS_INIT;
 
-		show_progress(100 * ++handled_entries / n_entries, &progress_status);
+		show_progress(100ull * ++handled_entries / n_entries, &progress_status);
 	}
 
 	return 0;
-- 
2.43.0


From bdad7ca2a5659e9e97381514d778ff7ac94c5782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 24/25] fix: csn-tool: fail if there is no such command

Running it with an unknown command exited with status 0 without having done
anything.
---
 csn-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index af30774..13cd358 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -213,5 +213,5 @@ int main(int argc, char **argv)
 		if (streq(cmds[i].name, argv[1]))
 			return cmds[i].fn(argc - 1, argv + 1);
 
-	usage(argv[0], false);
+	usage(argv[0], true);
 }
-- 
2.43.0


From 51044bcc0db3e5a30e37edea399766c5a0cb3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 25/25] fix: encrypt all of a chunk that is larger than 4 GiB

EVP_Cipher takes the length as an unsigned int. Of larger data, only what
remains modulo 4 GiB was encrypted, and the rest left in plain. Errors
reported as a negative value were not noticed.
---
 encrypt.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/encrypt.c b/encrypt.c
index 22d9a4c..1b97afb 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -136,8 +136,17 @@ void encrypt_close(struct encrypt_ctx *ctx)
 
 int encrypt_do(struct encrypt_ctx *ctx, uint8_t *out, const uint8_t *in, size_t len)
 {
-	if (!EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len))
-		return -1;
+	do {
+		// EVP_Cipher can only process as much as fits into an unsigned int
+		size_t n = MIN(len, (size_t)1 << 30);
+
+		if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, n) <= 0)
+			return -1;
+
+		out += n;
+		in += n;
+		len -= n;
+	} while (len > 0);
 
 	return 0;
 }
-- 
2.43.0

