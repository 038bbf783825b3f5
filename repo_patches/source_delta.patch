From d1c87062abf625e54d0ae6d1b14bb97cb4673e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 01/37] fix: install a silo before indexing the records in it

A crash (or a failing link) between IDX_Insert() and link() left index
entries, for the warcinfo and for the object, naming a silo which did
not exist.
---
 wsilo.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 534f1c6..a42b866 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -468,13 +468,15 @@ Wsilo_Install(struct wsilo **slp)
 
 	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
 
-	IDX_Insert(sl->aa,
-	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	/*
 	 * We don't use rename(2) because it wouldn't fail if the
 	 * destination silo already exists.
 	 */
 	AZ(link(VSB_data(sl->hold_fn), VSB_data(sl->silo_fn)));
+
+	/* The index must never name a silo which is not in place. */
+	IDX_Insert(sl->aa,
+	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	if (sl->silo_no == sl->aa->cache_first_non_silo) {
 		sl->aa->cache_first_non_silo++;
 		AardWARC_WriteCache(sl->aa);
@@ -489,7 +491,8 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 	struct vsb *vsb;
 	ssize_t s;
 	int i, done = 0;
-	uint32_t sn;
+	uint32_t sn, idx;
+	off_t hd_start;
 	struct aardwarc *aa;
 	const char *t;
 
@@ -561,8 +564,13 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 		if (rid == NULL)
 			sl->idx |= IDX_F_LASTSEG;
 	}
-	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);
+
+	/* Install the silo before the index points to it. */
+	idx = sl->idx;
+	sn = sl->silo_no;
+	hd_start = sl->hd_start;
 	Wsilo_Install(&sl);
+	IDX_Insert(aa, id, idx, sn, hd_start, rid);
 }
 
 void
-- 
2.43.0


From cdd7eed09d4af8e1f0b00b5463c70294acb3a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 02/37] fix: do not leave a silo hold behind when out of memory

---
 wsilo.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index a42b866..93a44db 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -168,8 +168,7 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 	}
 
 	ALLOC_OBJ(sl, WSILO_MAGIC);
-	if (sl == NULL)
-		return (NULL);
+	AN(sl);
 	sl->hold_fd = -1;
 
 	AN(vsb);
-- 
2.43.0


From cc07551b5973e4acc33232411f38be7bfe8f8578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 03/37] fix: do not housekeep the index without the hold

IDX_Resort() went on if the hold could not be created for any other
reason than already existing: it merged concurrently with another
process and then failed to remove a hold it did not have.
---
 index.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/index.c b/index.c
index 71a1e23..555d15f 100644
--- a/index.c
+++ b/index.c
@@ -631,6 +631,12 @@ IDX_Resort(const struct aardwarc *aa)
 		VSB_delete(vsb4);
 		return;
 	}
+	if (fdh < 0) {
+		fprintf(stderr, "Could not create housekeeping 'hold': %s\n",
+		    strerror(errno));
+		VSB_delete(vsb4);
+		return;
+	}
 
 	spc = malloc(aa->index_sort_size);
 	if (spc == NULL) {
-- 
2.43.0


From e7cc37cd78cc31afc8086e952c1c43d0ca6003b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 04/37] fix: notice when the new sorted index cannot be flushed

A failed fflush(3) discards the buffered entries, and neither the rewrite
of the bucket table nor the final fclose(3) fails because of it, so the
incomplete file replaced the sorted index and the snapshot was removed.
---
 index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index 555d15f..36982b8 100644
--- a/index.c
+++ b/index.c
@@ -340,13 +340,13 @@ bucket_write(const struct bucket *bp, FILE *f)
 		((int64_t)bp->bbucket << 40) |
 		(int64_t)bp->nrec;
 
-	fflush(f);
+	AZ(fflush(f));
 	AZ(fseeko(f, 0, SEEK_SET));
 	for (i = 0; i < bp->nbucket; i++) {
 		be64enc(buf, bp->buckets[i]);
 		assert(1 == fwrite(buf, 8, 1, f));
 	}
-	fflush(f);
+	AZ(fflush(f));
 }
 
 static void
-- 
2.43.0


From 06ab7fce65bca817818ab917a8adbd82dade1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 05/37] fix: do not replace a sorted index which could not be
 read

An open or read error on the existing sorted index was treated like a
missing file or end of file, and the entries not read were lost.
---
 index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index.c b/index.c
index 36982b8..64061c0 100644
--- a/index.c
+++ b/index.c
@@ -492,6 +492,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 
 	vsb1 = idx_filename(aa, SUFF_SORTED);
 	f1 = fopen(VSB_data(vsb1), "r");
+	assert(f1 != NULL || errno == ENOENT);
 
 	bprintf(buf, "tmp.%jd", (intmax_t)getpid());
 	vsb2 = idx_filename(aa, buf);
@@ -534,6 +535,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 			sz = fwrite(rec, 32, 1, f2);
 			assert(sz == 1);
 		}
+		AZ(ferror(f1));
 		AZ(fclose(f1));
 	}
 	while (len > 0)  {
-- 
2.43.0


From 5917ad59b177eb9838b448f72d48f325606e55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 06/37] fix: merge all of the housekeeping snapshot before
 removing it

A short read does not mean end of file.
---
 index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 64061c0..13115df 100644
--- a/index.c
+++ b/index.c
@@ -609,7 +609,7 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		AZ(sz & 0x1f);
 		qsort(spc, ((size_t)sz) >> 5, 32, idx_cmp);
 		idx_merge(aa, spc, sz);
-	} while (sz == (ssize_t)aa->index_sort_size);
+	} while (sz > 0);
 	AZ(close(fd));
 	AZ(unlink(VSB_data(vsbh)));
 	return (retval);
-- 
2.43.0


From e4366ac2f6fd64b5e0f318692947d09b77bb0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 07/37] fix: do not free the sort space twice

IDX_Resort() owns and frees it.
---
 index.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/index.c b/index.c
index 13115df..ac7fce4 100644
--- a/index.c
+++ b/index.c
@@ -591,7 +591,6 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		fprintf(stderr,
 		    "Error opening housekeeping snapshot: %s\n",
 		    strerror(errno));
-		free(spc);
 		return (-1);
 	}
 
-- 
2.43.0


From 4789ca71bcd2622ed19fb44bb3e16667319da2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 08/37] fix: search the index files in the direction entries
 migrate

Housekeeping moves entries from the appendix to the snapshot and from
there to the sorted index.  A lookup which read them in another order
missed entries merged while it was running.
---
 index.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index ac7fce4..5eb9832 100644
--- a/index.c
+++ b/index.c
@@ -394,9 +394,10 @@ static const struct idxfiles {
 	const char	*suff;
 	int		sorted;
 } idxfiles[] = {
-	{ SUFF_SORTED,		1 },
+	/* In the direction entries migrate, so that none can be missed. */
 	{ SUFF_APPENDIX,	0 },
 	{ SUFF_HOUSEKEEP,	0 },
+	{ SUFF_SORTED,		1 },
 	{ NULL, 0}
 };
 
-- 
2.43.0


From fbfe0d228498ed85e3d8a0a17add07038ee60a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 09/37] fix: do not leak the file name when an index file does
 not exist

---
 index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 5eb9832..93f5983 100644
--- a/index.c
+++ b/index.c
@@ -434,9 +434,9 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 	for (idf = idxfiles; idf->suff != NULL; idf++) {
 		vsb = idx_filename(aa, idf->suff);
 		f = fopen(VSB_data(vsb), "r");
+		VSB_delete(vsb);
 		if (f == NULL)
 			continue;
-		VSB_delete(vsb);
 		if (idf->sorted)
 			bucket_seek(key_p, f);
 		do {
-- 
2.43.0


From 28448aa99c9c47a7eed19517e4dce1ebc7dfcd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 10/37] fix: do not take an unreadable index for one without
 the entry

---
 index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index.c b/index.c
index 93f5983..99a68db 100644
--- a/index.c
+++ b/index.c
@@ -434,6 +434,7 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 	for (idf = idxfiles; idf->suff != NULL; idf++) {
 		vsb = idx_filename(aa, idf->suff);
 		f = fopen(VSB_data(vsb), "r");
+		assert(f != NULL || errno == ENOENT);
 		VSB_delete(vsb);
 		if (f == NULL)
 			continue;
@@ -466,6 +467,7 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 			i = func(priv, key, be32dec(rec + 12),
 			    be32dec(rec + 16), off, cont);
 		} while (i == 0);
+		AZ(ferror(f));
 		AZ(fclose(f));
 		if (i)
 			break;
-- 
2.43.0


From 9556cfc1aa306b40ea414138feb1c42b1a0c0cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 11/37] fix: do not truncate the record count of the sorted
 index to 32 bits

---
 index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 99a68db..78368d4 100644
--- a/index.c
+++ b/index.c
@@ -357,7 +357,7 @@ bucket_seek(const void *rec, FILE *f)
 	long bucket;
 	uint64_t id;
 	unsigned nbucket;
-	unsigned nrec;
+	uint64_t nrec;
 	int64_t off;
 
 	AN(rec);
-- 
2.43.0


From 861b6cfc98e5774194455a6942c58a46c0fe83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 12/37] fix: do not lose entries inserted while the snapshot is
 being merged

A process which had opened the appendix before housekeeping took it could
write its entry to the snapshot after housekeeping had read the end of it,
and the entry was removed with the snapshot.
---
 index.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/index.c b/index.c
index 78368d4..0c2cdbb 100644
--- a/index.c
+++ b/index.c
@@ -136,6 +136,8 @@
 #include <stdlib.h>
 
 #include <sys/endian.h>
+#include <sys/file.h>
+#include <sys/stat.h>
 
 #include "vdef.h"
 
@@ -227,6 +229,7 @@ uint32_t silo, uint64_t offset, const char *cont)
 {
 	uint8_t rec[32];
 	int fd, i;
+	struct stat st;
 	struct vsb *vsb;
 
 	assert(aa->id_size >= 16);
@@ -240,8 +243,16 @@ uint32_t silo, uint64_t offset, const char *cont)
 		idx_key_bin(rec + 28, cont, 4);
 
 	vsb = idx_filename(aa, "appendix");
-	fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
-	assert(fd >= 0);
+	while (1) {
+		fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
+		assert(fd >= 0);
+		AZ(flock(fd, LOCK_SH));
+		AZ(fstat(fd, &st));
+		if (st.st_nlink > 0)
+			break;
+		/* Housekeeping merged and removed it since we opened it. */
+		AZ(close(fd));
+	}
 	i = write(fd, rec, sizeof rec);
 	assert(i == (int)sizeof rec);
 	assert(close(fd) == 0);
@@ -565,7 +576,7 @@ static int
 idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
     const struct vsb *vsba, const struct vsb *vsbh)
 {
-	int retval = 0;
+	int retval = 0, locked = 0;
 	int fd;
 	ssize_t sz;
 	int i;
@@ -597,7 +608,7 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		return (-1);
 	}
 
-	do {
+	while (1) {
 		sz = read(fd, spc, aa->index_sort_size);
 		if (sz < 0) {
 			fprintf(stderr,
@@ -606,14 +617,20 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 			AZ(close(fd));
 			return (-1);
 		}
-		if (sz == 0)
+		if (sz == 0 && locked)
 			break;
+		if (sz == 0) {
+			/* Wait for insertions in progress & get them too. */
+			AZ(flock(fd, LOCK_EX));
+			locked = 1;
+			continue;
+		}
 		AZ(sz & 0x1f);
 		qsort(spc, ((size_t)sz) >> 5, 32, idx_cmp);
 		idx_merge(aa, spc, sz);
-	} while (sz > 0);
-	AZ(close(fd));
+	}
 	AZ(unlink(VSB_data(vsbh)));
+	AZ(close(fd));
 	return (retval);
 }
 
-- 
2.43.0


From 8bedc215abc37caa56d18de3cecec93c9f2f491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 13/37] fix: do not look for index entries in the header of the
 sorted index

---
 index.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index 0c2cdbb..eb691b4 100644
--- a/index.c
+++ b/index.c
@@ -389,8 +389,12 @@ bucket_seek(const void *rec, FILE *f)
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
 		assert(1 == fread(buf, sizeof buf, 1, f));
 		off = (int64_t)be64dec(buf);
-		frac += off;
-		AZ(fseeko(f, (long)frac * 32, SEEK_SET));
+		off += (int64_t)frac;
+		off *= 32;
+		/* The first record comes right after the buckets */
+		if (off < 1L << (nbucket + 3))
+			off = 1L << (nbucket + 3);
+		AZ(fseeko(f, off, SEEK_SET));
 	} else {
 		AZ(fseeko(f, 1L << (nbucket + 3), SEEK_SET));
 	}
-- 
2.43.0


From cf16b52a6db5034279147e22c97f18a2eb92b468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 14/37] fix: release the job and its headers when a segmented
 object was committed

SegJob_Commit() also leaked the vsb for error messages.
---
 segjob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segjob.c b/segjob.c
index 731f373..9dc0154 100644
--- a/segjob.c
+++ b/segjob.c
@@ -353,6 +353,7 @@ SegJob_Commit(struct segjob *sj)
 	vsb = VSB_new_auto();
 	AN(vsb);
 	gj = GetJob_New(sj->aa, fid, vsb);
+	VSB_destroy(&vsb);
 	if (gj != NULL) {
 		GetJob_Delete(&gj);
 		fprintf(stderr, "ID %s already in archive\n", fid);
@@ -383,5 +384,6 @@ SegJob_Commit(struct segjob *sj)
 
 		Wsilo_Commit(&sg->silo, 1, Header_Get_Id(sg->hdr), rid);
 	}
+	segjob_destroy(sj);
 	return (id);
 }
-- 
2.43.0


From 84a569b3115b8c5a73cb13ed3a20dc14018258cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 15/37] fix: ignore ambiguous continuations which are not
 segments

The index only holds the first 32 bits of the ID of the next segment,
any other object can match that as well.
---
 getjob.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/getjob.c b/getjob.c
index 846881e..6a93b03 100644
--- a/getjob.c
+++ b/getjob.c
@@ -109,7 +109,12 @@ getjob_iter(void *priv, const char *key,
 		}
 	} else {
 		p = Header_Get(hdr, "WARC-Segment-Origin-ID");
-		AN(p);
+		if (p == NULL) {
+			/* Ambiguous index entry for something else */
+			Header_Destroy(&hdr);
+			Rsilo_Close(&rs);
+			return (0);
+		}
 		assert(p[0] == '<');
 		p++;
 		assert(!memcmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
-- 
2.43.0


From 13b2f054d5b4017a9f0f68e117db6715f61009aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 16/37] fix: do not archive a truncated object when reading the
 input fails

---
 aardwarc.h   |  1 +
 main_store.c |  5 +++++
 segjob.c     | 11 +++++++++++
 3 files changed, 17 insertions(+)

diff --git a/aardwarc.h b/aardwarc.h
index 2413f47..64ac932 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -193,6 +193,7 @@ struct segjob *SegJob_New(struct aardwarc *, const struct header *,
     const char *);
 void SegJob_Feed(struct segjob *, const void *ptr, ssize_t len);
 char *SegJob_Commit(struct segjob *);
+void SegJob_Abandon(struct segjob **);
 
 /* silo.c */
 struct vsb *Silo_Filename(const struct aardwarc *, unsigned number, int hold);
diff --git a/main_store.c b/main_store.c
index 79236b7..9b2dd9b 100644
--- a/main_store.c
+++ b/main_store.c
@@ -267,6 +267,11 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		if (rlen > 0)
 			SegJob_Feed(sj, ibuf_ptr, rlen);
 	} while (rlen > 0);
+	if (rlen < 0) {
+		fprintf(stderr, "Input file read error: %s\n", strerror(errno));
+		SegJob_Abandon(&sj);
+		exit(1);
+	}
 
 	id = SegJob_Commit(sj);
 	printf("%s\n", id);
diff --git a/segjob.c b/segjob.c
index 9dc0154..003ff2a 100644
--- a/segjob.c
+++ b/segjob.c
@@ -387,3 +387,14 @@ SegJob_Commit(struct segjob *sj)
 	segjob_destroy(sj);
 	return (id);
 }
+
+void
+SegJob_Abandon(struct segjob **sjp)
+{
+	struct segjob *sj;
+
+	TAKE_OBJ_NOTNULL(sj, sjp, SEGJOB_MAGIC);
+	if (sj->cur_seg != NULL)
+		(void)deflateEnd(sj->gz);
+	segjob_destroy(sj);
+}
-- 
2.43.0


From d4bd7d9c596fe524b0af72b6b48409e9e9c3fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 17/37] fix: fail when the object cannot be written to the
 output

---
 main_get.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/main_get.c b/main_get.c
index 306a2b5..5cc6803 100644
--- a/main_get.c
+++ b/main_get.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
@@ -135,6 +136,11 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 
 	if (of != NULL) {
 		gp->dst = fopen(of, "w");
+		if (gp->dst == NULL) {
+			fprintf(stderr, "Cannot open %s: %s\n",
+			    of, strerror(errno));
+			exit(1);
+		}
 		gp->hdr = stdout;
 	} else {
 		gp->dst = stdout;
@@ -185,6 +191,12 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		}
 	}
 
+	if (ferror(gp->dst) || fflush(gp->dst) ||
+	    (of != NULL && fclose(gp->dst))) {
+		fprintf(stderr, "Output write error: %s\n", strerror(errno));
+		exit(1);
+	}
+
 	FREE_OBJ(gp);
 	GetJob_Delete(&gj);
 	return (0);
-- 
2.43.0


From 38868102b9a220da3f95bdaf5ffbd26f23250f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 18/37] fix: fail when a silo ends in the middle of a gzip'ed
 body

The length was also truncated to int, which ended delivery early for
bodies of a multiple of 4GB.
---
 aardwarc.h | 2 +-
 rsilo.c    | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 64ac932..73c0c51 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -208,7 +208,7 @@ void Rsilo_NextHeader(struct rsilo *);
 struct header *Rsilo_ReadHeader(struct rsilo *);
 uintmax_t Rsilo_ReadChunk(struct rsilo *, byte_iter_f *, void *);
 int64_t Rsilo_BodyLen(const struct rsilo *);
-int Rsilo_ReadGZChunk(struct rsilo *, byte_iter_f *, void *);
+uintmax_t Rsilo_ReadGZChunk(struct rsilo *, byte_iter_f *, void *);
 off_t Rsilo_Tell(const struct rsilo *);
 void Rsilo_SkipCRNL(struct rsilo *rs);
 
diff --git a/rsilo.c b/rsilo.c
index 0f06b93..9c3cb2b 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -224,14 +224,14 @@ Rsilo_NextHeader(struct rsilo *rs)
 
 /* Read a WARC body ---------------------------------------------------*/
 
-int
+uintmax_t
 Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 {
 	int		ps = getpagesize();
 	ssize_t		sz;
 	char		ibuf[ps * 32];
 	int		j;
-	off_t		ll = 0;
+	uintmax_t	ll = 0;
 
 	CHECK_OBJ_NOTNULL(rs, RSILO_MAGIC);
 	AN(func);
@@ -242,8 +242,7 @@ Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 		if (sz > rs->silo_bodylen)
 			sz = rs->silo_bodylen;
 		sz = read(rs->silo_fd, ibuf, sz);
-		if (sz <= 0)
-			return(0);
+		assert(sz > 0);
 		ll += sz;
 		j = func(priv, ibuf, sz);
 		if (j)
-- 
2.43.0


From ee94038a505848bc74473d0c5990fe00acb76a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 19/37] fix: tell the caller when iterating over the silos was
 stopped

---
 silo.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/silo.c b/silo.c
index a99e7b1..d7f1052 100644
--- a/silo.c
+++ b/silo.c
@@ -100,14 +100,15 @@ Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 		numpart(vsb, 0, u);
 		AZ(VSB_finish(vsb));
 		i = stat(VSB_data(vsb), &st);
-		if (i && errno == ENOENT)
-			break;
+		i = (i && errno == ENOENT);
 		VSB_delete(vsb);
+		if (i)
+			break;
 		vsb = Silo_Filename(aa, u, 0);
 		i = stat(VSB_data(vsb), &st);
 		if (!i && S_ISREG(st.st_mode))
 			retval = func(priv, VSB_data(vsb), u);
 		VSB_delete(vsb);
 	}
-	return (0);
+	return (retval);
 }
-- 
2.43.0


From f24534fdda8b9cae450a4b366719ed581b30a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 20/37] fix: do not loop forever when segments are missing in
 an audit

Nor miss segments which come before their predecessor, nor give up on
the other segmented objects.
---
 main_audit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index b8c5e22..16df9b2 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -235,10 +235,10 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 			}
 			ap = apn;
 		}
-	} while (ap == ap1);
+	} while (ap != ap1);
 
 	printf("ERROR: Failed to find segment %d\n", ap->segment + 1);
-	return (0);
+	return (-1);
 }
 
 static void
-- 
2.43.0


From a51daf3971d5a7d449e2dd1766d7dd30fc6e8395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 21/37] fix: audit all silos, also after a missing one

---
 main_audit.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 16df9b2..8fa7b20 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -375,6 +375,17 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	return (0);
 }
 
+static int v_matchproto_(byte_iter_f)
+audit_silo_iter(void *priv, const void *fn, ssize_t silono)
+{
+	struct aardwarc *aa;
+
+	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
+	if (audit_silo(aa, NULL, silono))
+		printf("ERROR: Cannot open silo %s\n", (const char *)fn);
+	return (0);
+}
+
 static
 void
 usage_audit(const char *a0, const char *a00, const char *err)
@@ -392,7 +403,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch, i;
+	int ch;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -419,13 +430,11 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		i = 0;
-		while (!audit_silo(aa, NULL, i++))
-			continue;
+		AZ(Silo_Iter(aa, audit_silo_iter, aa));
 	} else {
-		while (argc-- > 0)
-			if (audit_silo(aa, *argv++, -1))
-				break;
+		for (; argc > 0; argc--, argv++)
+			if (audit_silo(aa, *argv, -1))
+				printf("ERROR: Cannot open silo %s\n", *argv);
 	}
 
 	err = VSB_new_auto();
-- 
2.43.0


From 7c41315958013054b15f2ad4ccd58488110fe2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 22/37] fix: release the headers of segments audited

---
 main_audit.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main_audit.c b/main_audit.c
index 8fa7b20..e94c6ba 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -139,13 +139,16 @@ static void
 audit_add_one_segment(struct aardwarc *aa, struct audit *ap0, struct audit *ap)
 {
 	struct rsilo *rs;
+	struct header *hdr;
 	off_t o2;
 
 	ap0->gzsz += ap->o2 - ap->o1;
 
 	rs = Rsilo_Open(aa, ap->silo_fn, ap->silo_no, ap->o0);
-	(void)Rsilo_ReadHeader(rs);
 	AN(rs);
+	hdr = Rsilo_ReadHeader(rs);
+	AN(hdr);
+	Header_Destroy(&hdr);
 	(void)Rsilo_ReadChunk(rs, audit_iter, ap0);
 	o2 = Rsilo_Tell(rs);
 	assert(o2 == ap->o2);
-- 
2.43.0


From 638154fa375f0641a53527e8a49e1a8ac052cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 23/37] fix: find objects whose ID is given in upper case when
 filtering

---
 main_filter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main_filter.c b/main_filter.c
index 91bcfc1..38d317e 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -173,6 +174,9 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		}
 		REPLACE(c1->id, p);
 		AN(c1->id);
+		/* The index has lower case keys */
+		for (p = c1->id; *p != '\0'; p++)
+			*p = tolower(*p);
 		c2 = VTAILQ_LAST(&candidates, candhead);
 		ncand++;
 		VTAILQ_INSERT_TAIL(&candidates, c1, list);
-- 
2.43.0


From 9d9cb41e0dba2e083dcd9f26721fe45f85df93de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 24/37] fix: accept a forced identifier which has our prefix

The prefix would have become the ID.
---
 main_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_store.c b/main_store.c
index 9b2dd9b..2e09d50 100644
--- a/main_store.c
+++ b/main_store.c
@@ -179,7 +179,7 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			exit(1);
 		}
 		if (i_arg != NULL) {
-			e = IDX_Valid_Id(aa, i_arg, NULL);
+			e = IDX_Valid_Id(aa, i_arg, &i_arg);
 			if (e != NULL) {
 				fprintf(stderr, "Illegal id (-i): %s\n", e);
 				exit(1);
-- 
2.43.0


From fa33fdea82bac24106d7c5f7ac55abfd35b0b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 25/37] fix: do not overrun the path buffers with deep
 directories

---
 main_stow.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index a3b1ad3..a834db0 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -177,6 +177,8 @@ mtree_interpret(char *line)
 			VTAILQ_INSERT_TAIL(&subj_list, cp, list);
 			proto_ctl_ev(stevedore_0_ev, 1);
 		} else {
+			assert(strlen(mtree_path) + 1 + strlen(w0) <
+			    sizeof mtree_path);
 			strcat(mtree_path, "/");
 			strcat(mtree_path, w0);
 			// printf("D %s\n", mtree_path + 1);
@@ -600,9 +602,10 @@ stevedore_out(int fd, void *priv, int revents)
 			return;
 		}
 		assert(strnunvis(buf, sizeof buf, cp->directory->dirname) > 0);
+		assert(strlen(buf) + 1 < sizeof buf);
 		strcat(buf, "/");
 		assert(strnunvis(strchr(buf, '\0'),
-		    sizeof buf, cp->filename) > 0);
+		    sizeof buf - strlen(buf), cp->filename) > 0);
 		printf("SEND\t%s\n", buf);
 		send_fd = openat(sj->target_dir, buf, O_RDONLY);
 		if (send_fd < 0) {
-- 
2.43.0


From 61031790e59acc609eef6935fb8f078ee307f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 26/37] fix: check that all of the Aa field is there before
 reading it

---
 gzip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gzip.c b/gzip.c
index ea632e9..95a44ea 100644
--- a/gzip.c
+++ b/gzip.c
@@ -129,8 +129,8 @@ Gzip_ReadAa(const void *p, size_t l)
 {
 	int64_t len;
 
+	xxxassert(l >= sizeof gzip_head + 8);
 	assert(Gzip_GoodAa(p, l));
-	xxxassert(l >= sizeof sizeof gzip_head + 8);
 	len = (int64_t)le64dec((const uint8_t*)p + sizeof gzip_head);
 	assert(len > 0);
 	return (len);
-- 
2.43.0


From 0c4ae022bb7c4562e05c3d17f5875c39b99dfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 27/37] fix: do not leak the placeholder ID when cloning a
 header

---
 header.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.c b/header.c
index e7f84d3..ffa713f 100644
--- a/header.c
+++ b/header.c
@@ -109,7 +109,7 @@ Header_Clone(const struct header *hd)
 	hdn = Header_New(hd->aa);
 	AN(hdn);
 	if (hd->warc_record_id != NULL) {
-		hdn->warc_record_id = strdup(hd->warc_record_id);
+		REPLACE(hdn->warc_record_id, hd->warc_record_id);
 		AN(hdn->warc_record_id);
 	}
 	VTAILQ_FOREACH(hf, &hd->hfields, list) {
-- 
2.43.0


From f216fab6e4f5c9a00aefd3160c52b85227ee5173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 28/37] fix: do not run with a configuration which could not be
 parsed

---
 config.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/config.c b/config.c
index 925cc65..f8f988e 100644
--- a/config.c
+++ b/config.c
@@ -199,8 +199,12 @@ Config_Read(const char *fn)
 	}
 	cfg->space[st.st_size] = '\0';
 	e = config_parse(cfg);
-	if (e != NULL)
+	if (e != NULL) {
 		fprintf(stderr, "Config = %s\n", e);
+		config_destroy(cfg);
+		errno = EINVAL;
+		return (NULL);
+	}
 
 	return (cfg);
 }
-- 
2.43.0


From 1e973e9c560aa2969fe18f5102689072028420fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 29/37] fix: do not write past the buffer when rebuilding

---
 main_rebuild.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 2feeef0..1e53141 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -276,7 +276,6 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 		}
 		i = inflate(zs, 0);
 		oz = sizeof obuf - zs->avail_out;
-		obuf[oz] = '\0';
 		rebuild_process(rb, obuf, oz);
 		if (i == Z_STREAM_END) {
 			assert(inflateEnd(zs) == Z_OK);
-- 
2.43.0


From ed15f95d6e3ddb8cd76176f35125fa460fbab834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 30/37] fix: check that the body to fix up fits the buffer

---
 main_rebuild.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main_rebuild.c b/main_rebuild.c
index 1e53141..a2bd529 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -103,6 +103,8 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 
 			q = Header_Get(rb->h, "WARC-record-digest");
 			if (q != NULL) {
+				assert(rb->clen > 0);
+				assert(rb->clen <= (intmax_t)sizeof rb->fixbuf);
 				rb->state = 3;
 				rb->rlen = 0;
 				SHA256_Init(rb->sha256);
-- 
2.43.0


From 06575c92b3dc2f1c4bc54b2d1fd687e3ecdfe65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 31/37] fix: fail when a silo cannot be read to its end while
 rebuilding it

---
 main_rebuild.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index a2bd529..939b432 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -251,7 +251,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	if (fi == NULL) {
 		fprintf(stderr,
 		    "Cannot open %s: %s\n", (const char*)fn, strerror(errno));
-		return (0);
+		return (1);
 	}
 	fprintf(stderr, "SILO NO %zd FN %s\n", silono, (const char *)fn);
 	VSB_clear(rb->vsb);
@@ -286,6 +286,14 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 		}
 	} while (i == Z_OK);
 
+	if (i != Z_OK || ferror(fi) || zs->total_in > 0 || rb->state != 0) {
+		fprintf(stderr, "Silo %s is corrupt or truncated\n",
+		    (const char *)fn);
+		exit(1);
+	}
+
+	(void)inflateEnd(zs);
+	AZ(fclose(fi));
 	AZ(close(rb->fdo));
 
 	return(0);
-- 
2.43.0


From 772e657c890e14a20c649dabe7b2ed205ced6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 32/37] fix: find objects with IDs shorter than the index key
 when filtering

---
 main_filter.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index 38d317e..97b8671 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -112,20 +112,26 @@ filter_iter(void *priv, const char *key,
 {
 	struct cand *c;
 	struct filt *fp;
+	size_t kl;
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
 	(void)flag;
 	(void)cont;
 
+	/* Short IDs are zero padded in the index */
+	kl = strlen(key);
+	if (kl > fp->aa->id_size)
+		kl = fp->aa->id_size;
+
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
 	if (next_cand == NULL || strcmp(key, fp->last) < 0)
 		next_cand = VTAILQ_FIRST(&sorted);
 	strlcpy(fp->last, key, sizeof fp->last);
-	while (next_cand != NULL && strcmp(next_cand->id, key) < 0)
+	while (next_cand != NULL && strncmp(next_cand->id, key, kl) < 0)
 		next_cand = VTAILQ_NEXT(next_cand, sortlist);
 	while (next_cand != NULL &&
-	    !strncmp(key, next_cand->id, strlen(key))) {
+	    !strncmp(key, next_cand->id, kl)) {
 		c = next_cand;
 		next_cand = VTAILQ_NEXT(c, sortlist);
 		if (!s_flag || !filter_s_check(fp, silo, offset, c->id)) {
-- 
2.43.0


From d508c21f18211d288bb69392e9daeae027f0a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 33/37] fix: do not store truncated objects when the connection
 is lost

The store job took the end of file it got when stevedore exited for the
end of the object.  An ID cut short was also used after it was released.
---
 main_stevedore.c | 50 ++++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 1f8f30f..b5234e3 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -28,6 +28,7 @@
  */
 
 #include <poll.h>
+#include <signal.h>
 #include <stdio.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -306,6 +307,22 @@ start_meta(char *ref)
 
 /**********************************************************************/
 
+/*
+ * The store jobs take end of file for the end of the object, so do not let
+ * them see it, unless all of the object was received.
+ */
+
+static void
+input_fail(int status)
+{
+
+	if (store_job != NULL)
+		(void)kill(store_job->pid, SIGKILL);
+	if (meta_job != NULL)
+		(void)kill(meta_job->pid, SIGKILL);
+	exit(status);
+}
+
 static void v_matchproto_(proto_ev_func_f)
 input(int fd, void *priv, int revents)
 {
@@ -317,12 +334,12 @@ input(int fd, void *priv, int revents)
 	(void)priv;
 	(void)revents;
 	i = proto_in(fd, &cmd, &size);
-	if (i == 0) {
+	if (i == 0 && store_job == NULL && meta_job == NULL) {
 		proto_del_ev(&stdin_ev);
 		return;
 	}
 	if (i != 1)
-		exit(42);
+		input_fail(42);
 	switch (cmd) {
 	case PROTO_MSG:
 		WRONG("We don't take messages");
@@ -336,11 +353,8 @@ input(int fd, void *priv, int revents)
 			j = 0;
 			while (size > j) {
 				i = read(0, fp->id + j, size - j);
-				if (i == 0) {
-					proto_del_ev(&stdin_ev);
-					FREE_OBJ(fp);
-					return;
-				}
+				if (i <= 0)
+					input_fail(3);
 				j += i;
 			}
 			fp->id[size] = '\n';
@@ -369,10 +383,8 @@ input(int fd, void *priv, int revents)
 					i = read(0, buf, size);
 				else
 					i = read(0, buf, sizeof buf);
-				if (i <= 0) {
-					proto_del_ev(&stdin_ev);
-					exit(3);
-				}
+				if (i <= 0)
+					input_fail(3);
 				size -= i;
 				i2 = write(store_job->fd_to, buf, i);
 				assert(i2 == i);
@@ -385,10 +397,8 @@ input(int fd, void *priv, int revents)
 			assert (size + 1UL < sizeof buf);
 			while (size > j) {
 				i = read(0, buf + j, size - j);
-				if (i == 0) {
-					proto_del_ev(&stdin_ev);
-					return;
-				}
+				if (i <= 0)
+					input_fail(3);
 				j += i;
 			}
 			buf[size] = '\0';
@@ -401,10 +411,8 @@ input(int fd, void *priv, int revents)
 					i = read(0, buf, size);
 				else
 					i = read(0, buf, sizeof buf);
-				if (i <= 0) {
-					proto_del_ev(&stdin_ev);
-					exit(3);
-				}
+				if (i <= 0)
+					input_fail(3);
 				size -= i;
 				i2 = write(meta_job->fd_to, buf, i);
 				assert(i2 == i);
@@ -424,8 +432,8 @@ input(int fd, void *priv, int revents)
 				i = read(0, buf, size);
 			else
 				i = read(0, buf, sizeof buf);
-			if (i == 0)
-				return;
+			if (i <= 0)
+				input_fail(3);
 			size -= i;
 		}
 		break;
-- 
2.43.0


From e62ea19fa97c8c3480b080995e79510f8ab3341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 34/37] fix: wait for the metadata to be stored before taking
 more input

The report of its ID would also fail when the input had ended.
---
 main_stevedore.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main_stevedore.c b/main_stevedore.c
index b5234e3..4d630be 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -422,6 +422,7 @@ input(int fd, void *priv, int revents)
 			AZ(close(meta_job->fd_to));
 			meta_job->fd_to = -1;
 			meta_job = NULL;
+			proto_ctl_ev(stdin_ev, 0);
 		}
 		break;
 	default:
-- 
2.43.0


From 0d33704d134d31e1aafef85e394b5fb704d6e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 35/37] fix: rebuild loses body data when deflate fills its
 output buffer

With larger pages the input chunk handed to rebuild_process() is larger
than the deflate output buffer, and what did not fit was dropped.
---
 main_rebuild.c | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 939b432..ec4bf26 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -65,6 +65,29 @@ struct rebuild {
 	intmax_t			clen;
 };
 
+/* Deflate all pending input, the output may exceed the buffer */
+
+static void
+rebuild_deflate(struct rebuild *rb, int flush)
+{
+	ssize_t oz, wz;
+	int i;
+
+	do {
+		rb->zs->avail_out = sizeof rb->obuf;
+		rb->zs->next_out = rb->obuf;
+		i = deflate(rb->zs, flush);
+		assert(i == Z_OK || i == Z_STREAM_END || i == Z_BUF_ERROR);
+		oz = sizeof rb->obuf - rb->zs->avail_out;
+		if (oz) {
+			wz = write(rb->fdo, rb->obuf, oz);
+			assert(wz == oz);
+		}
+	} while (rb->zs->avail_out == 0);
+	AZ(rb->zs->avail_in);
+	assert(flush != Z_FINISH || i == Z_STREAM_END);
+}
+
 static void
 rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 {
@@ -72,7 +95,6 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 	char *p;
 	const char *q;
 	off_t ll;
-	int i;
 
 	CHECK_OBJ_NOTNULL(rb, REBUILD_MAGIC);
 
@@ -186,21 +208,11 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			// NB: No continue here, have to do 11 before return
 		}
 		if (rb->state == 11) {
-			rb->zs->avail_out = sizeof rb->obuf;
-			rb->zs->next_out = rb->obuf;
 			if (rb->rlen > 0) {
-				i = deflate(rb->zs, 0);
-				assert(i == Z_OK);
+				rebuild_deflate(rb, Z_NO_FLUSH);
 			} else {
-				i = deflate(rb->zs, Z_SYNC_FLUSH);
-				assert(i == Z_OK);
-				i = deflate(rb->zs, Z_FINISH);
-				assert(i == Z_STREAM_END);
-			}
-			oz = sizeof rb->obuf - rb->zs->avail_out;
-			if (oz) {
-				wz = write(rb->fdo, rb->obuf, oz);
-				assert(wz == oz);
+				rebuild_deflate(rb, Z_SYNC_FLUSH);
+				rebuild_deflate(rb, Z_FINISH);
 			}
 			if (rb->rlen) {
 				rb->state = 10;
-- 
2.43.0


From ed004852e4d8b5792da211a644535ae0f2fc440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:40 +0000
Subject: [PATCH 36/37] fix: rebuild must not take a missing Content-Length for
 a length

---
 main_rebuild.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main_rebuild.c b/main_rebuild.c
index ec4bf26..6a7c53e 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -119,6 +119,7 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			rb->h = Header_Parse(rb->aa, rb->hdrbuf);
 			AN(rb->h);
 			rb->clen = Header_Get_Number(rb->h, "Content-Length");
+			assert(rb->clen >= 0);
 
 			Header_Delete(rb->h, "Content-Length-GZIP");
 			Header_Delete(rb->h, "z");
-- 
2.43.0


From 6c20b4d477d7b0406ca031b4e922851cee90a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:01 +0000
Subject: [PATCH 37/37] fix: reindex must match IDs without regard to case

---
 main_reindex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_reindex.c b/main_reindex.c
index 2d0049e..2f8db94 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -130,7 +130,7 @@ reindex_iter(void *priv, const char *key,
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
-		if (!strncmp(key, seg->id, 16)) {
+		if (!strncasecmp(key, seg->id, 16)) {
 			IDX_Insert(priv, seg->id, seg->flg, seg->silono,
 			    seg->off, cont);
 			seg->done++;
-- 
2.43.0

