From b4b871899f6a18360cecd83eab5172510959fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 01/66] fix: reserve header space for deflate's worst case in
 segmented records

The Content-Length of a segment can have four more digits than the
silo size has, and WARC-Segment-Total-Length had no spare digits at all
("%00jd"), so storing a file ending in a lot of very compressible data
could abort in Wsilo_Commit() after the first segment was installed.
---
 segjob.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/segjob.c b/segjob.c
index 731f373..8679770 100644
--- a/segjob.c
+++ b/segjob.c
@@ -125,12 +125,13 @@ segjob_newseg(struct segjob *sj)
 	Header_Set(sg->hdr, "WARC-Block-Digest", "sha256:%s", digest);
 
 	/*
-	 * We reserve two extra digits to allow up to 99% compression.
+	 * We reserve four extra digits, because deflate can compress up
+	 * to 1032:1.
 	 * This also covers the case where data is already gzip'ed and
 	 * the C-L-G is longer than the C-L
 	 */
 	im = sj->aa->silo_maxsize;
-	Header_Set(sg->hdr, "Content-Length", "00%jd", im);
+	Header_Set(sg->hdr, "Content-Length", "0000%jd", im);
 
 	if (sg->segno == 1) {
 		pad += Header_Len("WARC-Segment-Number", "1");
@@ -142,7 +143,7 @@ segjob_newseg(struct segjob *sj)
 
 		/* In case this becomes the last segment */
 		im = sj->size + sj->aa->silo_maxsize;
-		pad += Header_Len("WARC-Segment-Total-Length", "%00jd", im);
+		pad += Header_Len("WARC-Segment-Total-Length", "0000%jd", im);
 	}
 
 	REPLACE(digest, NULL);
-- 
2.43.0


From 734c2405a30413364d216986cd26370db4143b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 02/66] fix: get: keep looking past index records which are not
 the wanted one

An object with two segments of identical content, or a resource with the
same content as a continuation segment or warcinfo record, could be
stored but not retrieved: the lookup gave up on (or asserted about) the
first record with the right ID instead of going on to the next.
---
 getjob.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/getjob.c b/getjob.c
index 846881e..a43cd9b 100644
--- a/getjob.c
+++ b/getjob.c
@@ -89,10 +89,11 @@ getjob_iter(void *priv, const char *key,
 
 	p = Header_Get_Id(hdr);
 	if ((flag & IDX_F_WARCINFO) && !strcasecmp(p, gj->id)) {
+		/* Keep looking, a resource can have the same ID */
 		gj->err = "ID is warcinfo segment";
 		Header_Destroy(&hdr);
 		Rsilo_Close(&rs);
-		return (-1);
+		return (0);
 	}
 	gjs = VTAILQ_LAST(&gj->segs, getjobseg_head);
 	if (gjs == NULL) {
@@ -102,14 +103,20 @@ getjob_iter(void *priv, const char *key,
 			return (0);
 		}
 		if ((flag & IDX_F_SEGMENTED) && !(flag & IDX_F_FIRSTSEG)) {
+			/* Keep looking, a resource can have the same ID */
 			gj->err = "ID is continuation segment";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	} else {
 		p = Header_Get(hdr, "WARC-Segment-Origin-ID");
-		AN(p);
+		if (p == NULL) {
+			/* Not a continuation segment */
+			Header_Destroy(&hdr);
+			Rsilo_Close(&rs);
+			return (0);
+		}
 		assert(p[0] == '<');
 		p++;
 		assert(!memcmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
@@ -129,12 +136,16 @@ getjob_iter(void *priv, const char *key,
 		assert(im >= 0);
 		segno = im;
 		if (segno != gjs->segno + 1) {
+			/*
+			 * Segments with identical content have the same ID,
+			 * so this may just be another segment of the object.
+			 */
 			gj->err =
 			    "Index Inconsistency: "
 			    "Continuation out of order.";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	}
 
-- 
2.43.0


From b9776383173bb495159b90efd31d62fd1eba93c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 03/66] fix: filter: find upper case IDs and IDs shorter than
 96 bits

Also check all index records with the same key when -s is given.
---
 main_filter.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index 91bcfc1..fcebc5e 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -111,6 +112,7 @@ filter_iter(void *priv, const char *key,
 {
 	struct cand *c;
 	struct filt *fp;
+	size_t l;
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
 	(void)flag;
@@ -118,13 +120,17 @@ filter_iter(void *priv, const char *key,
 
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
-	if (next_cand == NULL || strcmp(key, fp->last) < 0)
+	/* The key is zero padded if IDs are shorter than the index' keys */
+	l = strlen(key);
+	if (l > fp->aa->id_size)
+		l = fp->aa->id_size;
+	if (next_cand == NULL || strcmp(key, fp->last) <= 0)
 		next_cand = VTAILQ_FIRST(&sorted);
 	strlcpy(fp->last, key, sizeof fp->last);
-	while (next_cand != NULL && strcmp(next_cand->id, key) < 0)
+	while (next_cand != NULL && strncmp(next_cand->id, key, l) < 0)
 		next_cand = VTAILQ_NEXT(next_cand, sortlist);
 	while (next_cand != NULL &&
-	    !strncmp(key, next_cand->id, strlen(key))) {
+	    !strncmp(key, next_cand->id, l)) {
 		c = next_cand;
 		next_cand = VTAILQ_NEXT(c, sortlist);
 		if (!s_flag || !filter_s_check(fp, silo, offset, c->id)) {
@@ -173,6 +179,9 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		}
 		REPLACE(c1->id, p);
 		AN(c1->id);
+		/* The index has lower case keys */
+		for (p = c1->id; *p != '\0'; p++)
+			*p = tolower(*p);
 		c2 = VTAILQ_LAST(&candidates, candhead);
 		ncand++;
 		VTAILQ_INSERT_TAIL(&candidates, c1, list);
-- 
2.43.0


From e75a30d2c9392ac600ffcabee07d170077ad5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 04/66] fix: get: report failures to open or write the output

The last buffer was flushed by exit(), so a full filesystem went
unnoticed, and an output file which could not be opened was a NULL
pointer dereference.
---
 main_get.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/main_get.c b/main_get.c
index 306a2b5..3133e5f 100644
--- a/main_get.c
+++ b/main_get.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
@@ -135,6 +136,11 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 
 	if (of != NULL) {
 		gp->dst = fopen(of, "w");
+		if (gp->dst == NULL) {
+			fprintf(stderr, "Cannot open %s: %s\n",
+			    of, strerror(errno));
+			exit (1);
+		}
 		gp->hdr = stdout;
 	} else {
 		gp->dst = stdout;
@@ -185,6 +191,11 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		}
 	}
 
+	if (fflush(gp->dst) || fflush(gp->hdr)) {
+		fprintf(stderr, "Output write error: %s\n", strerror(errno));
+		exit (1);
+	}
+
 	FREE_OBJ(gp);
 	GetJob_Delete(&gj);
 	return (0);
-- 
2.43.0


From 9232e448caad9d9fb814d84b8c7b8831334694f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 05/66] fix: store: accept a forced identifier (-i) with the
 prefix

The check accepted it, but the prefix became part of the record ID, and
the store aborted, leaving its hold file behind.
---
 main_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_store.c b/main_store.c
index 79236b7..0d8c5f0 100644
--- a/main_store.c
+++ b/main_store.c
@@ -179,7 +179,7 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			exit(1);
 		}
 		if (i_arg != NULL) {
-			e = IDX_Valid_Id(aa, i_arg, NULL);
+			e = IDX_Valid_Id(aa, i_arg, &i_arg);
 			if (e != NULL) {
 				fprintf(stderr, "Illegal id (-i): %s\n", e);
 				exit(1);
-- 
2.43.0


From 544a97b38d334a3a445fc3f57be4d2b1d41de773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 06/66] fix: store: do not store a truncated object when
 reading the input fails

---
 aardwarc.h   |  1 +
 main_store.c |  6 ++++++
 segjob.c     | 11 +++++++++++
 3 files changed, 18 insertions(+)

diff --git a/aardwarc.h b/aardwarc.h
index 2413f47..64ac932 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -193,6 +193,7 @@ struct segjob *SegJob_New(struct aardwarc *, const struct header *,
     const char *);
 void SegJob_Feed(struct segjob *, const void *ptr, ssize_t len);
 char *SegJob_Commit(struct segjob *);
+void SegJob_Abandon(struct segjob **);
 
 /* silo.c */
 struct vsb *Silo_Filename(const struct aardwarc *, unsigned number, int hold);
diff --git a/main_store.c b/main_store.c
index 0d8c5f0..74051d5 100644
--- a/main_store.c
+++ b/main_store.c
@@ -268,6 +268,12 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			SegJob_Feed(sj, ibuf_ptr, rlen);
 	} while (rlen > 0);
 
+	if (rlen < 0) {
+		fprintf(stderr, "Input file read error: %s\n", strerror(errno));
+		SegJob_Abandon(&sj);
+		exit(1);
+	}
+
 	id = SegJob_Commit(sj);
 	printf("%s\n", id);
 
diff --git a/segjob.c b/segjob.c
index 8679770..4b84430 100644
--- a/segjob.c
+++ b/segjob.c
@@ -323,6 +323,17 @@ SegJob_Feed(struct segjob *sj, const void *iptr, ssize_t ilen)
 	} while (sj->gz->avail_in > 0 || ilen > 0);
 }
 
+void
+SegJob_Abandon(struct segjob **sjp)
+{
+	struct segjob *sj;
+
+	TAKE_OBJ_NOTNULL(sj, sjp, SEGJOB_MAGIC);
+	if (sj->cur_seg != NULL)
+		(void)deflateEnd(sj->gz);
+	segjob_destroy(sj);
+}
+
 char *
 SegJob_Commit(struct segjob *sj)
 {
-- 
2.43.0


From bf7aa924a7fc96e52719986720b7109b5e18dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 07/66] fix: audit: find the segments of an object in any
 order, and give up on missing ones

The loop over the pending segments ran once if it made progress and
forever if it did not, so segments found in descending order were
reported missing, and auditing a part of the silos never finished.
Also go on with the other segmented objects after a missing segment.
---
 main_audit.c | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index b8c5e22..9bc8bde 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -179,7 +179,7 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 static int
 audit_one_pending(struct aardwarc *aa, struct vsb *err)
 {
-	struct audit *ap0, *ap1, *ap, *apn, *aps;
+	struct audit *ap0, *ap, *apn;
 	const char *origin, *oid, *p;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
@@ -199,9 +199,8 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 
 	oid = Header_Get_Id(ap0->hdr);
 	ap = ap0;
-	do {
-		ap1 = ap;
-		VTAILQ_FOREACH_SAFE(apn, &segment_list, list, aps) {
+	while (1) {
+		VTAILQ_FOREACH(apn, &segment_list, list) {
 			CHECK_OBJ_NOTNULL(apn, AUDIT_MAGIC);
 			if (apn->segment != ap->segment + 1)
 				continue;
@@ -218,27 +217,30 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 			origin += strlen(oid);
 			if (*origin++ != '>')
 				continue;
-			audit_add_one_segment(aa, ap0, apn);
-			VTAILQ_REMOVE(&segment_list, apn, list);
-			p = Header_Get(apn->hdr, "WARC-Segment-Total-Length");
-			if (p != NULL) {
-				VSB_clear(err);
-				audit_final_pending(aa, err, ap0, apn);
-				AZ(VSB_finish(err));
-				if (VSB_len(err)) {
-					printf("%s", VSB_data(err));
-					audit_report(NULL, ap);
-					return (-1);
-				} else {
-					return (1);
-				}
+			break;
+		}
+		if (apn == NULL)
+			break;
+		audit_add_one_segment(aa, ap0, apn);
+		VTAILQ_REMOVE(&segment_list, apn, list);
+		p = Header_Get(apn->hdr, "WARC-Segment-Total-Length");
+		if (p != NULL) {
+			VSB_clear(err);
+			audit_final_pending(aa, err, ap0, apn);
+			AZ(VSB_finish(err));
+			if (VSB_len(err)) {
+				printf("%s", VSB_data(err));
+				audit_report(NULL, ap);
+				return (-1);
+			} else {
+				return (1);
 			}
-			ap = apn;
 		}
-	} while (ap == ap1);
+		ap = apn;
+	}
 
 	printf("ERROR: Failed to find segment %d\n", ap->segment + 1);
-	return (0);
+	return (-1);
 }
 
 static void
-- 
2.43.0


From 2585a091ed894495c1d038a18e3fcadedc4ecb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 08/66] fix: audit: honour -i ignore-metadata-record-id for
 segmented metadata

---
 main_audit.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 9bc8bde..e901f1e 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -159,8 +159,7 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 	char buf[64];
 	char dig[SHA256_DIGEST_STRING_LENGTH];
 	char id[SHA256_DIGEST_STRING_LENGTH];
-
-	(void)aa;
+	const char *p;
 
 	bprintf(buf, "%jd", (intmax_t)ap0->sz);
 	audit_check_header(err, apn, "WARC-Segment-Total-Length", buf);
@@ -168,6 +167,11 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 	(void)SHA256_End(ap0->sha256, dig);
 	audit_check_digest_header(err, ap0, "WARC-Payload-Digest", dig);
 
+	p = Header_Get(ap0->hdr, "WARC-Type");
+	AN(p);
+	if (!strcmp(p, "metadata") && ignore_metadata_record_id)
+		return;
+
 	Ident_Create(aa, ap0->hdr, dig, id);
 	if (strcmp(id, Header_Get_Id(ap0->hdr))) {
 		VSB_printf(err, "ERROR: %s difference\n", "WARC-Record-ID");
-- 
2.43.0


From 51bd795aff3b7664248f8abe0a6d6acf6d1ec507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 09/66] fix: audit: do not stop at the first unused silo number

Silo numbers can be unused because somebody held them (or died holding
them) when the following silo was created.
---
 main_audit.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index e901f1e..8fec091 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -381,6 +381,16 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	return (0);
 }
 
+static int v_matchproto_(byte_iter_f)
+audit_silo_iter(void *priv, const void *fn, ssize_t silono)
+{
+	struct aardwarc *aa;
+
+	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
+	(void)fn;
+	return (audit_silo(aa, NULL, (int)silono));
+}
+
 static
 void
 usage_audit(const char *a0, const char *a00, const char *err)
@@ -398,7 +408,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch, i;
+	int ch;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -425,9 +435,7 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		i = 0;
-		while (!audit_silo(aa, NULL, i++))
-			continue;
+		(void)Silo_Iter(aa, audit_silo_iter, aa);
 	} else {
 		while (argc-- > 0)
 			if (audit_silo(aa, *argv++, -1))
-- 
2.43.0


From 801559b2d4dcc661d25330d6c25648723942725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 10/66] fix: rebuild: do not write outside buffers, and close
 the input silo

A full output buffer was NUL-terminated one past its end, and the body
of a record to fix up was copied without checking that it fits.
---
 main_rebuild.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 2feeef0..3e26f15 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -103,6 +103,8 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 
 			q = Header_Get(rb->h, "WARC-record-digest");
 			if (q != NULL) {
+				xxxassert(rb->clen >= 0 && rb->clen <=
+				    (intmax_t)sizeof rb->fixbuf);
 				rb->state = 3;
 				rb->rlen = 0;
 				SHA256_Init(rb->sha256);
@@ -276,7 +278,6 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 		}
 		i = inflate(zs, 0);
 		oz = sizeof obuf - zs->avail_out;
-		obuf[oz] = '\0';
 		rebuild_process(rb, obuf, oz);
 		if (i == Z_STREAM_END) {
 			assert(inflateEnd(zs) == Z_OK);
@@ -285,6 +286,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 		}
 	} while (i == Z_OK);
 
+	AZ(fclose(fi));
 	AZ(close(rb->fdo));
 
 	return(0);
-- 
2.43.0


From 5c25d7d604e0bc26844e50c144e2e2f98c3babcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 11/66] fix: install a new silo before putting its records in
 the index

A crash between the two left index entries for a silo which did not
exist, and any later get or store of that ID aborted on it.
---
 wsilo.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 534f1c6..ccdc58b 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -461,16 +461,16 @@ silo_attempt_append(const struct wsilo *sl, uint32_t silono,
 
 /* Commit a silo ------------------------------------------------------*/
 
-void
-Wsilo_Install(struct wsilo **slp)
+static void
+wsilo_link(const struct wsilo *sl)
 {
-	struct wsilo *sl;
 
-	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
+	CHECK_OBJ_NOTNULL(sl, WSILO_MAGIC);
 
-	IDX_Insert(sl->aa,
-	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	/*
+	 * This must happen before anything in the silo is put in the index,
+	 * so that the index never points to a silo which does not exist.
+	 *
 	 * We don't use rename(2) because it wouldn't fail if the
 	 * destination silo already exists.
 	 */
@@ -479,6 +479,18 @@ Wsilo_Install(struct wsilo **slp)
 		sl->aa->cache_first_non_silo++;
 		AardWARC_WriteCache(sl->aa);
 	}
+}
+
+void
+Wsilo_Install(struct wsilo **slp)
+{
+	struct wsilo *sl;
+
+	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
+
+	wsilo_link(sl);
+	IDX_Insert(sl->aa,
+	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	wsilo_delete(sl);
 }
 
@@ -561,8 +573,11 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 		if (rid == NULL)
 			sl->idx |= IDX_F_LASTSEG;
 	}
+	wsilo_link(sl);
 	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);
-	Wsilo_Install(&sl);
+	IDX_Insert(aa,
+	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
+	wsilo_delete(sl);
 }
 
 void
-- 
2.43.0


From f5ac8406be9c335ce6d8e3cc7e53c35899465ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 12/66] fix: commit the first segment of an object last

If a crash left the first segment but not all the others, storing the
same object again could succeed without making it retrievable, because
the lookup would find the old first segment, and the new segments need
not have the same boundaries (they depend on how the input is read).
---
 segjob.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/segjob.c b/segjob.c
index 4b84430..f4096b2 100644
--- a/segjob.c
+++ b/segjob.c
@@ -67,7 +67,7 @@ struct segjob {
 	const char		*ident;
 
 	int			nseg;
-	VTAILQ_HEAD(,segment)	segments;
+	VTAILQ_HEAD(seghead,segment)	segments;
 	struct segment		*cur_seg;
 	struct SHA256Context	sha256_payload[1];
 	struct SHA256Context	sha256_segment[1];
@@ -378,7 +378,12 @@ SegJob_Commit(struct segjob *sj)
 		return (id);
 	}
 
-	VTAILQ_FOREACH(sg, &sj->segments, list) {
+	/*
+	 * Commit the first segment last: Until it is there nobody goes looking
+	 * for the others, so if we crash half way through, storing the object
+	 * again does not run into a first segment without successors.
+	 */
+	VTAILQ_FOREACH_REVERSE(sg, &sj->segments, seghead, list) {
 		if (sg->segno == 1)
 			Header_Set(sg->hdr, "WARC-Segment-Number", "1");
 		else
-- 
2.43.0


From 786b08656255b7afb1106830a08997af6b850c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 13/66] fix: check that a silo does not exist after getting the
 hold on it

Somebody else can install the silo, and let go of his hold, between our
check for the silo and our creation of the hold.  We would then abort
when it was time to install our version of the silo.
---
 wsilo.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wsilo.c b/wsilo.c
index ccdc58b..2834053 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -167,6 +167,15 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 		exit(2);
 	}
 
+	if (!stat(VSB_data(vsb), &st)) {
+		/* Somebody installed it before we got our hold */
+		AZ(close(fd));
+		AZ(unlink(VSB_data(vsb2)));
+		VSB_delete(vsb);
+		VSB_delete(vsb2);
+		return (NULL);
+	}
+
 	ALLOC_OBJ(sl, WSILO_MAGIC);
 	if (sl == NULL)
 		return (NULL);
-- 
2.43.0


From ced0a6bad74754f537c0ca0da066d9dd7f5ae90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 14/66] fix: store: fail when the directory for a silo cannot
 be created

The store tried one silo number after the other forever.
Somebody else creating the directory at the same time is not an error.
---
 wsilo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 2834053..9c30db2 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -99,7 +99,7 @@ silo_mkparentdir(const char *path)
 		if (i < 0)
 			return (i);
 		i = mkdir(p, 0755);
-		if (i < 0)
+		if (i < 0 && errno != EEXIST)
 			return (i);
 		i = stat(p, &st);
 	}
@@ -138,7 +138,7 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 	if (j) {
 		fprintf(stderr, "MKDIR %d %d %s\n",
 		    j, errno, strerror(errno));
-		return (NULL);
+		exit(2);
 	}
 
 	if (!stat(VSB_data(vsb2), &st)) {
-- 
2.43.0


From 0eac482307d043604773962a61bddd4942687144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 15/66] fix: create a relative silo.directory which does not
 exist

The recursion did not stop at the first component of a relative path.
---
 wsilo.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 9c30db2..cc6b04c 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -89,10 +89,11 @@ silo_mkparentdir(const char *path)
 	p = strdup(path);
 	AN(p);
 	q = strrchr(p, '/');
-	if (q == p)
+	if (q == NULL || q == p) {
+		free(p);
 		return (0);
-	if (q != NULL)
-		*q = '\0';
+	}
+	*q = '\0';
 	i = stat(p, &st);
 	if (i < 0 && errno == ENOENT) {
 		i = silo_mkparentdir(p);
-- 
2.43.0


From 2f69c0d2507d757128973e3907308753da45c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 16/66] fix: housekeeping: do not lose index records being
 appended

A record written to the appendix after housekeeping had read it, by a
process which opened it before housekeeping renamed it, was lost.
---
 index.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/index.c b/index.c
index 71a1e23..ab7dd2b 100644
--- a/index.c
+++ b/index.c
@@ -136,6 +136,8 @@
 #include <stdlib.h>
 
 #include <sys/endian.h>
+#include <sys/file.h>
+#include <sys/stat.h>
 
 #include "vdef.h"
 
@@ -221,6 +223,30 @@ idx_key_bin(uint8_t *dst, const char *key, int keylen)
 	}
 }
 
+/*
+ * Housekeeping renames the appendix and waits for everybody who has a lock
+ * on it before it reads it, so if we have the lock, and the file still is
+ * the appendix, what we append will not be lost.
+ */
+
+static int
+idx_open_appendix(const char *fn)
+{
+	struct stat st1, st2;
+	int fd;
+
+	while (1) {
+		fd = open(fn, O_WRONLY | O_CREAT | O_APPEND, 0644);
+		assert(fd >= 0);
+		AZ(flock(fd, LOCK_SH));
+		AZ(fstat(fd, &st1));
+		if (!stat(fn, &st2) &&
+		    st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino)
+			return (fd);
+		AZ(close(fd));
+	}
+}
+
 void
 IDX_Insert(const struct aardwarc *aa, const char *key, uint32_t flags,
 uint32_t silo, uint64_t offset, const char *cont)
@@ -239,9 +265,8 @@ uint32_t silo, uint64_t offset, const char *cont)
 	if (cont != NULL)
 		idx_key_bin(rec + 28, cont, 4);
 
-	vsb = idx_filename(aa, "appendix");
-	fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
-	assert(fd >= 0);
+	vsb = idx_filename(aa, SUFF_APPENDIX);
+	fd = idx_open_appendix(VSB_data(vsb));
 	i = write(fd, rec, sizeof rec);
 	assert(i == (int)sizeof rec);
 	assert(close(fd) == 0);
@@ -593,6 +618,9 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		return (-1);
 	}
 
+	/* Wait for those who are about to write to what was the appendix */
+	AZ(flock(fd, LOCK_EX));
+
 	do {
 		sz = read(fd, spc, aa->index_sort_size);
 		if (sz < 0) {
-- 
2.43.0


From b15b98f03c06bd779be3a4c8416aa4d58f1d5177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 17/66] fix: look in the index files in the order records move
 between them

A reader which had finished with the sorted file before housekeeping
replaced it, and got to the appendix after housekeeping had taken it,
did not find records which had been in the index all the time.
---
 index.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index ab7dd2b..2d4b4f6 100644
--- a/index.c
+++ b/index.c
@@ -419,9 +419,13 @@ static const struct idxfiles {
 	const char	*suff;
 	int		sorted;
 } idxfiles[] = {
-	{ SUFF_SORTED,		1 },
+	/*
+	 * Records move down this list during housekeeping, so looking in
+	 * this order, we see them no matter when that happens.
+	 */
 	{ SUFF_APPENDIX,	0 },
 	{ SUFF_HOUSEKEEP,	0 },
+	{ SUFF_SORTED,		1 },
 	{ NULL, 0}
 };
 
-- 
2.43.0


From 95c21bde79b23dbcd3eac7069192ad8a225f45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 18/66] fix: do not leave half a record in a silo when
 appending fails

Truncate the silo to what it was, and go on looking for a place for the
record.  If there is none, the hold becomes a silo of its own.
---
 wsilo.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index cc6b04c..2d70aff 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -441,11 +441,19 @@ silo_attempt_append(const struct wsilo *sl, uint32_t silono,
 		before = lseek(fds, 0, SEEK_END);
 		s = writev(fds, iov, 2);
 		after = lseek(fds, 0, SEEK_END);
-		assert(s >= 0);
-		assert((size_t)s == wlen);
-		assert((off_t)s == (after - before));
 
 		AZ(munmap(p, roundup(sl->hold_len, ps)));
+
+		if (s < 0 || (size_t)s != wlen) {
+			/*
+			 * Most likely out of space, do not leave half a record
+			 * behind.  The hold is already written.
+			 */
+			AZ(ftruncate(fds, before));
+			break;
+		}
+		assert((off_t)s == (after - before));
+
 		// fprintf(stderr, "DEBUG: Wsilo_Append(%u) %ju\n", silono, need);
 
 		need = lseek(fds, 0, SEEK_CUR);
-- 
2.43.0


From b2b75bfde71cc530e994b94d925d485ef8bf547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 19/66] fix: do not leave half a record in the index when
 appending fails

---
 index.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 2d4b4f6..764148d 100644
--- a/index.c
+++ b/index.c
@@ -238,7 +238,7 @@ idx_open_appendix(const char *fn)
 	while (1) {
 		fd = open(fn, O_WRONLY | O_CREAT | O_APPEND, 0644);
 		assert(fd >= 0);
-		AZ(flock(fd, LOCK_SH));
+		AZ(flock(fd, LOCK_EX));
 		AZ(fstat(fd, &st1));
 		if (!stat(fn, &st2) &&
 		    st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino)
@@ -253,6 +253,7 @@ uint32_t silo, uint64_t offset, const char *cont)
 {
 	uint8_t rec[32];
 	int fd, i;
+	struct stat st;
 	struct vsb *vsb;
 
 	assert(aa->id_size >= 16);
@@ -267,7 +268,12 @@ uint32_t silo, uint64_t offset, const char *cont)
 
 	vsb = idx_filename(aa, SUFF_APPENDIX);
 	fd = idx_open_appendix(VSB_data(vsb));
+	AZ(fstat(fd, &st));
 	i = write(fd, rec, sizeof rec);
+	if (i > 0 && i != (int)sizeof rec) {
+		/* A partial record would make the index unreadable */
+		AZ(ftruncate(fd, st.st_size));
+	}
 	assert(i == (int)sizeof rec);
 	assert(close(fd) == 0);
 	VSB_delete(vsb);
-- 
2.43.0


From 928cd63517d940a972375e5d8b87c6d112a54108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 20/66] fix: reindex: find the silo number of silos given as
 arguments

The number was only found if silo.basename starts with it in decimal,
otherwise the records were put in the index for the wrong silo.
Also accept filenames without a directory.
---
 main_reindex.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 2d0049e..8233c85 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -212,6 +212,7 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 	off_t off, segno;
 	intmax_t im;
 	uint32_t flg;
+	unsigned u;
 	const char *p, *wt;
 
 	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
@@ -222,9 +223,15 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 
 	if (silono < 0) {
 		p = strrchr(fn, '/');
-		AN(p);
-		p++;
-		silono = (ssize_t)strtoul(p, NULL, 10);
+		if (p == NULL)
+			p = fn;
+		else
+			p++;
+		/* The number is not always at the start of silo.basename */
+		if (sscanf(p, aa->silo_basename, &u) == 1)
+			silono = (ssize_t)u;
+		else
+			silono = (ssize_t)strtoul(p, NULL, 10);
 	}
 
 	while (1) {
-- 
2.43.0


From 76dba54df07bcbadbb8ad7b07dfb99e62d28d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 21/66] fix: dumpindex: reject arguments which are not
 hexadecimal

They ran into an assert.
---
 main_dumpindex.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/main_dumpindex.c b/main_dumpindex.c
index 77fcb25..0488144 100644
--- a/main_dumpindex.c
+++ b/main_dumpindex.c
@@ -101,7 +101,13 @@ main_dumpindex(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	if (argc == 0)
 		(void)IDX_Iter(aa, NULL, dumpindex_iter, &u);
 	else
-		for (;argc > 0; argc--, argv++)
+		for (;argc > 0; argc--, argv++) {
+			if (strspn(*argv, "0123456789abcdefABCDEF") !=
+			    strlen(*argv)) {
+				fprintf(stderr, "Invalid ID-fragment\n");
+				exit(1);
+			}
 			(void)IDX_Iter(aa, *argv, dumpindex_iter, &u);
+		}
 	return (0);
 }
-- 
2.43.0


From a0c8d78d2370f383950a1143c00f8f9a75db94b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 22/66] fix: dumpindex: -t also matches the first segment of
 segmented objects

---
 main_dumpindex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_dumpindex.c b/main_dumpindex.c
index 0488144..6a8798d 100644
--- a/main_dumpindex.c
+++ b/main_dumpindex.c
@@ -57,7 +57,7 @@ dumpindex_iter(void *priv, const char *key,
 	uint32_t *u;
 
 	u = priv;
-	if (*u != 0 && flag != *u)
+	if (*u != 0 && !(flag & *u))
 		return (0);
 	printf("%s 0x%08x %8u %12jd %s\n", key, flag, silo, offset, cont);
 	return(0);
-- 
2.43.0


From 088907dd845052a651e20f7a9d02729f0a2d3c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 23/66] fix: stevedore: only the end of a store may resume
 input

Finishing metadata also did so, which aborted the stevedore if the input
was already closed, and broke the ordering if a store was in progress.
---
 main_stevedore.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 1f8f30f..4c8f6e3 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -276,7 +276,6 @@ meta_line(void *priv, const char *line)
 
 	CAST_OBJ_NOTNULL(jp, priv, JOB_MAGIC);
 	proto_out(1, PROTO_META, line, strlen(line));
-	proto_ctl_ev(stdin_ev, 1);
 	return (0);
 }
 
-- 
2.43.0


From ce09c3fb768332b5d597ad6a3adffea3e8011e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 24/66] fix: do not take the bucket table of the sorted index
 for records

The predicted record number does not include the bucket table, so when the
first record of the index is in bucket one or later, we could seek into the
table, or even to a negative offset.  Depending on the key that made lookups
miss existing records or abort.
---
 index.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/index.c b/index.c
index 764148d..46424ba 100644
--- a/index.c
+++ b/index.c
@@ -389,7 +389,7 @@ bucket_seek(const void *rec, FILE *f)
 	uint64_t id;
 	unsigned nbucket;
 	unsigned nrec;
-	int64_t off;
+	int64_t off, first;
 
 	AN(rec);
 	AN(f);
@@ -409,8 +409,12 @@ bucket_seek(const void *rec, FILE *f)
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
 		assert(1 == fread(buf, sizeof buf, 1, f));
 		off = (int64_t)be64dec(buf);
-		frac += off;
-		AZ(fseeko(f, (long)frac * 32, SEEK_SET));
+		off += (int64_t)frac;
+		/* The offsets do not take the space of the buckets into account */
+		first = (1L << (nbucket + 3)) / 32;
+		if (off < first)
+			off = first;
+		AZ(fseeko(f, (off_t)off * 32, SEEK_SET));
 	} else {
 		AZ(fseeko(f, 1L << (nbucket + 3), SEEK_SET));
 	}
-- 
2.43.0


From 9e56cb6e380dc08668b65874fbc3fcd9804b3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 25/66] fix: partial lookups in the sorted index which start in
 an empty bucket

---
 index.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/index.c b/index.c
index 46424ba..5e06f9c 100644
--- a/index.c
+++ b/index.c
@@ -282,6 +282,7 @@ uint32_t silo, uint64_t offset, const char *cont)
 /**********************************************************************/
 
 #define INDEX_ID	0x4161L
+#define BUCKET_EMPTY	(1LL << 31)
 
 struct bucket {
 	unsigned		magic;
@@ -334,7 +335,7 @@ bucket_new(off_t nrec_estimate)
 
 	bp->buckets = calloc(sizeof *bp->buckets, bp->nbucket);
 	for (u = 0; u < bp->nbucket; u++)
-		bp->buckets[u] = 1ULL << 31;
+		bp->buckets[u] = BUCKET_EMPTY;
 	AN(bp->buckets);
 
 	return (bp);
@@ -404,11 +405,17 @@ bucket_seek(const void *rec, FILE *f)
 	bucket = (long)(frac >> (64 - nbucket));
 	if (bucket > 0) {
 		frac >>= 40;	// top 24 bits
-		frac *= nrec;	// full 64 bit fraction
-		frac >>= 24;	// predicted record number
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
 		assert(1 == fread(buf, sizeof buf, 1, f));
 		off = (int64_t)be64dec(buf);
+		while (off == BUCKET_EMPTY && ++bucket < (1L << nbucket)) {
+			/* A partial key can also match in the next bucket */
+			frac = ((uint64_t)bucket << 24) >> nbucket;
+			assert(1 == fread(buf, sizeof buf, 1, f));
+			off = (int64_t)be64dec(buf);
+		}
+		frac *= nrec;	// full 64 bit fraction
+		frac >>= 24;	// predicted record number
 		off += (int64_t)frac;
 		/* The offsets do not take the space of the buckets into account */
 		first = (1L << (nbucket + 3)) / 32;
-- 
2.43.0


From 5b0f55b7b16979eb1da65be00914ab201fb63f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 26/66] fix: housekeeping also removes duplicates within the
 appendix

---
 index.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 5e06f9c..b708992 100644
--- a/index.c
+++ b/index.c
@@ -602,6 +602,23 @@ idx_cmp(const void *p1, const void *p2)
 	return (memcmp(p1, p2, 32));
 }
 
+/* Remove duplicate records from sorted array */
+
+static ssize_t
+idx_uniq(uint8_t *ptr, ssize_t len)
+{
+	ssize_t i, n = 0;
+
+	for (i = 0; i < len; i += 32) {
+		if (n > 0 && !memcmp(ptr + n - 32, ptr + i, 32))
+			continue;
+		if (n != i)
+			memcpy(ptr + n, ptr + i, 32);
+		n += 32;
+	}
+	return (n);
+}
+
 static int
 idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
     const struct vsb *vsba, const struct vsb *vsbh)
@@ -655,7 +672,7 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 			break;
 		AZ(sz & 0x1f);
 		qsort(spc, ((size_t)sz) >> 5, 32, idx_cmp);
-		idx_merge(aa, spc, sz);
+		idx_merge(aa, spc, idx_uniq(spc, sz));
 	} while (sz == (ssize_t)aa->index_sort_size);
 	AZ(close(fd));
 	AZ(unlink(VSB_data(vsbh)));
-- 
2.43.0


From 563f8be3ce6123006dcf912bd0f27f64a317a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 27/66] fix: reindex: silo numbers with more digits than the
 width in silo.basename

To printf(3) the width is a minimum, to scanf(3) it is a maximum, so with
for instance 'a%03u' silo 1000000 given as argument was indexed as 100.
---
 main_reindex.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 8233c85..f77379f 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -41,6 +41,7 @@
 
 #include "vas.h"
 #include "miniobj.h"
+#include "vsb.h"
 
 #include "aardwarc.h"
 
@@ -203,6 +204,37 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 		try_seg(aa, seg2);
 }
 
+/*
+ * Find the number of a silo from its filename.
+ *
+ * To printf(3) a field width is a minimum, to scanf(3) it is a maximum,
+ * so it is left out of the pattern.
+ */
+static ssize_t
+silo_number(const struct aardwarc *aa, const char *fn)
+{
+	struct vsb *vsb;
+	const char *p;
+	unsigned u;
+	int i;
+
+	vsb = VSB_new_auto();
+	AN(vsb);
+	for (p = aa->silo_basename; *p != '\0'; p++) {
+		VSB_putc(vsb, *p);
+		if (*p != '%')
+			continue;
+		p += 1 + strspn(p + 1, " #+-.0123456789");
+		VSB_putc(vsb, *p);
+	}
+	AZ(VSB_finish(vsb));
+	i = sscanf(fn, VSB_data(vsb), &u);
+	VSB_delete(vsb);
+	if (i == 1)
+		return ((ssize_t)u);
+	return ((ssize_t)strtoul(fn, NULL, 10));
+}
+
 static int v_matchproto_(byte_iter_f)
 silo_iter(void *priv, const void *fn, ssize_t silono)
 {
@@ -212,7 +244,6 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 	off_t off, segno;
 	intmax_t im;
 	uint32_t flg;
-	unsigned u;
 	const char *p, *wt;
 
 	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
@@ -227,11 +258,7 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 			p = fn;
 		else
 			p++;
-		/* The number is not always at the start of silo.basename */
-		if (sscanf(p, aa->silo_basename, &u) == 1)
-			silono = (ssize_t)u;
-		else
-			silono = (ssize_t)strtoul(p, NULL, 10);
+		silono = silo_number(aa, p);
 	}
 
 	while (1) {
-- 
2.43.0


From 7f58835b1ae4cd2806617c7ec0a1d44a9877452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 28/66] fix: housekeeping: merge a snapshot left behind when
 there is no appendix

Otherwise it stays unsorted until something is stored.
---
 index.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index b708992..50c2f5c 100644
--- a/index.c
+++ b/index.c
@@ -631,9 +631,12 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 	i = link(VSB_data(vsba), VSB_data(vsbh));
 	if (i == 0) {
 		AZ(unlink(VSB_data(vsba)));
-	} else if (errno == ENOENT) {
+	} else if (errno == ENOENT && access(VSB_data(vsbh), F_OK)) {
 		fprintf(stderr, "No appendix to housekeep\n");
 		return (0);
+	} else if (errno == ENOENT) {
+		fprintf(stderr,
+		    "Found existing housekeeping snapshot\n");
 	} else if (errno == EEXIST) {
 		fprintf(stderr,
 		    "Found existing housekeeping snapshot\n");
-- 
2.43.0


From 73c5388a936261f7f2bd45db3c08aa5e4efee7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 29/66] fix: audit, rebuild, reindex: fail when a silo cannot
 be opened

audit and rebuild exited successfully without having looked at the silos,
and Silo_Iter() did not return what its function returned, so an error
in the middle of a reindex went unnoticed.  Errors other than ENOENT from
stat(2) of a directory made it go on for all 2^32 silo numbers.
---
 main_audit.c   | 15 ++++++++++-----
 main_rebuild.c |  2 +-
 main_reindex.c |  6 +++++-
 silo.c         | 27 +++++++++++++++++++++------
 4 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 8fec091..5ef3e27 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -323,8 +324,11 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 
 	rs = Rsilo_Open(aa, fn, nsilo, 0);
-	if (rs == NULL)
+	if (rs == NULL) {
+		fprintf(stderr, "Cannot open silo %s #%d: %s\n",
+		    fn == NULL ? "" : fn, nsilo, strerror(errno));
 		return (-1);
+	}
 	printf("Audit silo %s #%d\n", fn, nsilo);
 
 	vsberr = VSB_new_auto();
@@ -408,7 +412,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch;
+	int ch, retval = 0;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -435,11 +439,12 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		(void)Silo_Iter(aa, audit_silo_iter, aa);
+		if (Silo_Iter(aa, audit_silo_iter, aa))
+			retval = 1;
 	} else {
 		while (argc-- > 0)
 			if (audit_silo(aa, *argv++, -1))
-				break;
+				retval = 1;
 	}
 
 	err = VSB_new_auto();
@@ -452,5 +457,5 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	}
 	VSB_destroy(&err);
 
-	return (0);
+	return (retval);
 }
diff --git a/main_rebuild.c b/main_rebuild.c
index 3e26f15..25b6175 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -251,7 +251,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	if (fi == NULL) {
 		fprintf(stderr,
 		    "Cannot open %s: %s\n", (const char*)fn, strerror(errno));
-		return (0);
+		return (1);
 	}
 	fprintf(stderr, "SILO NO %zd FN %s\n", silono, (const char *)fn);
 	VSB_clear(rb->vsb);
diff --git a/main_reindex.c b/main_reindex.c
index f77379f..33ad35a 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -32,6 +32,7 @@
  *	Handle duplicates (reindex2)
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -249,8 +250,11 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
 
 	rs = Rsilo_Open(aa, fn, silono, 0);
-	if (rs == NULL)
+	if (rs == NULL) {
+		fprintf(stderr, "Cannot open silo %s: %s\n",
+		    (const char *)fn, strerror(errno));
 		return (-1);
+	}
 
 	if (silono < 0) {
 		p = strrchr(fn, '/');
diff --git a/silo.c b/silo.c
index a99e7b1..1e8759b 100644
--- a/silo.c
+++ b/silo.c
@@ -28,6 +28,8 @@
  */
 
 #include <errno.h>
+#include <stdio.h>
+#include <string.h>
 #include <sys/stat.h>
 
 #include "vdef.h"
@@ -100,14 +102,27 @@ Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 		numpart(vsb, 0, u);
 		AZ(VSB_finish(vsb));
 		i = stat(VSB_data(vsb), &st);
-		if (i && errno == ENOENT)
+		if (i && errno == ENOENT) {
+			VSB_delete(vsb);
 			break;
-		VSB_delete(vsb);
-		vsb = Silo_Filename(aa, u, 0);
-		i = stat(VSB_data(vsb), &st);
-		if (!i && S_ISREG(st.st_mode))
+		}
+		if (!i) {
+			VSB_delete(vsb);
+			vsb = Silo_Filename(aa, u, 0);
+			i = stat(VSB_data(vsb), &st);
+			if (i && errno == ENOENT) {
+				VSB_delete(vsb);
+				continue;
+			}
+		}
+		if (i) {
+			fprintf(stderr, "Cannot stat %s: %s\n",
+			    VSB_data(vsb), strerror(errno));
+			retval = -1;
+		} else if (S_ISREG(st.st_mode)) {
 			retval = func(priv, VSB_data(vsb), u);
+		}
 		VSB_delete(vsb);
 	}
-	return (0);
+	return (retval);
 }
-- 
2.43.0


From 3bbef927388f510e0a9aaf8bb20304b60f74fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 30/66] fix: cgi: do not send gzip to clients which say they do
 not accept it

---
 main_cgi.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/main_cgi.c b/main_cgi.c
index 43155ac..8561e09 100644
--- a/main_cgi.c
+++ b/main_cgi.c
@@ -59,6 +59,35 @@ get_iter(void *priv, const void *ptr, ssize_t len)
 	return (0);
 }
 
+/*
+ * Is gzip among the codings the client accepts, "gzip;q=0" says it is not.
+ */
+
+static int
+accept_gzip(const char *p)
+{
+	const char *e;
+
+	for (; *p != '\0'; p = e) {
+		p += strspn(p, ", \t");
+		e = p + strcspn(p, ",");
+		if (!strncasecmp(p, "x-", 2))
+			p += 2;
+		if (strncasecmp(p, "gzip", 4))
+			continue;
+		p += 4;
+		p += strspn(p, " \t");
+		if (p == e)
+			return (1);
+		if (*p++ != ';')
+			continue;
+		p += strspn(p, " \t");
+		if (strncasecmp(p, "q=", 2) || strtod(p + 2, NULL) > 0.)
+			return (1);
+	}
+	return (0);
+}
+
 int v_matchproto_(main_f)
 main_cgi(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
@@ -112,7 +141,7 @@ main_cgi(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	}
 
 	p = getenv("HTTP_ACCEPT_ENCODING");
-	if (p != NULL && strstr(p, "gzip"))
+	if (p != NULL && accept_gzip(p))
 		gzip = 1;
 
 	if (*id == '/')
-- 
2.43.0


From fea52718988063c8e27f98ec803994d7484e0141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 31/66] fix: store: refuse mime-types which do not fit in a
 header

Control characters, line ends in particular, and thousands of characters
gave records which were acknowledged but could not be read again.
---
 main_store.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/main_store.c b/main_store.c
index 74051d5..8080ab2 100644
--- a/main_store.c
+++ b/main_store.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <ctype.h>
 #include <errno.h>
 #include <fcntl.h>
 #include <stdio.h>
@@ -60,6 +61,16 @@ mime_type(struct aardwarc *aa, const char *wt, const char *mt)
 	int i;
 	const char *p, *g;
 
+	/* It goes into a WARC header, which must fit one page */
+	for (p = mt; *p != '\0'; p++)
+		if (iscntrl((unsigned char)*p))
+			break;
+	if (*p != '\0' || p - mt > 512) {
+		fprintf(stderr, "Illegal mime-type: %s\n", *p == '\0' ?
+		    "too long" : "control character");
+		return (-1);
+	}
+
 	if (wt == WT_RESOURCE)
 		g = "resource.mime-types";
 	else
-- 
2.43.0


From a945960bb110c6f314cc4359dbbe2fa6f5535b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 32/66] fix: audit: refuse unknown -i arguments

---
 main_audit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main_audit.c b/main_audit.c
index 5ef3e27..f622734 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -427,8 +427,10 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		case 'i':
 			if (!strcmp(optarg, "ignore-metadata-record-id"))
 				ignore_metadata_record_id = 1;
-			else
+			else {
 				usage_audit(a0, a00, "Unknown -i argument.");
+				exit(1);
+			}
 			break;
 		default:
 			usage_audit(a0, a00, "Unknown option error.");
-- 
2.43.0


From 7e335e87a72e83fff65b270f71190c580d9ac9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 33/66] fix: mksilo: refuse arguments which are not a silo
 number

---
 main_mksilo.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/main_mksilo.c b/main_mksilo.c
index 30bddeb..b8c870f 100644
--- a/main_mksilo.c
+++ b/main_mksilo.c
@@ -27,7 +27,10 @@
  *
  */
 
+#include <ctype.h>
+#include <errno.h>
 #include <fcntl.h>
+#include <inttypes.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -53,7 +56,8 @@ main_mksilo(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
 	int ch, retval = 0;
 	const char *a00 = *argv;
-	unsigned u;
+	uintmax_t u;
+	char *e;
 	struct wsilo *ws;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
@@ -77,7 +81,13 @@ main_mksilo(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		usage_mksilo(a0, a00, "No silo#.");
 		exit(1);
 	}
-	u = strtoul(argv[0], NULL, 0);
+	errno = 0;
+	u = strtoumax(argv[0], &e, 0);
+	if (argc > 1 || !isdigit((unsigned char)argv[0][0]) || *e != '\0' ||
+	    errno || u >= UINT32_MAX) {
+		usage_mksilo(a0, a00, "Illegal silo#.");
+		exit(1);
+	}
 	ws = Wsilo_New(aa, u);
 	if (ws == NULL) {
 		usage_mksilo(a0, a00, "Could not.");
-- 
2.43.0


From e7ad99e8bf606f857c1a905aeb6a9b3ebd5a7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 34/66] fix: refuse configurations with syntax errors

The sections after the error were silently ignored, and so were sections
which differ from an earlier one in letter case only.
---
 config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/config.c b/config.c
index 925cc65..bbc11a2 100644
--- a/config.c
+++ b/config.c
@@ -106,7 +106,7 @@ config_parse(struct config *cfg)
 				return ("Section colon trouble");
 			*r = '\0';
 			VTAILQ_FOREACH(sc, &cfg->sections, list)
-				if (!strcmp(sc->name, p))
+				if (!strcasecmp(sc->name, p))
 					return ("Duplicate sections");
 			ALLOC_OBJ(sc, SECTION_MAGIC);
 			AN(sc);
@@ -199,8 +199,12 @@ Config_Read(const char *fn)
 	}
 	cfg->space[st.st_size] = '\0';
 	e = config_parse(cfg);
-	if (e != NULL)
+	if (e != NULL) {
 		fprintf(stderr, "Config = %s\n", e);
+		config_destroy(cfg);
+		errno = EINVAL;
+		return (NULL);
+	}
 
 	return (cfg);
 }
-- 
2.43.0


From 9adac4f4b6551c851f6f8962ccb6401fb0ce791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 35/66] fix: refuse sizes which are negative or out of range

---
 vnum.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vnum.c b/vnum.c
index 052f95a..47b73aa 100644
--- a/vnum.c
+++ b/vnum.c
@@ -43,6 +43,7 @@ static const char err_miss_num[] = "Missing number";
 static const char err_invalid_num[] = "Invalid number";
 static const char err_abs_req[] = "Absolute number required";
 static const char err_invalid_suff[] = "Invalid suffix";
+static const char err_range[] = "Number out of range";
 
 /**********************************************************************
  * Convert (all of!) a string to a floating point number, and if we can
@@ -110,6 +111,8 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 		return (err_invalid_num);
 
 	if (end == NULL) {
+		if (!(fval >= 0. && fval < (double)INT64_MAX))
+			return (err_range);
 		*r = (uintmax_t)fval;
 		return (NULL);
 	}
@@ -156,6 +159,8 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 			return (err_invalid_suff);
 	}
 
+	if (!(fval >= 0. && fval < (double)INT64_MAX))
+		return (err_range);
 	*r = (uintmax_t)round(fval);
 	return (NULL);
 }
-- 
2.43.0


From a0ca0f7c1fc7ac224a0fd775daae01e91a1fe2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 36/66] fix: refuse ill-formed silo.max_size, silo.basename,
 index.sort_size and ID length

If there was more than one word or entry the default was silently used.
---
 aardwarc.c | 30 +++++++++++++++++++++++++-----
 config.c   |  2 ++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/aardwarc.c b/aardwarc.c
index 611c362..3bd0b2b 100644
--- a/aardwarc.c
+++ b/aardwarc.c
@@ -49,6 +49,7 @@ AardWARC_New(const char *config_file, struct vsb *err)
 	int e;
 	struct aardwarc *aa;
 	const char *p, *p2;
+	char *q;
 	uintmax_t um;
 
 	ALLOC_OBJ(aa, AARDWARC_MAGIC);
@@ -74,8 +75,9 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 		if (p != NULL) {
-			aa->id_size = strtoul(p, NULL, 0);
-			if (aa->id_size < 64 || aa->id_size > 256) {
+			aa->id_size = strtoul(p, &q, 0);
+			if (*q != '\0' ||
+			    aa->id_size < 64 || aa->id_size > 256) {
 				VSB_printf(err,
 				    "Illegal 'WARC-Record-ID' length %s.\n",
 				    "\tMust be [64...256] bits");
@@ -104,8 +106,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 
-		if (Config_Get(aa->cfg, "silo.max_size", &p, NULL))
+		if (Config_Get(aa->cfg, "silo.max_size", &p, NULL)) {
+			if (errno != ENOENT) {
+				VSB_printf(err,
+				    "'silo.max_size' must be one word.\n");
+				break;
+			}
 			p = "3.5G";
+		}
 
 		p2 = VNUM_2bytes(p, &um, 0);
 		if (p2 != NULL) {
@@ -116,8 +124,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 		aa->silo_maxsize = (off_t)um;
 		assert(um == (uintmax_t)aa->silo_maxsize);
 
-		if (Config_Get(aa->cfg, "silo.basename", &p, NULL))
+		if (Config_Get(aa->cfg, "silo.basename", &p, NULL)) {
+			if (errno != ENOENT) {
+				VSB_printf(err,
+				    "'silo.basename' must be one word.\n");
+				break;
+			}
 			p = "%08u.warc.gz";
+		}
 
 		if (fmtcheck(p, "%u") != p) {
 			VSB_printf(err,
@@ -132,8 +146,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 
-		if (Config_Get(aa->cfg, "index.sort_size", &p, NULL))
+		if (Config_Get(aa->cfg, "index.sort_size", &p, NULL)) {
+			if (errno != ENOENT) {
+				VSB_printf(err,
+				    "'index.sort_size' must be one word.\n");
+				break;
+			}
 			p = "10M";
+		}
 		p2 = VNUM_2bytes(p, &um, 0);
 		if (p2 != NULL) {
 			VSB_printf(err,
diff --git a/config.c b/config.c
index bbc11a2..69df617 100644
--- a/config.c
+++ b/config.c
@@ -222,6 +222,8 @@ Config_Get(const struct config *cfg, const char *section, const char **np,
 			break;
 	if (sc == NULL)
 		return (errno = ENOENT);
+	if (sc->nentry == 0)
+		return (errno = ENOENT);
 	if (sc->nentry != 1)
 		return (errno = E2BIG);
 	ent = VTAILQ_FIRST(&sc->entries);
-- 
2.43.0


From c4f69480a7c3a6559e823ef277b0e3ea110bc8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 37/66] fix: refuse a configuration without warcinfo.body

Store and mksilo failed on an assert, and left a hold file behind.
---
 aardwarc.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/aardwarc.c b/aardwarc.c
index 3bd0b2b..ec51a2c 100644
--- a/aardwarc.c
+++ b/aardwarc.c
@@ -43,6 +43,16 @@
 
 #include "aardwarc.h"
 
+static int v_matchproto_(config_f)
+null_iter(void *priv, const char *name, const char *arg)
+{
+
+	(void)priv;
+	(void)name;
+	(void)arg;
+	return (0);
+}
+
 struct aardwarc *
 AardWARC_New(const char *config_file, struct vsb *err)
 {
@@ -94,6 +104,12 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			aa->id_size = 32;
 		assert(aa->id_size >= 16 && aa->id_size <= 64);
 
+		if (Config_Iter(aa->cfg, "warcinfo.body", NULL, null_iter)) {
+			VSB_printf(err,
+			    "'warcinfo.body' not found in config.\n");
+			break;
+		}
+
 		if (Config_Get(aa->cfg, "silo.directory", &p, NULL)) {
 			VSB_printf(err,
 			    "'silo.directory' not found in config.\n");
-- 
2.43.0


From 4f5fdf5670e975e37f454cefc5135d8d72170c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 38/66] fix: warcinfo entries without a value are not "(null)"

---
 warcinfo.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcinfo.c b/warcinfo.c
index 2f43b29..7bcc4a2 100644
--- a/warcinfo.c
+++ b/warcinfo.c
@@ -66,7 +66,10 @@ c_iter(void *priv, const char *name, const char *arg)
 		return(0);
 	if (!strcasecmp(name, "title:"))
 		return(0);
-	VSB_printf(wi->body, "%s %s\r\n", name, arg);
+	VSB_cat(wi->body, name);
+	if (arg != NULL)
+		VSB_printf(wi->body, " %s", arg);
+	VSB_cat(wi->body, "\r\n");
 	return (0);
 }
 
-- 
2.43.0


From 87b0bdd5f986c9e7cbb16afdba50c65d208957e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 39/66] fix: refuse prefixes so long that headers do not fit a
 page

---
 aardwarc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aardwarc.c b/aardwarc.c
index ec51a2c..3886881 100644
--- a/aardwarc.c
+++ b/aardwarc.c
@@ -84,6 +84,12 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			    "'WARC-Record-ID' must end in '/'\n");
 			break;
 		}
+		if (strlen(aa->prefix) > 512) {
+			/* Headers must fit one page */
+			VSB_printf(err,
+			    "'WARC-Record-ID' prefix is too long\n");
+			break;
+		}
 		if (p != NULL) {
 			aa->id_size = strtoul(p, &q, 0);
 			if (*q != '\0' ||
-- 
2.43.0


From 8411bbabf803b7859ab15a48501b88f6fedf83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 40/66] fix: refuse a silo.basename without a number in it

---
 aardwarc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aardwarc.c b/aardwarc.c
index 3886881..26bcadb 100644
--- a/aardwarc.c
+++ b/aardwarc.c
@@ -155,7 +155,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			p = "%08u.warc.gz";
 		}
 
-		if (fmtcheck(p, "%u") != p) {
+		/* fmtcheck(3) also accepts no number at all, and %c */
+		for (p2 = strchr(p, '%'); p2 != NULL && p2[1] == '%';)
+			p2 = strchr(p2 + 2, '%');
+		if (p2 != NULL) {
+			p2++;
+			p2 += strspn(p2, "0123456789.-+#'hl");
+		}
+		if (p2 == NULL || *p2 == 'c' || fmtcheck(p, "%u") != p) {
 			VSB_printf(err,
 			    "'silo.basename' wrong format. %s\n",
 			    "Must have a single %u compatible printf-pattern");
-- 
2.43.0


From 42cb7a94c102d9349a5c311977b393e6f4f13d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 41/66] fix: housekeeping, reindex: fail when index files
 cannot be opened or read

---
 aardwarc.h          |  2 +-
 index.c             | 51 ++++++++++++++++++++++++++++-----------------
 main_housekeeping.c |  4 +---
 main_reindex.c      |  3 +--
 4 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 64ac932..12c7ae7 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -152,7 +152,7 @@ typedef int idx_iter_f(void *priv, const char *key,
 int IDX_Iter(const struct aardwarc *aa, const char *key_part,
     idx_iter_f *func, void *priv);
 
-void IDX_Resort(const struct aardwarc *aa);
+int IDX_Resort(const struct aardwarc *aa);
 
 const char *IDX_Valid_Id(const struct aardwarc *,
     const char *id, const char **nid);
diff --git a/index.c b/index.c
index 50c2f5c..83149c5 100644
--- a/index.c
+++ b/index.c
@@ -625,7 +625,7 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 {
 	int retval = 0;
 	int fd;
-	ssize_t sz;
+	ssize_t sz, len;
 	int i;
 
 	i = link(VSB_data(vsba), VSB_data(vsbh));
@@ -655,7 +655,6 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		fprintf(stderr,
 		    "Error opening housekeeping snapshot: %s\n",
 		    strerror(errno));
-		free(spc);
 		return (-1);
 	}
 
@@ -663,32 +662,36 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 	AZ(flock(fd, LOCK_EX));
 
 	do {
-		sz = read(fd, spc, aa->index_sort_size);
-		if (sz < 0) {
-			fprintf(stderr,
-			    "Read error on housekeeping snapshot: %s",
-			    strerror(errno));
-			AZ(close(fd));
-			return (-1);
+		for (len = 0; len < (ssize_t)aa->index_sort_size; len += sz) {
+			sz = read(fd, spc + len, aa->index_sort_size - len);
+			if (sz < 0) {
+				fprintf(stderr,
+				    "Read error on housekeeping snapshot: %s\n",
+				    strerror(errno));
+				AZ(close(fd));
+				return (-1);
+			}
+			if (sz == 0)
+				break;
 		}
-		if (sz == 0)
+		if (len == 0)
 			break;
-		AZ(sz & 0x1f);
-		qsort(spc, ((size_t)sz) >> 5, 32, idx_cmp);
-		idx_merge(aa, spc, idx_uniq(spc, sz));
-	} while (sz == (ssize_t)aa->index_sort_size);
+		AZ(len & 0x1f);
+		qsort(spc, ((size_t)len) >> 5, 32, idx_cmp);
+		idx_merge(aa, spc, idx_uniq(spc, len));
+	} while (len == (ssize_t)aa->index_sort_size);
 	AZ(close(fd));
 	AZ(unlink(VSB_data(vsbh)));
 	return (retval);
 }
 
-void
+int
 IDX_Resort(const struct aardwarc *aa)
 {
 
 	struct vsb *vsba, *vsbh, *vsb4;
 	uint8_t	*spc;
-	int fdh;
+	int fdh, i = -1;
 
 	vsb4 = idx_filename(aa, SUFF_HOLD);
 
@@ -698,7 +701,14 @@ IDX_Resort(const struct aardwarc *aa)
 		    "Housekeeping 'hold' already file exists (%s)\n",
 		    VSB_data(vsb4));
 		VSB_delete(vsb4);
-		return;
+		return (0);
+	}
+	if (fdh < 0) {
+		fprintf(stderr,
+		    "Error creating housekeeping 'hold' file (%s): %s\n",
+		    VSB_data(vsb4), strerror(errno));
+		VSB_delete(vsb4);
+		return (-1);
 	}
 
 	spc = malloc(aa->index_sort_size);
@@ -710,8 +720,9 @@ IDX_Resort(const struct aardwarc *aa)
 		vsba = idx_filename(aa, SUFF_APPENDIX);
 		vsbh = idx_filename(aa, SUFF_HOUSEKEEP);
 
-		while(idx_attempt_merge(aa, spc, vsba, vsbh) > 0)
-			continue;
+		do
+			i = idx_attempt_merge(aa, spc, vsba, vsbh);
+		while (i > 0);
 
 		VSB_delete(vsba);
 		VSB_delete(vsbh);
@@ -719,4 +730,6 @@ IDX_Resort(const struct aardwarc *aa)
 	}
 	AZ(unlink(VSB_data(vsb4)));
 	AZ(close(fdh));
+	VSB_delete(vsb4);
+	return (i);
 }
diff --git a/main_housekeeping.c b/main_housekeeping.c
index bf63902..0baafe0 100644
--- a/main_housekeeping.c
+++ b/main_housekeeping.c
@@ -72,7 +72,5 @@ main_housekeeping(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	AZ(argc);
 	AZ(*argv);
 
-	IDX_Resort(aa);
-
-	return (0);
+	return (IDX_Resort(aa) ? 1 : 0);
 }
diff --git a/main_reindex.c b/main_reindex.c
index 33ad35a..14597c2 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -295,8 +295,7 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 		Rsilo_NextHeader(rs);
 	}
 	Rsilo_Close(&rs);
-	IDX_Resort(aa);
-	return (0);
+	return (IDX_Resort(aa) ? -1 : 0);
 }
 
 static void
-- 
2.43.0


From 6e201b3122124c39dfb32e6334bbb9dc91cadb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 42/66] fix: stow, stevedore: identifiers with long prefixes

---
 main_stevedore.c | 2 +-
 main_stow.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 4c8f6e3..a5a14ee 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -139,7 +139,7 @@ job_start(vlu_f *line, job_func *eof, ...)
 	AZ(close(fdo[1]));
 	jp->fd_to = fdi[1];
 	jp->fd_fm = fdo[0];
-	jp->vlu = VLU_New(line, jp, 256);
+	jp->vlu = VLU_New(line, jp, 8192);
 	AN(jp->vlu);
 	jp->func_end = eof;
 	jp->ev = proto_add_ev(jp->fd_fm, POLLIN, job_ev, jp);
diff --git a/main_stow.c b/main_stow.c
index a3b1ad3..69afb3b 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -500,7 +500,7 @@ data_resp(struct stow_job *sj, char *p, size_t len)
 static void v_matchproto_(proto_ev_func_f)
 stevedore_in(int fd, void *priv, int revents)
 {
-	uint8_t u[1024];
+	uint8_t u[8192];
 	unsigned cmd;
 	ssize_t i;
 	size_t j;
-- 
2.43.0


From cef7f25704143c9395fde0eed65df55236aeaf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 43/66] fix: stevedore: do not let one job hold on to the input
 of another

---
 main_stevedore.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main_stevedore.c b/main_stevedore.c
index a5a14ee..381fc49 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -128,6 +128,12 @@ job_start(vlu_f *line, job_func *eof, ...)
 		} while (p != NULL);
 		va_end(ap);
 
+		/* Or the other jobs will not see the end of their input */
+		if (store_job != NULL)
+			AZ(close(store_job->fd_to));
+		if (meta_job != NULL)
+			AZ(close(meta_job->fd_to));
+
 		AZ(close(fdi[1]));
 		assert(0 == dup2(fdi[0], 0));
 		AZ(close(fdo[0]));
-- 
2.43.0


From 65bd15716711c9f291c2062fb80c818fcfb18467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 44/66] fix: filter: warcinfo records and continuation segments
 are not objects

---
 main_filter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/main_filter.c b/main_filter.c
index fcebc5e..7368021 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -115,11 +115,15 @@ filter_iter(void *priv, const char *key,
 	size_t l;
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
-	(void)flag;
 	(void)cont;
 
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
+	/* These are not objects, and cannot be gotten */
+	if (flag & IDX_F_WARCINFO)
+		return (0);
+	if ((flag & IDX_F_SEGMENTED) && !(flag & IDX_F_FIRSTSEG))
+		return (0);
 	/* The key is zero padded if IDs are shorter than the index' keys */
 	l = strlen(key);
 	if (l > fp->aa->id_size)
-- 
2.43.0


From 3a71c2df3df87414099667cc4c4748e7c5eeb8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 45/66] fix: stow: symlinks whose target ends in a backslash
 hid the next file

---
 main_stow.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 69afb3b..5a34750 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -194,16 +194,19 @@ mtree_interpret(char *line)
 static void
 mtree_process(struct stow_job *sj)
 {
-	char *p, *b;
+	char *p, *b, *e;
 
 	b = sj->mtree_buf;
 	while (1) {
 		p = strchr(b, '\n');
 		if (p == NULL)
 			break;
+		/* An even number of backslashes is the end of a symlink */
+		for (e = p; e > b && e[-1] == '\\'; e--)
+			continue;
 		if (p == b)
 			b++;
-		else if (p[-1] == '\\') {
+		else if ((p - e) & 1) {
 			p[-1] = ' ';
 			p[0] = ' ';
 		} else {
-- 
2.43.0


From 8cb6c6f47ae66a3f0fab4cfb0ebfab0c6db61f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 46/66] fix: stow: directories with the byte 0xaf in their name

---
 main_stow.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 5a34750..2bdb324 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -138,12 +138,13 @@ mtree_interpret(char *line)
 				mtree_type_dir = 0;
 		}
 	} else if (!strcmp(word, "..")) {
-		p = strrchr(mtree_path, '/');
-		if (p == NULL)
-			p = mtree_path;
-		*p = '\0';
 		AN(pwd);
 		pwd = pwd->parent;
+		/* There can be slashes in names, in the escapes of vis(3) */
+		p = mtree_path;
+		if (pwd != NULL)
+			p += strlen(pwd->dirname) + 1;
+		*p = '\0';
 	} else {
 		w0 = word;
 		digest = NULL;
-- 
2.43.0


From e86966fd6761f298203cdbf52d7470ddb17dc07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 47/66] fix: stow: do not abort when the end of filtering is
 reported last

---
 main_stow.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 2bdb324..d656b1d 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -460,8 +460,9 @@ filter_resp(struct stow_job *sj, uint8_t *p, size_t len)
 	} else {
 		WRONG("Wrong 1-cmd");
 	}
-	AN(stevedore_0_ev);
-	proto_ctl_ev(stevedore_0_ev, 1);
+	/* The end of the filtering can be reported after all else is done */
+	if (stevedore_0_ev)
+		proto_ctl_ev(stevedore_0_ev, 1);
 }
 
 static void
-- 
2.43.0


From 086d0d7f3c260ad1ac9b452913bd5f36cc75996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 48/66] fix: stow: a second job inherited the first one's
 listing as unacknowledged

---
 main_stow.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main_stow.c b/main_stow.c
index d656b1d..e3513c6 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -485,6 +485,7 @@ data_resp(struct stow_job *sj, char *p, size_t len)
 				__func__, __LINE__, cp->digest, pp);
 		}
 		AZ(strncmp(cp->digest, pp, strlen(pp)));
+		VTAILQ_REMOVE(&ack_list, cp, list);
 		metadata(sj, cp);
 		return;
 	}
-- 
2.43.0


From 38f2734be7f1315064484ba137778f1da7990294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 49/66] fix: stow: send the metadata only after all objects are
 sent and acknowledged

---
 main_stow.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index e3513c6..559129e 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -623,7 +623,8 @@ stevedore_out(int fd, void *priv, int revents)
 			exit(2);
 		}
 	}
-	if (sj->meta != NULL)
+	/* The metadata goes last, after all other objects have been acked. */
+	if (cp == NULL && sj->meta != NULL && VTAILQ_EMPTY(&ack_list))
 		send_metadata(sj, fd);
 
 	AN(stevedore_0_ev);
-- 
2.43.0


From 74bdc130e5b525c4c5ec55536b8223a0faef3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 50/66] fix: reindex: do not mix the segments of an interrupted
 and a repeated store

---
 main_reindex.c | 79 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 70 insertions(+), 9 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 14597c2..ffb5cc1 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -54,6 +54,9 @@ struct seg {
 	char			*parent;
 	ssize_t			silono;
 	off_t			off, segno;
+	off_t			len, total;
+	off_t			*fail;
+	unsigned		nfail;
 	VTAILQ_ENTRY(seg)	list;
 	int			used;
 	int			done;
@@ -88,6 +91,7 @@ drop_seg(struct seg *seg)
 	AN(seg->done);
 	REPLACE(seg->id, NULL);
 	REPLACE(seg->parent, NULL);
+	free(seg->fail);
 	FREE_OBJ(seg);
 	nsegs--;
 }
@@ -104,10 +108,6 @@ emit_seg(const struct aardwarc *aa, struct seg *seg, struct seg *seg2)
 	AZ(seg2->used);
 	seg->done++;
 	seg2->used++;
-	if (seg->used && seg->done)
-		drop_seg(seg);
-	if (seg2->used && seg2->done)
-		drop_seg(seg2);
 }
 
 static void
@@ -121,6 +121,65 @@ try_seg(const struct aardwarc *aa, struct seg *seg)
 		emit_seg(aa, seg2, seg);
 }
 
+/*
+ * Find the segments before this one, which must be 'before' bytes.
+ *
+ * If an object was stored again, after the first attempt was interrupted,
+ * the segments of the two attempts may have been cut in different places.
+ * An attempt uses rising silo numbers, so try the closest lower one first.
+ */
+
+static int
+chain_seg(const struct aardwarc *aa, struct seg *seg, off_t before)
+{
+	struct seg *seg2;
+	unsigned u;
+	int higher;
+
+	CHECK_OBJ_NOTNULL(seg, SEG_MAGIC);
+	if (seg->segno == 1)
+		return (before == 0);
+	for (u = 0; u < seg->nfail; u++)
+		if (seg->fail[u] == before)
+			return (0);
+	for (higher = 0; higher < 2; higher++) {
+		for (seg2 = VTAILQ_NEXT(seg, list);
+		    seg2 != NULL && seg2->segno + 1 >= seg->segno &&
+		    !strncmp(seg2->parent, seg->parent, aa->id_size);
+		    seg2 = VTAILQ_NEXT(seg2, list)) {
+			if (seg2->segno + 1 == seg->segno && !seg2->done &&
+			    (seg2->silono >= seg->silono) == higher &&
+			    chain_seg(aa, seg2, before - seg2->len)) {
+				emit_seg(aa, seg2, seg);
+				return (1);
+			}
+		}
+	}
+	seg->fail = realloc(seg->fail, (seg->nfail + 1) * sizeof *seg->fail);
+	AN(seg->fail);
+	seg->fail[seg->nfail++] = before;
+	return (0);
+}
+
+static void
+match_segs(const struct aardwarc *aa)
+{
+	struct seg *seg, *seg2;
+
+	VTAILQ_FOREACH(seg, &segs, list)
+		if (seg->total >= seg->len)
+			(void)chain_seg(aa, seg, seg->total - seg->len);
+
+	/* Those which do not add up */
+	VTAILQ_FOREACH(seg, &segs, list)
+		if (!seg->used)
+			try_seg(aa, seg);
+
+	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2)
+		if (seg->used && seg->done)
+			drop_seg(seg);
+}
+
 static int v_matchproto_(idx_iter_f)
 reindex_iter(void *priv, const char *key,
     uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
@@ -178,12 +237,16 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 	seg->off = off;
 	seg->segno = segno;
 	seg->silono = silono;
+	seg->len = Header_Get_Number(hdr, "Content-Length");
+	seg->total = -1;
 
 	if (segno == 1)
 		seg->used = 1;
 	if (tl != NULL) {
 		IDX_Insert(aa, seg->id, seg->flg, seg->silono, seg->off, NULL);
 		seg->done = 1;
+		seg->total = Header_Get_Number(hdr,
+		    "WARC-Segment-Total-Length");
 	}
 
 	VTAILQ_FOREACH(seg2, &segs, list) {
@@ -193,16 +256,13 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 			break;
 		if (seg2->segno < seg->segno)
 			break;
+		if (seg2->segno == seg->segno && seg2->silono < seg->silono)
+			break;
 	}
 	if (seg2 != NULL)
 		VTAILQ_INSERT_BEFORE(seg2, seg, list);
 	else
 		VTAILQ_INSERT_TAIL(&segs, seg, list);
-
-	seg2 = VTAILQ_PREV(seg, seghead, list);
-	try_seg(aa, seg);
-	if (seg2 != NULL)
-		try_seg(aa, seg2);
 }
 
 /*
@@ -335,6 +395,7 @@ main_reindex(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		retval |= Silo_Iter(aa, silo_iter, aa);
 	while (argc-- > 0)
 		retval |= silo_iter(aa, *argv++, -1);
+	match_segs(aa);
 	if (nsegs > 0) {
 		printf("Rematch (%u)\n", nsegs);
 		(void)IDX_Iter(aa, NULL, reindex_iter, aa);
-- 
2.43.0


From 3b2a90ace22d63d28dbd7e87dc4b5a491f2b8164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 51/66] fix: lookups: an index file which cannot be read is not
 a missing or a short one

---
 index.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 83149c5..ebf6179 100644
--- a/index.c
+++ b/index.c
@@ -479,13 +479,15 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 	for (idf = idxfiles; idf->suff != NULL; idf++) {
 		vsb = idx_filename(aa, idf->suff);
 		f = fopen(VSB_data(vsb), "r");
+		assert(f != NULL || errno == ENOENT);
+		VSB_delete(vsb);
 		if (f == NULL)
 			continue;
-		VSB_delete(vsb);
 		if (idf->sorted)
 			bucket_seek(key_p, f);
 		do {
 			i = fread(rec, 1, sizeof rec, f);
+			AZ(ferror(f));
 			if (i == 0)
 				break;
 			assert(i == (int)sizeof rec);
-- 
2.43.0


From 0f651f1a940d98900145088c7bfebac2e7b04f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 52/66] fix: housekeeping: do not lose index records when files
 cannot be read or written

---
 index.c | 77 ++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/index.c b/index.c
index ebf6179..04eff45 100644
--- a/index.c
+++ b/index.c
@@ -240,8 +240,9 @@ idx_open_appendix(const char *fn)
 		assert(fd >= 0);
 		AZ(flock(fd, LOCK_EX));
 		AZ(fstat(fd, &st1));
-		if (!stat(fn, &st2) &&
-		    st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino)
+		if (stat(fn, &st2))
+			assert(errno == ENOENT);
+		else if (st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino)
 			return (fd);
 		AZ(close(fd));
 	}
@@ -360,11 +361,12 @@ bucket_update(const struct bucket *bp, uint64_t n, const void *rec)
 	}
 }
 
-static void
+static int
 bucket_write(const struct bucket *bp, FILE *f)
 {
 	char buf[8];
 	unsigned i;
+
 	CHECK_OBJ_NOTNULL(bp, BUCKET_MAGIC);
 
 	bp->buckets[0] =
@@ -372,13 +374,14 @@ bucket_write(const struct bucket *bp, FILE *f)
 		((int64_t)bp->bbucket << 40) |
 		(int64_t)bp->nrec;
 
-	fflush(f);
-	AZ(fseeko(f, 0, SEEK_SET));
+	if (fflush(f) || fseeko(f, 0, SEEK_SET))
+		return (-1);
 	for (i = 0; i < bp->nbucket; i++) {
 		be64enc(buf, bp->buckets[i]);
-		assert(1 == fwrite(buf, 8, 1, f));
+		if (1 != fwrite(buf, 8, 1, f))
+			return (-1);
 	}
-	fflush(f);
+	return (fflush(f));
 }
 
 static void
@@ -520,7 +523,7 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 	return (i);
 }
 
-static void
+static int
 idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 {
 	int i;
@@ -540,11 +543,25 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 
 	vsb1 = idx_filename(aa, SUFF_SORTED);
 	f1 = fopen(VSB_data(vsb1), "r");
+	if (f1 == NULL && errno != ENOENT) {
+		fprintf(stderr, "Error opening sorted index: %s\n",
+		    strerror(errno));
+		VSB_delete(vsb1);
+		return (-1);
+	}
 
 	bprintf(buf, "tmp.%jd", (intmax_t)getpid());
 	vsb2 = idx_filename(aa, buf);
 	f2 = fopen(VSB_data(vsb2), "w");
-	assert(f2 != NULL);
+	if (f2 == NULL) {
+		fprintf(stderr, "Error creating index temporary file: %s\n",
+		    strerror(errno));
+		if (f1 != NULL)
+			AZ(fclose(f1));
+		VSB_delete(vsb1);
+		VSB_delete(vsb2);
+		return (-1);
+	}
 	memset(recl, 0, sizeof recl);
 
 	nrec = len / 32;
@@ -555,7 +572,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 	}
 
 	bp = bucket_new(nrec);
-	bucket_write(bp, f2);
+	i = bucket_write(bp, f2);
 
 	n = 0;
 	if (f1 != NULL) {
@@ -569,8 +586,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 			assert(sz == 1);
 			while (len > 0 && memcmp(rec, ptr, 32) > 0) {
 				bucket_update(bp, n++, ptr);
-				sz = fwrite(ptr, 32, 1, f2);
-				assert(sz == 1);
+				i |= 1 != fwrite(ptr, 32, 1, f2);
 				ptr += 32;
 				len -= 32;
 			}
@@ -579,23 +595,29 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 				len -= 32;
 			}
 			bucket_update(bp, n++, rec);
-			sz = fwrite(rec, 32, 1, f2);
-			assert(sz == 1);
+			i |= 1 != fwrite(rec, 32, 1, f2);
 		}
+		i |= ferror(f1);
 		AZ(fclose(f1));
 	}
 	while (len > 0)  {
 		bucket_update(bp, n++, ptr);
-		assert(1 == fwrite(ptr, 32, 1, f2));
+		i |= 1 != fwrite(ptr, 32, 1, f2);
 		ptr += 32;
 		len -= 32;
 	}
-	bucket_write(bp, f2);
-	AZ(fclose(f2));
-	i = rename(VSB_data(vsb2), VSB_data(vsb1));
-	AZ(i);
+	i |= bucket_write(bp, f2);
+	i |= fclose(f2);
+	if (!i)
+		i = rename(VSB_data(vsb2), VSB_data(vsb1));
+	if (i) {
+		fprintf(stderr, "Error building new sorted index\n");
+		(void)unlink(VSB_data(vsb2));
+		i = -1;
+	}
 	VSB_delete(vsb1);
 	VSB_delete(vsb2);
+	return (i);
 }
 
 static int
@@ -628,18 +650,20 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 	int retval = 0;
 	int fd;
 	ssize_t sz, len;
-	int i;
+	int i, e;
 
 	i = link(VSB_data(vsba), VSB_data(vsbh));
+	e = errno;
 	if (i == 0) {
 		AZ(unlink(VSB_data(vsba)));
-	} else if (errno == ENOENT && access(VSB_data(vsbh), F_OK)) {
+	} else if (e == ENOENT && access(VSB_data(vsbh), F_OK) &&
+	    errno == ENOENT) {
 		fprintf(stderr, "No appendix to housekeep\n");
 		return (0);
-	} else if (errno == ENOENT) {
+	} else if (e == ENOENT) {
 		fprintf(stderr,
 		    "Found existing housekeeping snapshot\n");
-	} else if (errno == EEXIST) {
+	} else if (e == EEXIST) {
 		fprintf(stderr,
 		    "Found existing housekeeping snapshot\n");
 		fprintf(stderr,
@@ -648,7 +672,7 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 	} else {
 		fprintf(stderr,
 		    "Error linking housekeeping snapshot: %s\n",
-		    strerror(errno));
+		    strerror(e));
 		return (-1);
 	}
 
@@ -680,7 +704,10 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 			break;
 		AZ(len & 0x1f);
 		qsort(spc, ((size_t)len) >> 5, 32, idx_cmp);
-		idx_merge(aa, spc, idx_uniq(spc, len));
+		if (idx_merge(aa, spc, idx_uniq(spc, len))) {
+			AZ(close(fd));
+			return (-1);
+		}
 	} while (len == (ssize_t)aa->index_sort_size);
 	AZ(close(fd));
 	AZ(unlink(VSB_data(vsbh)));
-- 
2.43.0


From 1e78b8339ce39edb5c48ab99cf8c565a1620ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 53/66] fix: fail when the output cannot be written

---
 main.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 005be74..0b41a77 100644
--- a/main.c
+++ b/main.c
@@ -105,7 +105,7 @@ call_main(const char *a0, struct aardwarc *aa, int argc, char **argv)
 int
 main(int argc, char **argv)
 {
-	int ch, json = 0;
+	int ch, json = 0, retval;
 	const char *cf = NULL;
 	struct vsb *vsb1, *vsb2, *vsb3;
 	struct aardwarc *aa = NULL;
@@ -196,5 +196,10 @@ main(int argc, char **argv)
 	VSB_delete(vsb2);
 	VSB_delete(vsb3);
 
-	return (call_main(a0, aa, argc, argv));
+	retval = call_main(a0, aa, argc, argv);
+	if ((fflush(stdout) || ferror(stdout)) && !retval) {
+		fprintf(stderr, "Error writing output\n");
+		retval = 1;
+	}
+	return (retval);
 }
-- 
2.43.0


From 5dfb8c26f7f31ae397521bdf0807217eb2471491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 54/66] fix: get -z, cgi: fail when the silo cannot be read to
 the end of the object

---
 rsilo.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsilo.c b/rsilo.c
index 0f06b93..fd5e52d 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -190,7 +190,7 @@ Rsilo_ReadHeader(struct rsilo *rs)
 
 	rs->silo_bodylen = Gzip_ReadAa(zs->next_in, zs->avail_in);
 
-	(void)lseek(rs->silo_fd, -(off_t)zs->avail_in, SEEK_CUR);
+	assert(lseek(rs->silo_fd, -(off_t)zs->avail_in, SEEK_CUR) >= 0);
 
 	i = inflateEnd(zs);
 	assert(i == Z_OK);
@@ -242,8 +242,7 @@ Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 		if (sz > rs->silo_bodylen)
 			sz = rs->silo_bodylen;
 		sz = read(rs->silo_fd, ibuf, sz);
-		if (sz <= 0)
-			return(0);
+		assert(sz > 0);
 		ll += sz;
 		j = func(priv, ibuf, sz);
 		if (j)
@@ -293,7 +292,8 @@ Rsilo_ReadChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 	} while (i >= Z_OK && i != Z_STREAM_END && j == 0);
 
 	if (zs->avail_in > 0)
-		(void)lseek(rs->silo_fd, -(off_t)zs->avail_in, SEEK_CUR);
+		assert(lseek(rs->silo_fd,
+		    -(off_t)zs->avail_in, SEEK_CUR) >= 0);
 
 	rs->silo_where = RS_CRLF;
 	i = inflateEnd(zs);
-- 
2.43.0


From 0c108b60f3f1d640b8aec073e1224ecbbe1ecb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 55/66] fix: rebuild: fail when the silo cannot be read to its
 end

---
 main_rebuild.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main_rebuild.c b/main_rebuild.c
index 25b6175..4860f6c 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -286,6 +286,12 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 		}
 	} while (i == Z_OK);
 
+	if (ferror(fi) || i != Z_OK || zs->total_in != 0 || rb->state != 0) {
+		fprintf(stderr, "Cannot read %s to the end, %s_ is incomplete\n",
+		    (const char *)fn, (const char *)fn);
+		exit(1);
+	}
+
 	AZ(fclose(fi));
 	AZ(close(rb->fdo));
 
-- 
2.43.0


From d1321e0c54ce09d1c01e9b73cb6c29f9b3a5dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 56/66] fix: filter: fail when the lists cannot be read or the
 output not be written

---
 main_filter.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/main_filter.c b/main_filter.c
index 7368021..ab8c809 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -193,6 +193,11 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		if (c2 != NULL && strcmp(c2->id, c1->id) > 0)
 			retval = 1;
 	}
+	if (ferror(fi)) {
+		fprintf(stderr, "Error reading ID list: %s\n",
+		    strerror(errno));
+		exit(1);
+	}
 	return (retval);
 }
 
@@ -309,5 +314,9 @@ main_filter(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		FREE_OBJ(c);
 	}
 	FREE_OBJ(fp);
+	if (fflush(fo) || ferror(fo)) {
+		fprintf(stderr, "Output write error: %s\n", strerror(errno));
+		exit(1);
+	}
 	return (0);
 }
-- 
2.43.0


From e72ec3fb9632920c27efc9d14e83bdba9abe002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 57/66] fix: Gzip_ReadAa() must have the length in the buffer
 before it reads it

---
 gzip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gzip.c b/gzip.c
index ea632e9..95a44ea 100644
--- a/gzip.c
+++ b/gzip.c
@@ -129,8 +129,8 @@ Gzip_ReadAa(const void *p, size_t l)
 {
 	int64_t len;
 
+	xxxassert(l >= sizeof gzip_head + 8);
 	assert(Gzip_GoodAa(p, l));
-	xxxassert(l >= sizeof sizeof gzip_head + 8);
 	len = (int64_t)le64dec((const uint8_t*)p + sizeof gzip_head);
 	assert(len > 0);
 	return (len);
-- 
2.43.0


From 1bfd15ab0fb1dc8320698b9179376068767f20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 58/66] fix: rebuild: a record without a valid Content-Length
 has no body to copy

---
 main_rebuild.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main_rebuild.c b/main_rebuild.c
index 4860f6c..e06593f 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -97,6 +97,7 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			rb->h = Header_Parse(rb->aa, rb->hdrbuf);
 			AN(rb->h);
 			rb->clen = Header_Get_Number(rb->h, "Content-Length");
+			assert(rb->clen >= 0);
 
 			Header_Delete(rb->h, "Content-Length-GZIP");
 			Header_Delete(rb->h, "z");
-- 
2.43.0


From 986850bad417429fc1ad8d76394feb95f1b619e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 59/66] fix: header fields can be shorter than what they are
 compared to

---
 getjob.c     | 3 ++-
 main_audit.c | 4 ++--
 main_get.c   | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/getjob.c b/getjob.c
index a43cd9b..57ae713 100644
--- a/getjob.c
+++ b/getjob.c
@@ -119,8 +119,9 @@ getjob_iter(void *priv, const char *key,
 		}
 		assert(p[0] == '<');
 		p++;
-		assert(!memcmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
+		assert(!strncmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
 		p += strlen(gj->aa->prefix);
+		assert(strlen(p) > gj->aa->id_size);
 		assert(p[gj->aa->id_size] == '>');
 		assert(p[gj->aa->id_size + 1L] == '\0');
 		if (strncasecmp(p, gj->id, gj->aa->id_size)) {
diff --git a/main_audit.c b/main_audit.c
index f622734..8b542cc 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -92,7 +92,7 @@ audit_check_digest_header(struct vsb *err, const struct audit *ap,
 	is = Header_Get(ap->hdr, hdn);
 	if (is == NULL) {
 		VSB_printf(err, "ERROR: %s missing\n", hdn);
-	} else if (memcmp(is, "sha256:", 7)) {
+	} else if (strncmp(is, "sha256:", 7)) {
 		VSB_printf(err, "ERROR: %s is not sha256\n", hdn);
 	} else if (strcmp(is + 7, expect)) {
 		VSB_printf(err, "ERROR: %s difference\n", hdn);
@@ -214,7 +214,7 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 				continue;
 			if (*origin++ != '<')
 				continue;
-			if (memcmp(aa->prefix, origin, strlen(aa->prefix)))
+			if (strncmp(aa->prefix, origin, strlen(aa->prefix)))
 				continue;
 			origin += strlen(aa->prefix);
 			if (strncmp(origin, oid, strlen(oid)))
diff --git a/main_get.c b/main_get.c
index 3133e5f..99b04de 100644
--- a/main_get.c
+++ b/main_get.c
@@ -178,7 +178,7 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			if (p == NULL)
 				p = Header_Get(hdr1, "WARC-Block-Digest");
 			AN(p);
-			assert(!memcmp(p, "sha256:", 7));
+			assert(!strncmp(p, "sha256:", 7));
 			p += 7;
 			assert(!strncmp(p, dig, aa->id_size));
 
-- 
2.43.0


From 455e0216d6efb66bb3756751c365de3eb153ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 60/66] fix: stow: the end marker in the queue has no digest to
 compare

---
 main_stow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index 559129e..11774d4 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -444,7 +444,7 @@ filter_resp(struct stow_job *sj, uint8_t *p, size_t len)
 		while (1) {
 			cp = VTAILQ_FIRST(&wait_list);
 			CHECK_OBJ_NOTNULL(cp, SUBJ_MAGIC);
-			if (!memcmp(cp->digest, p, len)) {
+			if (!strncmp(cp->digest, (const char *)p, len)) {
 				if (cp->directory == NULL)
 					printf("get\t${MTREE}\n");
 				else
-- 
2.43.0


From 9610aa38d40d0ed14bb4f1847b60d9aff9aaf13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 61/66] fix: no gzip member is shorter than its header and
 trailer

---
 gzip.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gzip.c b/gzip.c
index 95a44ea..7a96a9f 100644
--- a/gzip.c
+++ b/gzip.c
@@ -291,6 +291,7 @@ gzip_stitch_feed(void *priv, const void *ptr, ssize_t len)
 			assert(p[14] == 0x08);
 			assert(p[15] == 0x00);
 			gs->gzlen = le64dec(p + 16);
+			assert(gs->gzlen >= 24 + 13);
 			gs->state = GZSTATE_INSIDE;
 			p += 24;
 			len -= 24;
-- 
2.43.0


From b98e5ab094a07fa1e5b706f455802ff22dc950db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 62/66] fix: stow: paths in the listing can be longer than 4096
 characters

---
 main_stow.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 11774d4..7c571d1 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -111,7 +111,6 @@ static VTAILQ_HEAD(,stow_job)	job_list = VTAILQ_HEAD_INITIALIZER(job_list);
 
 /**********************************************************************/
 
-static char mtree_path[4096];
 static int mtree_type_dir;
 static struct dir *pwd;
 static int send_fd = -1;
@@ -120,7 +119,7 @@ static void
 mtree_interpret(char *line)
 {
 	char *word, *w0;
-	char *p, *digest;
+	char *digest;
 	int dir = mtree_type_dir;
 	struct dir *dp = NULL;
 	struct subj *cp;
@@ -139,12 +138,8 @@ mtree_interpret(char *line)
 		}
 	} else if (!strcmp(word, "..")) {
 		AN(pwd);
-		pwd = pwd->parent;
 		/* There can be slashes in names, in the escapes of vis(3) */
-		p = mtree_path;
-		if (pwd != NULL)
-			p += strlen(pwd->dirname) + 1;
-		*p = '\0';
+		pwd = pwd->parent;
 	} else {
 		w0 = word;
 		digest = NULL;
@@ -178,12 +173,13 @@ mtree_interpret(char *line)
 			VTAILQ_INSERT_TAIL(&subj_list, cp, list);
 			proto_ctl_ev(stevedore_0_ev, 1);
 		} else {
-			strcat(mtree_path, "/");
-			strcat(mtree_path, w0);
-			// printf("D %s\n", mtree_path + 1);
 			ALLOC_OBJ(dp, DIR_MAGIC);
 			AN(dp);
-			dp->dirname = strdup(mtree_path + 1);
+			if (pwd == NULL)
+				dp->dirname = strdup(w0);
+			else
+				assert(asprintf(&dp->dirname, "%s/%s",
+				    pwd->dirname, w0) > 0);
 			AN(dp->dirname);
 			dp->parent = pwd;
 			pwd = dp;
-- 
2.43.0


From f7a51490f022f3a08fc1e1247d03cdf21079ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:14 +0000
Subject: [PATCH 63/66] fix: reindex: find the number of a silo when digits
 follow it in its name

---
 main_reindex.c | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index ffb5cc1..287c76e 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -269,30 +269,44 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
  * Find the number of a silo from its filename.
  *
  * To printf(3) a field width is a minimum, to scanf(3) it is a maximum,
- * so it is left out of the pattern.
+ * so it is left out of the pattern, unless digits follow the number.
  */
 static ssize_t
 silo_number(const struct aardwarc *aa, const char *fn)
 {
 	struct vsb *vsb;
 	const char *p;
+	char *name;
 	unsigned u;
-	int i;
-
-	vsb = VSB_new_auto();
-	AN(vsb);
-	for (p = aa->silo_basename; *p != '\0'; p++) {
-		VSB_putc(vsb, *p);
-		if (*p != '%')
+	size_t width;
+	ssize_t number = -1;
+	int i, same = 0;
+
+	for (width = strlen(fn); width > 0 && !same; width--) {
+		vsb = VSB_new_auto();
+		AN(vsb);
+		for (p = aa->silo_basename; *p != '\0'; p++) {
+			VSB_putc(vsb, *p);
+			if (*p != '%')
+				continue;
+			p += 1 + strspn(p + 1, " #+-.0123456789");
+			if (*p != '%')
+				VSB_printf(vsb, "%zu", width);
+			VSB_putc(vsb, *p);
+		}
+		AZ(VSB_finish(vsb));
+		i = sscanf(fn, VSB_data(vsb), &u);
+		VSB_delete(vsb);
+		if (i != 1)
 			continue;
-		p += 1 + strspn(p + 1, " #+-.0123456789");
-		VSB_putc(vsb, *p);
+		assert(asprintf(&name, aa->silo_basename, u) >= 0);
+		same = !strcmp(name, fn);
+		free(name);
+		if (same || number < 0)
+			number = (ssize_t)u;
 	}
-	AZ(VSB_finish(vsb));
-	i = sscanf(fn, VSB_data(vsb), &u);
-	VSB_delete(vsb);
-	if (i == 1)
-		return ((ssize_t)u);
+	if (number >= 0)
+		return (number);
 	return ((ssize_t)strtoul(fn, NULL, 10));
 }
 
-- 
2.43.0


From b5a50d0c577ee5eba2bd37eef4179184203a7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 64/66] fix: audit: do not mix the segments of an interrupted
 and a repeated store

---
 main_audit.c | 101 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 21 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 8b542cc..21dc836 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -59,6 +59,9 @@ struct audit {
 	const char		*silo_fn;
 	int			silo_no;
 	int			segment;
+	struct audit		*next;
+	off_t			*fail;
+	unsigned		nfail;
 	VTAILQ_ENTRY(audit)	list;
 };
 
@@ -181,11 +184,80 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 	}
 }
 
+/* Is this one the next segment of the same object ? */
+
+static int
+audit_continues(const struct aardwarc *aa, const char *oid,
+    const struct audit *ap, const struct audit *apn)
+{
+	const char *origin;
+
+	CHECK_OBJ_NOTNULL(apn, AUDIT_MAGIC);
+	if (apn->segment != ap->segment + 1)
+		return (0);
+	origin = Header_Get(apn->hdr, "WARC-Segment-Origin-ID");
+	if (origin == NULL)
+		return (0);
+	if (*origin++ != '<')
+		return (0);
+	if (strncmp(aa->prefix, origin, strlen(aa->prefix)))
+		return (0);
+	origin += strlen(aa->prefix);
+	if (strncmp(origin, oid, strlen(oid)))
+		return (0);
+	origin += strlen(oid);
+	return (*origin == '>');
+}
+
+/*
+ * Find segments which add up to the total length.
+ *
+ * If an object was stored again, after the first attempt was interrupted,
+ * the segments of the two attempts may have been cut in different places.
+ * All segments have the date of their attempt.
+ */
+
+static int
+audit_chain(const struct aardwarc *aa, const char *oid, struct audit *ap,
+    off_t before)
+{
+	struct audit *apn;
+	const char *d1, *d2;
+	unsigned u;
+	int other;
+
+	CHECK_OBJ_NOTNULL(ap, AUDIT_MAGIC);
+	if (Header_Get(ap->hdr, "WARC-Segment-Total-Length") != NULL)
+		return (before + ap->sz == (off_t)Header_Get_Number(ap->hdr,
+		    "WARC-Segment-Total-Length"));
+	for (u = 0; u < ap->nfail; u++)
+		if (ap->fail[u] == before)
+			return (0);
+	d1 = Header_Get(ap->hdr, "WARC-Date");
+	for (other = 0; other < 2; other++) {
+		VTAILQ_FOREACH(apn, &segment_list, list) {
+			if (!audit_continues(aa, oid, ap, apn))
+				continue;
+			d2 = Header_Get(apn->hdr, "WARC-Date");
+			if ((d1 == NULL || d2 == NULL || strcmp(d1, d2)) ==
+			    other &&
+			    audit_chain(aa, oid, apn, before + ap->sz)) {
+				ap->next = apn;
+				return (1);
+			}
+		}
+	}
+	ap->fail = realloc(ap->fail, (ap->nfail + 1) * sizeof *ap->fail);
+	AN(ap->fail);
+	ap->fail[ap->nfail++] = before;
+	return (0);
+}
+
 static int
 audit_one_pending(struct aardwarc *aa, struct vsb *err)
 {
 	struct audit *ap0, *ap, *apn;
-	const char *origin, *oid, *p;
+	const char *oid, *p;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 	VTAILQ_FOREACH(ap0, &segment_list, list) {
@@ -197,33 +269,20 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 		return (0);
 	VTAILQ_REMOVE(&segment_list, ap0, list);
 	printf("Auditing this segmented object: %s\n", Header_Get_Id(ap0->hdr));
+	oid = Header_Get_Id(ap0->hdr);
+	(void)audit_chain(aa, oid, ap0, 0);
 	SHA256_Init(ap0->sha256);
 	ap0->sz = 0;
 	ap0->gzsz = 0;
 	audit_add_one_segment(aa, ap0, ap0);
 
-	oid = Header_Get_Id(ap0->hdr);
 	ap = ap0;
 	while (1) {
-		VTAILQ_FOREACH(apn, &segment_list, list) {
-			CHECK_OBJ_NOTNULL(apn, AUDIT_MAGIC);
-			if (apn->segment != ap->segment + 1)
-				continue;
-			origin = Header_Get(apn->hdr, "WARC-Segment-Origin-ID");
-			if (origin == NULL)
-				continue;
-			if (*origin++ != '<')
-				continue;
-			if (strncmp(aa->prefix, origin, strlen(aa->prefix)))
-				continue;
-			origin += strlen(aa->prefix);
-			if (strncmp(origin, oid, strlen(oid)))
-				continue;
-			origin += strlen(oid);
-			if (*origin++ != '>')
-				continue;
-			break;
-		}
+		apn = ap->next;
+		if (apn == NULL)
+			VTAILQ_FOREACH(apn, &segment_list, list)
+				if (audit_continues(aa, oid, ap, apn))
+					break;
 		if (apn == NULL)
 			break;
 		audit_add_one_segment(aa, ap0, apn);
-- 
2.43.0


From 7dbe344f9e59bc55c09131ec139be620db2b23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 65/66] fix: reindex: prefer segments from the same attempt to
 store an object

---
 main_reindex.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 287c76e..a15c380 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -52,6 +52,7 @@ struct seg {
 	char			*id;
 	uint32_t		flg;
 	char			*parent;
+	char			*date;
 	ssize_t			silono;
 	off_t			off, segno;
 	off_t			len, total;
@@ -91,6 +92,7 @@ drop_seg(struct seg *seg)
 	AN(seg->done);
 	REPLACE(seg->id, NULL);
 	REPLACE(seg->parent, NULL);
+	REPLACE(seg->date, NULL);
 	free(seg->fail);
 	FREE_OBJ(seg);
 	nsegs--;
@@ -126,7 +128,8 @@ try_seg(const struct aardwarc *aa, struct seg *seg)
  *
  * If an object was stored again, after the first attempt was interrupted,
  * the segments of the two attempts may have been cut in different places.
- * An attempt uses rising silo numbers, so try the closest lower one first.
+ * All segments have the date of their attempt, and an attempt uses rising
+ * silo numbers, so try the closest lower one first.
  */
 
 static int
@@ -134,7 +137,7 @@ chain_seg(const struct aardwarc *aa, struct seg *seg, off_t before)
 {
 	struct seg *seg2;
 	unsigned u;
-	int higher;
+	int other, higher;
 
 	CHECK_OBJ_NOTNULL(seg, SEG_MAGIC);
 	if (seg->segno == 1)
@@ -142,16 +145,20 @@ chain_seg(const struct aardwarc *aa, struct seg *seg, off_t before)
 	for (u = 0; u < seg->nfail; u++)
 		if (seg->fail[u] == before)
 			return (0);
-	for (higher = 0; higher < 2; higher++) {
-		for (seg2 = VTAILQ_NEXT(seg, list);
-		    seg2 != NULL && seg2->segno + 1 >= seg->segno &&
-		    !strncmp(seg2->parent, seg->parent, aa->id_size);
-		    seg2 = VTAILQ_NEXT(seg2, list)) {
-			if (seg2->segno + 1 == seg->segno && !seg2->done &&
-			    (seg2->silono >= seg->silono) == higher &&
-			    chain_seg(aa, seg2, before - seg2->len)) {
-				emit_seg(aa, seg2, seg);
-				return (1);
+	for (other = 0; other < 2; other++) {
+		for (higher = 0; higher < 2; higher++) {
+			for (seg2 = VTAILQ_NEXT(seg, list);
+			    seg2 != NULL && seg2->segno + 1 >= seg->segno &&
+			    !strncmp(seg2->parent, seg->parent, aa->id_size);
+			    seg2 = VTAILQ_NEXT(seg2, list)) {
+				if (seg2->segno + 1 == seg->segno &&
+				    !seg2->done &&
+				    !!strcmp(seg2->date, seg->date) == other &&
+				    (seg2->silono >= seg->silono) == higher &&
+				    chain_seg(aa, seg2, before - seg2->len)) {
+					emit_seg(aa, seg2, seg);
+					return (1);
+				}
 			}
 		}
 	}
@@ -207,6 +214,7 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 {
 	const char *id;
 	const char *parent;
+	const char *date;
 	const char *tl;
 	struct seg *seg, *seg2;
 
@@ -233,6 +241,8 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 	nsegs++;
 	REPLACE(seg->id, id);
 	REPLACE(seg->parent, parent);
+	date = Header_Get(hdr, "WARC-Date");
+	REPLACE(seg->date, date == NULL ? "" : date);
 	seg->flg = flg;
 	seg->off = off;
 	seg->segno = segno;
-- 
2.43.0


From 82a6ca270ef3ba4c579f044a3d4b31fb62aa6339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:01 +0000
Subject: [PATCH 66/66] fix: reindex: do not confuse segments whose identifiers
 start alike

---
 main_reindex.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index a15c380..bd6dfe7 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -191,15 +191,21 @@ static int v_matchproto_(idx_iter_f)
 reindex_iter(void *priv, const char *key,
     uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
 {
+	const struct aardwarc *aa;
 	struct seg *seg, *seg2;
+	size_t len;
 
-	(void)silo;
-	(void)offset;
+	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
+	len = strlen(key);
+	if (len > aa->id_size)
+		len = aa->id_size;
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
-		if (!strncmp(key, seg->id, 16)) {
-			IDX_Insert(priv, seg->id, seg->flg, seg->silono,
+		/* The same record, not one which shares the start of its id */
+		if (seg->silono == (ssize_t)silo && seg->off == offset &&
+		    !strncasecmp(key, seg->id, len)) {
+			IDX_Insert(aa, seg->id, seg->flg, seg->silono,
 			    seg->off, cont);
 			seg->done++;
 			drop_seg(seg);
-- 
2.43.0

