"""A campaign of small changes: mutants.py [-o OUT] [-p] [ID...]

Each is (id, property, file, old text, new text).  For each, in a scratch
copy of /repo: apply, build, run the project's tests, run the property's
check; prints whether the tests and the check saw it.
"""
M = []


def m(id, prop, file, *subs):
    M.append((id, prop, file, subs))


# segjob.c -----------------------------------------------------------------
m("seg-total-only-last", "C06", "segjob.c",
  ('''			    "%jd", (intmax_t)sj->size);
			rid = NULL;''',
   '''			    "%jd", (intmax_t)(sj->size - (sj->nseg > 3)));
			rid = NULL;'''))
m("seg-half-out", "C01", "segjob.c",
  ("len = sj->gz->avail_out >> 1;", "len = sj->gz->avail_out;"))
m("seg-flush-thresh", "C06", "segjob.c",
  ("sj->gz->avail_out < 128 * 1024", "sj->gz->avail_out < 4 * 1024"))
m("seg-sha-order", "C03", "segjob.c",
  ('''		Ident_Set(sj->aa, sg->hdr, id, sj->ident);
		REPLACE(id, NULL);''',
   '''		Ident_Set(sj->aa, sg->hdr, id, NULL);
		REPLACE(id, NULL);'''))
m("seg-ident-single", "C02", "segjob.c",
  ("sg->segno == 1 ? sj->ident : NULL", "sj->nseg > 1 ? sj->ident : NULL"))
m("seg-pad-digits", "C06", "segjob.c",
  ('im = sj->size + sj->aa->silo_maxsize;\n\t\tpad += Header_Len("WARC-Segment-Total-Length", "0000%jd", im);',
   'im = sj->aa->silo_maxsize;\n\t\tpad += Header_Len("WARC-Segment-Total-Length", "%jd", im);'))
m("seg-commit-forward", "C15", "segjob.c",
  ("VTAILQ_FOREACH_REVERSE(sg, &sj->segments, seghead, list) {",
   "VTAILQ_FOREACH(sg, &sj->segments, list) {"))
m("seg-commit-forward-17", "C17", "segjob.c",
  ("VTAILQ_FOREACH_REVERSE(sg, &sj->segments, seghead, list) {",
   "VTAILQ_FOREACH(sg, &sj->segments, list) {"))
m("seg-dup-only-single", "C03", "segjob.c",
  ("	if (gj != NULL) {\n		GetJob_Delete(&gj);\n		fprintf(stderr, \"ID %s already",
   "	if (gj != NULL && GetJob_IsSegmented(gj) == (sj->nseg > 1)) {\n		GetJob_Delete(&gj);\n		fprintf(stderr, \"ID %s already"))
m("seg-size-len", "C04", "segjob.c",
  ('"%jd", (intmax_t)sg->size);', '"%jd", (intmax_t)(sg->size & 0xffffffff));'))
m("seg-outbuf-nocrnl", "C05", "segjob.c",
  ("sj->obuflen -= sizeof Gzip_crnlcrnl;", "sj->obuflen -= sizeof Gzip_crnlcrnl / 2;"))
# getjob.c -----------------------------------------------------------------
m("get-case-id", "C02", "getjob.c",
  ("if (strcasecmp(p, gj->id)) {\n			Header_Destroy",
   "if (strcmp(p, gj->id)) {\n			Header_Destroy"))
m("get-prefix-match", "C01", "getjob.c",
  ("if (strcasecmp(p, gj->id)) {\n			Header_Destroy",
   "if (strncasecmp(p, gj->id, 24)) {\n			Header_Destroy"))
m("get-segno-any", "C06", "getjob.c",
  ("if (segno != gjs->segno + 1) {", "if (segno <= gjs->segno) {"))
m("get-segno-any11", "C11", "getjob.c",
  ("if (segno != gjs->segno + 1) {", "if (segno <= gjs->segno) {"))
m("get-origin-short", "C06", "getjob.c",
  ("if (strncasecmp(p, gj->id, gj->aa->id_size)) {", "if (strncasecmp(p, gj->id, 8)) {"))
m("get-totlen-gz", "C19", "getjob.c",
  ("		sum += im;", "		sum = im;"))
m("get-warcinfo-keep", "C02", "getjob.c",
  ('''		gj->err = "ID is warcinfo segment";
		Header_Destroy(&hdr);
		Rsilo_Close(&rs);
		return (0);''', '''		gj->err = "ID is warcinfo segment";
		Header_Destroy(&hdr);
		Rsilo_Close(&rs);
		return (-1);'''))
m("get-cont-keep", "C06", "getjob.c",
  ('''			gj->err = "ID is continuation segment";
			Header_Destroy(&hdr);
			Rsilo_Close(&rs);
			return (0);''', '''			gj->err = "ID is continuation segment";
			Header_Destroy(&hdr);
			Rsilo_Close(&rs);
			return (-1);'''))
m("get-headers-digest", "C08", "getjob.c",
  ('Header_Set(hdr, "WARC-Block-Digest", "%s", p);', ';'))
m("get-no-digest", "C14", "main_get.c",
  ("assert(!strncmp(p, dig, aa->id_size));", "assert(!strncmp(p, dig, 8));"))
m("get-no-digest2", "C14", "main_get.c",
  ('''			assert(!strncmp(p, "sha256:", 7));
			p += 7;
			assert(!strncmp(p, dig, aa->id_size));''', '''			if (!strncmp(p, "sha256:", 7) && hdr1 == hdr9)
				assert(!strncmp(p + 7, dig, aa->id_size));'''))
m("get-o-append", "C01", "main_get.c", ('fopen(of, "w")', 'fopen(of, "r+")'),
  ('''		if (gp->dst == NULL) {
			fprintf(stderr, "Cannot open %s''', '''		if (gp->dst == NULL)
			gp->dst = fopen(of, "w");
		if (gp->dst == NULL) {
			fprintf(stderr, "Cannot open %s'''))
# gzip.c -------------------------------------------------------------------
m("gz-crc-order", "C07", "gzip.c",
  ("crc32_combine(gs->crc, crc, bytes)", "bytes < 65536 ? crc32_combine(gs->crc, crc, bytes) : crc32_combine(crc, gs->crc, gs->l_crc - bytes)"))
m("gz-tail-3", "C07", "gzip.c",
  ("gs->retval = gs->func(gs->priv, p, 3);", "gs->retval = gs->func(gs->priv, p, p[2] ? 3 : 2);"))
m("gz-inside-eq", "C07", "gzip.c",
  ("memcpy(gs->tailbuf + 13 - gs->gzlen, p, len);", "memcpy(gs->tailbuf, p, len);"))
m("gz-len16", "C07", "gzip.c",
  ("le32enc(gs->tailbuf + 9, gs->l_crc);", "le32enc(gs->tailbuf + 9, gs->l_crc & 0xffffff);"))
m("gz-aa-32", "C04", "gzip.c",
  ("le64enc(buf, (uint64_t)len);", "le64enc(buf, (uint64_t)(len & 0xffffff));"))
# rsilo.c ------------------------------------------------------------------
m("rs-err-break", "C14", "rsilo.c",
  ("		assert(i >= Z_OK);\n		if (zs->avail_out", "		if (i < Z_OK)\n			break;\n		j = 0;\n		if (zs->avail_out"))
m("rs-eof-break", "C14", "rsilo.c",
  ("			assert(i > 0);\n			zs->next_in", "			if (i <= 0)\n				break;\n			zs->next_in"),
  ("	int		i, j;\n\n	CHECK_OBJ_NOTNULL(rs, RSILO_MAGIC);\n	AN(func);\n	assert(rs->silo_where == RS_BODY);\n\n	memset",
   "	int		i, j = 0;\n\n	CHECK_OBJ_NOTNULL(rs, RSILO_MAGIC);\n	AN(func);\n	assert(rs->silo_where == RS_BODY);\n\n	memset"))
m("rs-gz-nolimit", "C07", "rsilo.c",
  ("		if (sz > rs->silo_bodylen)\n			sz = rs->silo_bodylen;\n",
   "		if (sz > rs->silo_bodylen + (ssize_t)sizeof Gzip_crnlcrnl)\n			sz = rs->silo_bodylen;\n"))
m("rs-crnl-skip", "C13", "rsilo.c",
  ("	assert(!memcmp(buf, Gzip_crnlcrnl, sizeof buf));\n", ""))
# index.c ------------------------------------------------------------------
m("idx-merge-12", "C09", "index.c",
  ("while (len > 0 && memcmp(rec, ptr, 32) == 0) {", "while (len > 0 && memcmp(rec, ptr, 12) == 0) {"))
m("idx-merge-28", "C09", "index.c",
  ("while (len > 0 && memcmp(rec, ptr, 32) == 0) {", "while (len > 0 && memcmp(rec, ptr, 28) == 0) {"))
m("idx-uniq-20", "C09", "index.c",
  ("!memcmp(ptr + n - 32, ptr + i, 32)", "!memcmp(ptr + n - 32, ptr + i, 20)"))
m("idx-bucket-b0", "C10", "index.c",
  ("	if (b > 0 && u + bp->buckets[b] > n) {", "	if (b > 0 && bp->buckets[b] == BUCKET_EMPTY) {"))
m("idx-empty-next", "C10", "index.c",
  ("			frac = ((uint64_t)bucket << 24) >> nbucket;\n", ""))
m("idx-empty-none", "C10", "index.c",
  ("while (off == BUCKET_EMPTY && ++bucket < (1L << nbucket)) {", "while (0) {"))
m("idx-nrec", "C10", "index.c",
  ("		nrec += ftello(f1) / 32;\n", "		nrec += ftello(f1) / 64;\n"))
m("idx-break-first", "C10", "index.c",
  ("				if (idf->sorted && j > 0)\n", "				if (j > 0)\n"))
m("idx-order", "C17", "index.c",
  ("	{ SUFF_APPENDIX,	0 },\n	{ SUFF_HOUSEKEEP,	0 },\n	{ SUFF_SORTED,		1 },",
   "	{ SUFF_SORTED,		1 },\n	{ SUFF_HOUSEKEEP,	0 },\n	{ SUFF_APPENDIX,	0 },"))
m("idx-noflock-house", "C17", "index.c",
  ("	AZ(flock(fd, LOCK_EX));\n\n	do {", "	do {"))
m("idx-unlink-early", "C15", "index.c",
  ("	AZ(flock(fd, LOCK_EX));\n\n	do {", "	AZ(flock(fd, LOCK_EX));\n	AZ(unlink(VSB_data(vsbh)));\n\n	do {"),
  ("	AZ(close(fd));\n	AZ(unlink(VSB_data(vsbh)));\n", "	AZ(close(fd));\n"))
m("idx-rename-first", "C15", "index.c",
  ("	i |= bucket_write(bp, f2);\n	i |= fclose(f2);\n	if (!i)\n		i = rename(VSB_data(vsb2), VSB_data(vsb1));",
   "	if (!i)\n		i = rename(VSB_data(vsb2), VSB_data(vsb1));\n	i |= bucket_write(bp, f2);\n	i |= fclose(f2);"))
m("idx-ferror", "C16", "index.c", ("		i |= ferror(f1);\n", ""))
m("idx-fclose", "C16", "index.c", ("	i |= fclose(f2);\n", "	(void)fclose(f2);\n"))
m("idx-fwrite", "C16", "index.c",
  ("	i |= bucket_write(bp, f2);\n", "	(void)bucket_write(bp, f2);\n"))
m("idx-openfail", "C16", "index.c",
  ("		assert(f != NULL || errno == ENOENT);\n", ""))
m("idx-link-retry", "C15", "index.c",
  ('''		fprintf(stderr,
		    "Merging that first...\\n");
		retval = 1;''', '''		fprintf(stderr,
		    "Merging that first...\\n");'''))
m("idx-sortsize-eq", "C09", "index.c",
  ("	} while (len == (ssize_t)aa->index_sort_size);", "	} while (len > (ssize_t)aa->index_sort_size);"))
m("idx-oddnibble", "C10", "index.c",
  ("if (key_part != NULL && strncasecmp(key, key_part, cl))", "if (key_part != NULL && strncmp(key, key_part, cl))"))
m("idx-first", "C10", "index.c",
  ("		if (off < first)\n			off = first;\n", "		if (off < 0)\n			off = first;\n"))
# wsilo.c ------------------------------------------------------------------
m("ws-space-check", "C05", "wsilo.c",
  ("		if (!(st.st_mode & S_IWUSR))\n			break;\n		if (st.st_size + need > aa->silo_maxsize)\n			break;\n\n		p = mmap",
   "		if (!(st.st_mode & S_IWUSR))\n			break;\n\n		p = mmap"))
m("ws-space-check17", "C17", "wsilo.c",
  ("		if (!(st.st_mode & S_IWUSR))\n			break;\n		if (st.st_size + need > aa->silo_maxsize)\n			break;\n\n		p = mmap",
   "		if (!(st.st_mode & S_IWUSR))\n			break;\n\n		p = mmap"))
m("ws-space-off", "C05", "wsilo.c",
  ("		if (st.st_size + need > aa->silo_maxsize)\n			break;\n\n		fnh", "		if (st.st_size + need > aa->silo_maxsize + 24)\n			break;\n\n		fnh"),
  ("		if (st.st_size + need > aa->silo_maxsize)\n			break;\n\n		p = mmap",
   "		if (st.st_size + need > aa->silo_maxsize + 24)\n			break;\n\n		p = mmap"))
m("ws-wprot-skip", "C05", "wsilo.c",
  ("			retval = -1;\n			break;\n		}\n\n		/*\n		 * The foll", "			retval = 0;\n		}\n\n		/*\n		 * The foll"),
  ("		if (!(st.st_mode & S_IWUSR))\n			break;\n		if (st.st_size + need", "		if (st.st_size + need"))
m("ws-hold-noexcl", "C17", "wsilo.c",
  ("fdh = open(VSB_data(fnh), O_WRONLY | O_CREAT | O_EXCL, 0640);", "fdh = open(VSB_data(fnh), O_WRONLY | O_CREAT, 0640);"))
m("ws-hold-noexcl2", "C17", "wsilo.c",
  ("fd = open(VSB_data(vsb2), O_RDWR | O_CREAT | O_EXCL, 0640);", "fd = open(VSB_data(vsb2), O_RDWR | O_CREAT, 0640);"))
m("ws-insert-first", "C15", "wsilo.c",
  ("	wsilo_link(sl);\n	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);\n",
   "	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);\n	wsilo_link(sl);\n"))
m("ws-insert-first17", "C17", "wsilo.c",
  ("	wsilo_link(sl);\n	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);\n",
   "	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);\n	wsilo_link(sl);\n"))
m("ws-short-ok", "C16", "wsilo.c",
  ("		if (s < 0 || (size_t)s != wlen) {", "		if (s < 0) {"))
m("ws-store-short", "C16", "wsilo.c", ("	assert(s == len);\n	sl->hold_len", "	assert(s > 0);\n	sl->hold_len"))
m("ws-rename", "C17", "wsilo.c",
  ("	AZ(link(VSB_data(sl->hold_fn), VSB_data(sl->silo_fn)));", "	AZ(unlink(VSB_data(sl->silo_fn)) && errno != ENOENT);\n	AZ(link(VSB_data(sl->hold_fn), VSB_data(sl->silo_fn)));"),
  ("	if (!stat(VSB_data(vsb), &st)) {\n		/* Somebody", "	if (0) {\n		/* Somebody"))
m("ws-cache-skip", "C05", "wsilo.c",
  ("if (silono == aa->cache_first_space_silo && ax < bx) {", "if (silono == aa->cache_first_space_silo && ax < need) {"))
m("ws-idx-meta", "C02", "wsilo.c",
  ('	if (s != NULL && !strcmp(s, "metadata"))\n		sl->idx |= IDX_F_METADATA;\n	if', '	if (s != NULL && !strcmp(s, "metadata"))\n		sl->idx |= IDX_F_RESOURCE;\n	if'))
m("ws-offset-noappend", "C17", "wsilo.c",
  ("fds = open(VSB_data(fn), O_WRONLY | O_APPEND);", "fds = open(VSB_data(fn), O_WRONLY);"))
m("ws-pad-5", "C04", "wsilo.c",
  ("Header_Set(sl->hd, PADDING_HEADER, \"%s\", p + 4);", "Header_Set(sl->hd, PADDING_HEADER, \"%s\", p + 4);\n		if (i == 6)\n			Header_Set(sl->hd, PADDING_HEADER, \"%s\", \"_\");"))
m("ws-abandon-keep", "C03", "wsilo.c",
  ("	AZ(unlink(VSB_data(sl->hold_fn)));\n	VSB_delete(sl->hold_fn);", "	if (sl->buf_ptr == NULL)\n		AZ(unlink(VSB_data(sl->hold_fn)));\n	VSB_delete(sl->hold_fn);"))
m("ws-off32", "C05", "wsilo.c", ("silono, need - s, NULL);", "silono, (uint32_t)(need - s), NULL);"))
m("gj-off32", "C01", "getjob.c", ("rs = Rsilo_Open(gj->aa, NULL, silo, offset);", "rs = Rsilo_Open(gj->aa, NULL, silo, (int)offset);"))
m("by-off32", "C10", "main_byid.c", ("	rs = Rsilo_Open(pp->aa, NULL, silo, offset);", "	rs = Rsilo_Open(pp->aa, NULL, silo, (int)offset);"))
m("fi-off32", "C12", "main_filter.c", ("	rs = Rsilo_Open(fp->aa, NULL, silo, offset);", "	rs = Rsilo_Open(fp->aa, NULL, silo, (unsigned)offset);"))
# header/ident/warcinfo ----------------------------------------------------
m("hd-date-Z", "C08", "header.c", ("%Y-%m-%dT%H:%M:%SZ\", &tm) == 20", "%G-%m-%dT%H:%M:%SZ\", &tm) == 20"))
m("id-meta-nonl", "C02", "ident.c",
  ('		SHA256_Update(sha256, "\\n", 1);\n		AN(SHA256_End', '		AN(SHA256_End'))
m("id-upper", "C02", "header.c",
  ("	REPLACE(hdr->warc_record_id, id);\n	assert(i >=", "	REPLACE(hdr->warc_record_id, id);\n	for (i = 0; id[i] != '\\0'; i++)\n		hdr->warc_record_id[i] = toupper(id[i]);\n	assert(i >="))
m("wi-title", "C22", "warcinfo.c",
  ('	if (!strcasecmp(name, "title:"))\n		return(0);\n', ''))
m("wi-noarg", "C22", "warcinfo.c",
  ('		VSB_printf(wi->body, " %s", arg);', '		VSB_printf(wi->body, "%s", arg);'))
m("wi-fmt", "C22", "warcinfo.c",
  ('		VSB_printf(wi->body, " %s", arg);', '		VSB_printf(wi->body, " "), VSB_printf(wi->body, arg, "");'))
# filter -------------------------------------------------------------------
m("fi-seg", "C12", "main_filter.c",
  ("	if ((flag & IDX_F_SEGMENTED) && !(flag & IDX_F_FIRSTSEG))\n		return (0);\n", ""))
m("fi-wi", "C12", "main_filter.c", ("	if (flag & IDX_F_WARCINFO)\n		return (0);\n", ""))
m("fi-last", "C12", "main_filter.c",
  ("if (next_cand == NULL || strcmp(key, fp->last) <= 0)", "if (next_cand == NULL || strcmp(key, fp->last) < 0)"))
m("fi-null", "C12", "main_filter.c",
  ("if (next_cand == NULL || strcmp(key, fp->last) <= 0)", "if (fp->last[0] == '\\0' || strcmp(key, fp->last) <= 0)"))
m("fi-removed", "C12", "main_filter.c",
  ("		next_cand = VTAILQ_NEXT(c, sortlist);\n		if (!s_flag", "		next_cand = VTAILQ_NEXT(c, sortlist);\n		if (next_cand == NULL)\n			next_cand = VTAILQ_FIRST(&sorted);\n		if (next_cand == c)\n			next_cand = NULL;\n		if (!s_flag"))
m("fi-scheck", "C12", "main_filter.c",
  ("	if (strcasecmp(p, key))\n		retval = 1;", "	if (strncasecmp(p, key, 24))\n		retval = 1;"))
m("fi-sort", "C12", "main_filter.c",
  ("if (c2 != NULL && strcmp(c2->id, c1->id) > 0)", "if (c2 != NULL && strncmp(c2->id, c1->id, 8) > 0)"))
# rebuild/reindex/audit/cgi ------------------------------------------------
m("rb-state20", "C18", "main_rebuild.c",
  ("			rb->rlen -= oz;\n			if (!rb->rlen)\n				rb->state = 0;", "			rb->rlen = 0;\n			if (!rb->rlen)\n				rb->state = 0;"))
m("rb-deflate-more", "C18", "main_rebuild.c",
  ("			rb->zs->avail_out = sizeof rb->obuf;", "			rb->zs->avail_out = sizeof rb->obuf / 64;"))
m("rb-z", "C18", "main_rebuild.c", ('			Header_Delete(rb->h, "z");\n', ''))
m("rb-multi", "C18", "main_rebuild.c",
  ("	VSB_clear(rb->vsb);\n	VSB_cat(rb->vsb, fn);", "	if (rb->fdo == 0)\n		VSB_clear(rb->vsb);\n	else\n		VSB_clear(rb->vsb);\n	VSB_cat(rb->vsb, silono > 99 ? strrchr(fn, '/') + 1 : fn);"))
m("ri-lastseg", "C11", "main_reindex.c",
  ("	if (tl != NULL)\n		flg |= IDX_F_LASTSEG;\n", "	if (tl != NULL && segno < 10)\n		flg |= IDX_F_LASTSEG;\n"))
m("ri-closest", "C11", "main_reindex.c",
  ("(seg2->silono >= seg->silono) == higher &&", "(seg2->silono < seg->silono) == higher &&"))
m("ri-iter16", "C11", "main_reindex.c",
  ("if (!strncmp(key, seg->id, 16)) {", "if (!strncmp(key, seg->id, 2)) {"))
m("ri-resort", "C11", "main_reindex.c",
  ("	return (IDX_Resort(aa) ? -1 : 0);", "	return (0);"))
m("ri-flag", "C11", "main_reindex.c",
  ('			flg = IDX_F_METADATA;', '			flg = IDX_F_RESOURCE;'))
m("ri-match-used", "C11", "main_reindex.c",
  ("if (seg2->segno == seg->segno && seg2->silono < seg->silono)\n			break;", "if (seg2->segno == seg->segno)\n			break;"))
m("ri-silono", "C11", "main_reindex.c",
  ("		silono = silo_number(aa, p);", "		silono = strtoul(p, NULL, 10);"))
m("au-gzlen", "C13", "main_audit.c",
  ("	if (ap->bodylen != (ap->o2 - ap->o1))", "	if (ap->bodylen < (ap->o2 - ap->o1))"))
m("au-payload", "C13", "main_audit.c",
  ('	audit_check_digest_header(err, ap0, "WARC-Payload-Digest", dig);\n', ''))
m("au-total", "C13", "main_audit.c",
  ('	audit_check_header(err, apn, "WARC-Segment-Total-Length", buf);\n', ''))
m("au-clen", "C13", "main_audit.c",
  ('	audit_check_header(err, ap, "Content-Length", buf);\n', '	if (Header_Get(ap->hdr, "WARC-Segment-Number") == NULL)\n		audit_check_header(err, ap, "Content-Length", buf);\n'))
m("au-ident-cont", "C13", "main_audit.c",
  ('	if (is == NULL || strcmp(is, "1"))', '	if (is == NULL)'))
m("au-metaid", "C13", "main_audit.c",
  ('	if (!strcmp(p, "metadata") && ignore_metadata_record_id)\n		return;', '	if (!strcmp(p, "metadata"))\n		return;'))
m("au-sametwice", "C13", "main_audit.c",
  ("		VTAILQ_REMOVE(&segment_list, apn, list);\n		p = Header_Get", "		if (apn->segment != 2)\n			VTAILQ_REMOVE(&segment_list, apn, list);\n		p = Header_Get"))
m("cgi-q0", "C19", "main_cgi.c",
  ('strtod(p + 2, NULL) > 0.', 'strtod(p + 2, NULL) >= 0.'))
m("cgi-xgzip", "C19", "main_cgi.c", ("		if (p == e)\n			return (1);", "		if (*p == '\\0')\n			return (1);"))
m("cgi-ct", "C19", "main_cgi.c", ('	hdr = GetJob_Header(gj, 1);', '	hdr = GetJob_Header(gj, 0);'))
m("cgi-ct-gz", "C19", "main_cgi.c", ('	o = GetJob_TotalLength(gj, gzip);', '	o = GetJob_TotalLength(gj, 0);'))
# stevedore/proto/stow -----------------------------------------------------
m("pr-256", "C21", "proto.c", ("	} else if (len < 256) {", "	} else if (len <= 256) {"))
m("pr-be8", "C21", "proto.c", ("		*len = u[1];\n", "		*len = u[1] & 0x7f;\n"))
m("pr-32", "C21", "proto.c", ("	*cmd = u[0] & 7;", "	*cmd = u[0] & 3;"))
m("sd-skip-reset", "C21", "main_stevedore.c", ("	jp->filter_skip = 0;\n	i = strlen", "	i = strlen"))
m("sd-40960", "C21", "main_stevedore.c", ("		if (++n == 40960)\n			break;", "		if (++n > 40960)\n			break;\n		if (n > 30)\n			break;"),
  ("	filter_job->filter_skip = n;", "	filter_job->filter_skip = n > 30 ? 30 : n;"))
m("sd-noclose", "C21", "main_stevedore.c",
  ("		if (meta_job != NULL)\n			AZ(close(meta_job->fd_to));\n", ""))
m("sd-order", "C21", "main_stevedore.c", ("			proto_ctl_ev(stdin_ev, 0);\n", ""))
m("sd-read8192", "C21", "main_stevedore.c",
  ("				i2 = write(store_job->fd_to, buf, i);", "				i2 = write(store_job->fd_to, buf, i < (int)sizeof buf ? i : i);\n				if (i == (int)sizeof buf && size == 0)\n					buf[0] = 0;"))
m("sd-fltid", "C21", "main_stevedore.c", ("	proto_out(1, PROTO_FILTER, line, g_aa->id_size);", "	proto_out(1, PROTO_FILTER, line, strlen(line));"))
m("st-empty", "C20", "main_stow.c", ("		if (pwd != NULL)\n", "		if (pwd == NULL)\n") ) if 0 else None
m("st-mtree-even", "C20", "main_stow.c", ("		else if ((p - e) & 1) {", "		else if (p != e) {"))
m("st-type", "C20", "main_stow.c", ('			else if (!strncmp(word, "type=", 5))\n				return;\n', ''))
m("st-set", "C20", "main_stow.c", ('			else if (!strcmp(word, "type=file"))\n				mtree_type_dir = 0;\n', ''))
m("st-vis", "C20", "main_stow.c",
  ("		assert(strnunvis(strchr(buf, '\\0'),\n		    sizeof buf, cp->filename) > 0);", "		strcat(buf, cp->filename);"))
m("st-visdir", "C20", "main_stow.c",
  ("		assert(strnunvis(buf, sizeof buf, cp->directory->dirname) > 0);", "		strcpy(buf, cp->directory->dirname);"))
m("st-changed-old", "C20", "main_stow.c",
  ('"\\t    \\"sha256:%s\\": \\"id:%s\\"",\n		    cp->digest, pp);', '"\\t    \\"sha256:%s\\": \\"id:%s\\"",\n		    pp, cp->digest);'))
m("st-changed-long", "C20", "main_stow.c", ("	} while (sz > 0);\n}", "	} while (sz == sizeof buf);\n	(void)fgetc(f);\n}") )
m("st-idsz", "C20", "main_stow.c", ("		if (j > sj->id_size)\n			j = sj->id_size;\n", ""))
m("st-len4", "C20", "main_stow.c", ("		while (u > 0) {", "		while (u > 1) {"))
m("st-metafirst", "C20", "main_stow.c", ("	if (cp == NULL && sj->meta != NULL && VTAILQ_EMPTY(&ack_list))", "	if (cp == NULL && sj->meta != NULL)"))
m("st-exit", "C20", "main_stow.c", ("	XXXAZ(st);\n	printf(\"MTREE END", "	printf(\"MTREE END"))
# config etc ---------------------------------------------------------------
m("cf-crlf", "C22", "config.c", ("			if (!isspace(*q))\n				r = q;", "			if (*q != ' ' && *q != '\\t')\n				r = q;"))
m("cf-hash", "C22", "config.c", ("		q = strchr(p, '#');", "		q = *p == '#' ? p : strstr(p, \" #\");"))
m("cf-dup", "C22", "config.c", ("				if (!strcasecmp(sc->name, p))\n					return", "				if (!strcmp(sc->name, p))\n					return"))
m("cf-mime", "C22", "config.c", ('if (strcmp(ent->name, "*") && strcasecmp(name, ent->name))', 'if (strcmp(ent->name, "*") && strncasecmp(name, ent->name, strlen(ent->name)))'))
m("cf-maxsize", "C22", "vnum.c", ("		case 'g': case 'G':\n			fval *= (uintmax_t)1 << 30;", "		case 'g': case 'G':\n			fval *= 1e9;"))
m("cf-exp", "C22", "vnum.c", ("	return (ms * m * pow(10., e + es * ee));", "	return (ms * m * pow(10., es * (e + ee)));"))
m("cf-256", "C22", "aardwarc.c", ("aa->id_size < 64 || aa->id_size > 256", "aa->id_size < 64 || aa->id_size >= 256"))
m("cf-mod4", "C22", "aardwarc.c", ("if (aa->id_size & 3) {", "if (aa->id_size & 1) {"))
m("si-hundred", "C25", "silo.c", ("	if (num >= 100U)\n", "	if (num > 100U)\n"))
m("si-iter-gap", "C25", "silo.c", ("			if (i && errno == ENOENT) {\n				VSB_delete(vsb);\n				continue;\n			}", "			if (i && errno == ENOENT) {\n				VSB_delete(vsb);\n				if (u % 100 == 99)\n					break;\n				continue;\n			}"))
m("si-lvl", "C25", "silo.c", ("		numpart(vsb, lvl + 1, num / 100U);", "		numpart(vsb, lvl + 1, (num / 100U) & 0xffff);"))
m("by-count", "C10", "main_byid.c", ("	return (privs->retval < 256 ? privs->retval : 255);", "	return (privs->retval & 0xff);"))
m("di-type", "C10", "main_dumpindex.c", ("	if (*u != 0 && !(flag & *u))", "	if (*u != 0 && (flag & 7) != *u)"))
m("mk-over", "C25", "main_mksilo.c", ("u >= UINT32_MAX", "u > UINT64_MAX - 1"))
m("mt-cntrl", "C23", "main_store.c", ("		if (iscntrl((unsigned char)*p))\n			break;\n", "		if (*p == '\\n')\n			break;\n"))

# second batch ------------------------------------------------------------
m("wi2-trunc", "C04", "warcinfo.c", ('" %s", arg);', '" %.200s", arg);'))
m("r2-half-page", "C07", "rsilo.c", ("zs->avail_in < 0", "zs->avail_in < 0")) if 0 else None
m("m2-mime-len", "C24", "main_store.c", ("p - mt > 512", "p - mt > 2000"))
m("m2-mime-len23", "C23", "main_store.c", ("p - mt > 512", "p - mt > 2000"))
m("au2-origin", "C13", "main_audit.c",
  ("if (strncmp(origin, oid, strlen(oid)))\n				continue;\n			origin += strlen(oid);",
   "if (strncmp(origin, oid, 8))\n				continue;\n			origin += strlen(oid);"))
m("au2-segno", "C13", "main_audit.c",
  ("if (apn->segment != ap->segment + 1)", "if (apn->segment <= ap->segment)"))
m("au2-prefix", "C13", "main_audit.c",
  ("			if (strncmp(aa->prefix, origin, strlen(aa->prefix)))\n				continue;\n", ""))
m("au2-sha-case", "C13", "main_audit.c",
  ('} else if (strcmp(is + 7, expect)) {', '} else if (strcasecmp(is + 7, expect)) {'))
m("au2-report-ret", "C13", "main_audit.c",
  ("				audit_report(NULL, ap);\n				return (-1);", "				audit_report(NULL, ap);\n				return (ap->segment > 2 ? 1 : -1);"))
m("cgi2-pathslash", "C19", "main_cgi.c", ("	if (*id == '/')\n		id++;", "	while (*id == '/')\n		id++;"))
m("cgi2-gzip-case", "C19", "main_cgi.c", ('if (strncasecmp(p, "gzip", 4))', 'if (strncmp(p, "gzip", 4))'))
m("cgi2-q", "C19", "main_cgi.c", ('strtod(p + 2, NULL) > 0.)', 'strtod(p + 2, NULL) > .1)'))
m("rb2-notrunc", "C18", "main_rebuild.c", ("O_RDWR | O_CREAT | O_TRUNC", "O_RDWR | O_CREAT"))
m("rb2-z", "C18", "main_rebuild.c", ('			Header_Delete(rb->h, "z");\n', ""))
m("rb2-clen", "C18", "main_rebuild.c", ('			Header_Delete(rb->h, "Content-Length-GZIP");\n', ""))
m("rb2-fix-rlen", "C18", "main_rebuild.c", ("			memcpy(rb->fixbuf + rb->rlen, ptr, oz);", "			memcpy(rb->fixbuf, ptr, oz);"))
m("rb2-trail", "C18", "main_rebuild.c", ("i != Z_OK || zs->total_in != 0 || rb->state != 0", "i != Z_OK || rb->state != 0"))
m("x2-chain-higher", "C11", "main_reindex.c", ("higher < 2", "higher < 1"))
m("x2-chain-higher15", "C15", "main_reindex.c", ("higher < 2", "higher < 1"))
m("x2-chain-order", "C11", "main_reindex.c", ("(seg2->silono >= seg->silono) == higher", "(seg2->silono < seg->silono) == higher"))
m("x2-chain-order15", "C15", "main_reindex.c", ("(seg2->silono >= seg->silono) == higher", "(seg2->silono < seg->silono) == higher"))
m("x2-try-drop", "C11", "main_reindex.c", ("		if (!seg->used)\n			try_seg(aa, seg);", "		if (0)\n			try_seg(aa, seg);"))
m("x2-iter8", "C11", "main_reindex.c", ("if (!strncmp(key, seg->id, 16)) {", "if (!strncmp(key, seg->id, 8)) {"))
m("x2-before", "C11", "main_reindex.c", ("		if (seg->total >= seg->len)\n			(void)chain_seg", "		if (seg->total > seg->len)\n			(void)chain_seg"))
m("x2-fail", "C11", "main_reindex.c", ("	seg->fail[seg->nfail++] = before;", "	seg->fail[seg->nfail++] = 0;"))
m("x2-warcinfo-flag", "C11", "main_reindex.c", ("			flg = IDX_F_WARCINFO;", "			flg = 0;"))
m("x2-segmeta", "C11", "main_reindex.c", ("	flg |= IDX_F_SEGMENTED;\n	if (segno > 1) {", "	flg = IDX_F_SEGMENTED;\n	if (segno > 1) {"))
m("x2-resort", "C11", "main_reindex.c", ("	return (IDX_Resort(aa) ? -1 : 0);", "	return (silono > 99 ? 0 : IDX_Resort(aa) ? -1 : 0);"))
m("x2-number", "C11", "main_reindex.c", ("		if (same || number < 0)", "		if (number < 0)"))
m("ws2-mkparent", "C17", "wsilo.c", ("		if (i < 0 && errno != EEXIST)\n			return (i);", "		if (i < 0)\n			return (i);"))
m("ws2-afterhold", "C17", "wsilo.c", ("	if (!stat(VSB_data(vsb), &st)) {\n		/* Somebody installed", "	if (0) {\n		/* Somebody installed"))
m("ws2-trunc", "C16", "wsilo.c", ("			AZ(ftruncate(fds, before));\n", ""))
m("ws2-idx-need", "C05", "wsilo.c", ("		need = lseek(fds, 0, SEEK_CUR);\n		assert(need > s);\n		IDX_Insert(aa, id, sl->idx, silono, need - s, NULL);",
  "		IDX_Insert(aa, id, sl->idx, silono, st.st_size, NULL);"))
m("ws2-wprot-first", "C05", "wsilo.c", ("			retval = -1;\n			break;", "			break;"))
m("ws2-warcinfo-idx", "C11", "wsilo.c", ("	IDX_Insert(aa,\n	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);\n	wsilo_delete(sl);\n}\n\nvoid\nWsilo_Abandon", "	if (!segd)\n		IDX_Insert(aa,\n	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);\n	wsilo_delete(sl);\n}\n\nvoid\nWsilo_Abandon"))
m("ws2-isreg", "C05", "wsilo.c", ("	vsb2 = Silo_Filename(aa, silono, 1);\n	AN(vsb2);\n\n	j =", "	if (silono > 99 && silono % 100 == 0 && 0)\n		return (NULL);\n	vsb2 = Silo_Filename(aa, silono, 1);\n	AN(vsb2);\n\n	j ="))
m("ws2-padhdr", "C06", "wsilo.c", ('		Header_Set(sl->hd, PADDING_HEADER, "%s", p + 4);', '		Header_Set(sl->hd, PADDING_HEADER, "%.900s", p + 4);'))
m("si2-level", "C25", "silo.c", ('	if (num >= 100U)\n', '	if (num >= 100U && lvl < 4)\n'))
m("si2-iter-stop", "C25", "silo.c", ("			if (i && errno == ENOENT) {\n				VSB_delete(vsb);\n				continue;", "			if (i && errno == ENOENT) {\n				VSB_delete(vsb);\n				if (u % 100 == 99)\n					break;\n				continue;"))
m("si2-notreg", "C25", "silo.c", ("		} else if (S_ISREG(st.st_mode)) {", "		} else {"))
m("bk2-b0", "C10", "index.c", ("	if (b > 0 && u + bp->buckets[b] > n) {", "	if (b > 0 && u + bp->buckets[b] > n + (n > 30000)) {"))
m("bk2-first", "C10", "index.c", ("		if (off < first)\n			off = first;\n", ""))
m("bk2-empty", "C10", "index.c", ("		while (off == BUCKET_EMPTY && ++bucket < (1L << nbucket)) {", "		while (off == BUCKET_EMPTY && ++bucket < (1L << nbucket) - 1) {"))
m("ix2-partial-trunc", "C16", "index.c", ("		AZ(ftruncate(fd, st.st_size));", "		(void)st;"))
m("ix2-lock", "C17", "index.c", ("	AZ(flock(fd, LOCK_EX));\n		AZ(fstat(fd, &st1));", "	AZ(fstat(fd, &st1));"))
m("ix2-recheck", "C17", "index.c", ("		else if (st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino)\n			return (fd);", "		else\n			return (fd);"))
m("ix2-cont", "C09", "index.c", ("		idx_key_bin(rec + 28, cont, 4);", "		idx_key_bin(rec + 28, cont, 3);"))
m("vl2-cr", "C12", "vlu.c", ("			if (*q == '\\n' || *q == '\\r')", "			if (*q == '\\n')"))
m("vl2-feed", "C12", "vlu.c", ("		if (u > l->bufl - l->bufp)\n			u = l->bufl - l->bufp;", "		if (u > l->bufl)\n			u = l->bufl;"))
m("vn2-cast", "C22", "vnum.c", ("	*r = (uintmax_t)round(fval);", "	*r = (uintmax_t)fval;"))
m("vn2-exp", "C22", "vnum.c", ("m * pow(10., e + es * ee)", "m * pow(10., es * ee)"))
m("vn2-pct", "C22", "vnum.c", ("		if (rel == 0)\n			return (err_abs_req);\n", ""))
m("cf2-case", "C22", "config.c", ('if (strcmp(ent->name, "*") && strcasecmp(name, ent->name))', 'if (strcmp(ent->name, "*") && strcmp(name, ent->name))'))
m("cf2-dup", "C22", "config.c", ("				if (!strcasecmp(sc->name, p))\n					return", "				if (!strcmp(sc->name, p))\n					return"))
m("cf2-star", "C22", "config.c", ('if (strcmp(ent->name, "*") && strcasecmp', 'if (strncmp(ent->name, "*", 1) && strcasecmp'))
m("cf2-colon", "C22", "config.c", ("if (r == NULL || r[1] != '\\0')", "if (r == NULL)"))
m("cf2-f5", "C22", "config.c", ("*p == 0xc1 || *p > 0xf4", "*p == 0xc1 || *p > 0xf5"))
m("cf2-e2big", "C22", "config.c", ("	if (sc->nentry != 1)\n		return (errno = E2BIG);", ""), ("	AZ(VTAILQ_NEXT(ent, list));\n", ""))
m("pr2-255", "C21", "proto.c", ("	} else if (len < 256) {", "	} else if (len < 255) {"))
m("pr2-254", "C21", "proto.c", ("	} else if (len < 256) {", "	} else if (len <= 256) {"))
m("pr2-cmd", "C21", "proto.c", ("	*cmd = u[0] & 7;", "	*cmd = u[0] & 3;"))
m("pr2-short", "C21", "proto.c", ("		for (j = 1; j < 5; j++) {\n			i = read(fd, u + j, 1);\n			if (i != 1)\n				return (-1);\n		}", "		i = read(fd, u + 1, 4);\n		if (i < 1)\n			return (-1);\n		(void)j;"))
m("pr2-enable", "C20", "proto.c", ("			if (ev->idx < 0 || !fds[ev->idx].revents)", "			if (ev->idx < 0 || !fds[ev->idx].revents || !ev->enable)"))
m("so2-ten", "C20", "main_stow.c", ("	for (i = 0; i < 10; i++) {", "	for (i = 0; i < 1000; i++) {"))
m("so2-backslash", "C20", "main_stow.c", ("		else if ((p - e) & 1) {", "		else if (p - e == 1) {"))
m("so2-pplen", "C20", "main_stow.c", ('	if (strncmp(cp->digest, pp, strlen(pp))) {\n		printf("CHANGED', '	if (strncmp(cp->digest, pp, 16)) {\n		printf("CHANGED'))
m("so2-empty", "C20", "main_stow.c", ('				    "27ae41e4649b934ca495991b7852b855"))\n					return;', '				    "27ae41e4649b934ca495991b7852b855"))\n					digest = NULL;'))
m("so2-target", "C20", "main_stow.c", ('	    "\\t\\"target\\": \\"%s\\",\\n", sj->job);', '	    "\\t\\"target\\": \\"%.8s\\",\\n", sj->job);')) if 0 else None
m("so2-metabuf", "C20", "main_stow.c", ("		sz = fread(buf, 1, sizeof buf, f);\n		if (sz > 0)", "		sz = fread(buf, 1, sizeof buf, f);\n		if (sz == sizeof buf || f != sj->changed)\n			proto_out(fd, PROTO_META, buf, sz);\n		else if (sz > 1)"))
m("so2-dirset", "C20", "main_stow.c", ("	int dir = mtree_type_dir;\n", "	int dir = 0;\n"))
m("so2-peek", "C20", "main_stow.c", ("		if (i > 0)\n			return;\n		assert(send_fd > 2);", "		if (i == sizeof buf)\n			return;\n		if (i > 0)\n			proto_out(fd, PROTO_DATA, NULL, 0);\n		assert(send_fd > 2);"))
m("sv2-batch", "C20", "main_stevedore.c", ("		if (++n == 40960)", "		if (++n == 100)"))
m("sv2-batch-lose", "C20", "main_stevedore.c", ("		if (++n == 40960)\n			break;", "		if (++n == 1000)\n			break;"), ("	job_end(jp);\n	if (!VTAILQ_EMPTY(&filter_queue))\n		start_filter();", "	job_end(jp);"))
m("sv2-skip", "C20", "main_stevedore.c", ("	filter_job->filter_skip = n;", "	filter_job->filter_skip = n > 1 ? n - 1 : n;"))
m("sv2-ref", "C20", "main_stevedore.c", ("	if (strlen(ref) > g_aa->id_size)\n		ref[g_aa->id_size] = '\\0';\n", ""))
m("sv2-close", "C20", "main_stevedore.c", ("		if (store_job != NULL)\n			AZ(close(store_job->fd_to));\n", ""))
m("sv2-order", "C20", "main_stevedore.c", ("			proto_ctl_ev(stdin_ev, 0);\n		} else {", "		} else {"))
m("sv2-nl", "C20", "main_stevedore.c", ("			fp->id[size] = '\\n';\n			fp->id[size + 1L] = '\\0';", "			fp->id[g_aa->id_size] = '\\n';\n			fp->id[g_aa->id_size + 1L] = '\\0';"))

M = [x for x in M if x]

if __name__ == "__main__":
    import json
    import os
    import re
    import shutil
    import subprocess
    import sys
    import tempfile
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    args = sys.argv[1:]
    out = None
    if "-o" in args:
        i = args.index("-o")
        out = args[i + 1]
        del args[i:i + 2]
    done = {}
    if out and os.path.exists(out):
        done = dict(l.split(" ", 1) for l in open(out))
    top = tempfile.mkdtemp(prefix="mut", dir="/dev/shm")
    try:
        for (id, prop, file, subs) in M:
            if args and id not in args and prop not in args or id in done:
                continue
            w = os.path.join(top, "w")
            shutil.rmtree(w, ignore_errors=True)
            subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
            p = os.path.join(w, file)
            s = open(p).read()
            ok = True
            for old, new in subs:
                if s.count(old) != 1:
                    ok = False
                s = s.replace(old, new)
            if not ok:
                res = "%s DOES-NOT-APPLY" % prop
            else:
                open(p, "w").write(s)
                b = open("/opt/vp/build.sh").read().replace("/repo", w)
                t = open("/opt/vp/test.sh").read().replace(
                    "bash /opt/vp/build.sh", "bash %s/b.sh" % top).replace(
                    "/repo", w)
                open(top + "/b.sh", "w").write(b)
                open(top + "/t.sh", "w").write(t)
                r = subprocess.run(["bash", top + "/b.sh"],
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                if r.returncode:
                    res = "%s DOES-NOT-BUILD %s" % (prop, r.stdout[-300:])
                else:
                    r = subprocess.run(["bash", top + "/t.sh",
                                        top + "/o.json"],
                                       stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT)
                    tl = r.stdout.decode().strip().split("\n")[-1]
                    r = subprocess.run(
                        ["./check", prop, "--no-shrink"], cwd=V,
                        env=dict(os.environ, AARDWARC_REPO=w),
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    o = r.stdout.decode(errors="replace")
                    v = [l for l in o.split("\n") if l.strip()]
                    res = "%s tests[%s] check[%s] %s" % (
                        prop, tl, {0: "QUIET", 1: "caught"}.get(
                            r.returncode, "rc%d" % r.returncode),
                        " | ".join(v[:3])[:260])
            print(id, res, flush=True)
            if out:
                with open(out, "a") as f:
                    f.write("%s %s\n" % (id, res))
    finally:
        shutil.rmtree(top)
