From f483dddc1e46c3cc5f328b13fe7c8eef5fab9860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 01/53] fix: keep alias characters in a-z past the 676th alias

---
 linker_aliases.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker_aliases.c b/linker_aliases.c
index 707c1ec..6b75e02 100644
--- a/linker_aliases.c
+++ b/linker_aliases.c
@@ -85,7 +85,7 @@ linker_aliases_create(struct config *cfg, struct strct *orig,
 		if (*offs >= 26 * 26)
 			c = asprintf(&a->alias, "_%c%c%c", 
 				(char)(*offs / 26 / 26) + 97,
-				(char)(*offs / 26) + 97,
+				(char)(*offs / 26 % 26) + 97,
 				(char)(*offs % 26) + 97);
 		else if (*offs >= 26)
 			c = asprintf(&a->alias, "_%c%c", 
-- 
2.43.0


From c699664567482761a359981d809fdc699cc2dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 02/53] fix: merge all roles when a field has several noexport
 role maps

---
 linker_resolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index ce2dc64..c0aacda 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -560,7 +560,7 @@ resolve_struct_rolemap_field(struct config *cfg,
 		/* Already specified! */
 
 		if (rdst != NULL)
-			return 1;
+			continue;
 
 		/* Source doesn't exist in destination. */
 
-- 
2.43.0


From 28d5295bf9a66ef33a3d6e43fd9c2b6171488c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 03/53] fix: don't let noexport of one field leak roles into
 all others

---
 linker_resolve.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/linker_resolve.c b/linker_resolve.c
index c0aacda..670740e 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -642,6 +642,8 @@ resolve_struct_rolemap_post_cover(struct config *cfg,
 /*
  * For "all" rolemaps, add the assigned roles to all possible operations
  * except for "noexport".
+ * For "noexport" rolemaps on all fields, add the assigned roles to all
+ * fields' own "noexport" role maps.
  * Returns zero on allocation failure, non-zero on success.
  */
 static int
@@ -651,6 +653,8 @@ resolve_struct_rolemap_post(struct config *cfg, struct struct_rolemap *r)
 	struct update	*u;
 	struct search	*s;
 
+	if (r->type == ROLEMAP_NOEXPORT && r->name == NULL)
+		return resolve_struct_rolemap_noexport(cfg, r) > 0;
 	if (r->type != ROLEMAP_ALL)
 		return 1;
 
@@ -742,6 +746,14 @@ resolve_struct_rolemap(struct config *cfg, struct struct_rolemap *r)
 			"search", r->name);
 		break;
 	case ROLEMAP_NOEXPORT:
+		/*
+		 * Defer "noexport" on all fields until all maps for
+		 * specific fields have been assigned: fields without
+		 * one will share the map, so it mustn't be changed by
+		 * merging in a specific field's roles.
+		 */
+		if (r->name == NULL)
+			return 1;
 		rc = resolve_struct_rolemap_noexport(cfg, r);
 		if (rc != 0)
 			return rc;
-- 
2.43.0


From 03892272ca4fae082ad617b49dca96e716b0c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 04/53] fix: order structures after all they embed, whatever
 the path

---
 linker.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/linker.c b/linker.c
index fd7534b..7b30e57 100644
--- a/linker.c
+++ b/linker.c
@@ -82,26 +82,26 @@ gen_errx(struct config *cfg,
 }
 
 /*
- * Recursively annotate our height from each node.
+ * Recursively annotate our height from each node, which is the length of
+ * the longest chain of references to it.
  * We only do this for FTYPE_STRUCT objects.
  */
 static void
-annotate(struct ref *ref, size_t height, size_t colour)
+annotate(struct ref *ref, size_t height)
 {
 	struct field	*f;
 	struct strct	*p;
 
 	p = ref->target->parent;
 
-	if (p->colour == colour)
+	if (p->height >= height)
 		return;
 
-	p->colour = colour;
-	p->height += height;
+	p->height = height;
 
 	TAILQ_FOREACH(f, &p->fq, entries)
 		if (FTYPE_STRUCT == f->type)
-			annotate(f->ref, height + 1, colour);
+			annotate(f->ref, height + 1);
 }
 
 /*
@@ -493,7 +493,7 @@ ort_parse_close(struct config *cfg)
 	struct field	 *f;
 	struct rolemap	 *rm;
 	struct search	 *srch;
-	size_t		  colour = 1, sz = 0, i = 0;
+	size_t		  sz = 0, i = 0;
 
 	if (TAILQ_EMPTY(&cfg->sq)) {
 		gen_errx(cfg, NULL, "no structures in configuration");
@@ -557,22 +557,16 @@ ort_parse_close(struct config *cfg)
 
 	/*
 	 * Now follow and order all outbound links for structs.
-	 * From the get-go, we don't descend into structures that we've
-	 * already coloured.
 	 * This establishes a "height" that we'll use when ordering our
-	 * structures in the header file.
+	 * structures in the header file: it is always more than that of
+	 * any structure referencing us.
 	 */
 
 	TAILQ_FOREACH(p, &cfg->sq, entries) {
 		sz++;
-		if (p->colour)
-			continue;
 		TAILQ_FOREACH(f, &p->fq, entries)
-			if (FTYPE_STRUCT == f->type) {
-				p->colour = colour;
-				annotate(f->ref, 1, colour);
-			}
-		colour++;
+			if (FTYPE_STRUCT == f->type)
+				annotate(f->ref, p->height + 1);
 	}
 	assert(sz > 0);
 
-- 
2.43.0


From 77568e2d17d25c65b259e7cb57957dc84f5d502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 05/53] fix: don't let documentation close the comment it's put
 into

---
 lang.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lang.c b/lang.c
index 15ad2b1..7cba78d 100644
--- a/lang.c
+++ b/lang.c
@@ -128,8 +128,8 @@ gen_enum_unique(FILE *f, int defn, const struct field *fd,
  * Generate a (possibly) multi-line comment with "tabs" number of
  * preceding tab spaces.
  * This uses the standard comment syntax as seen in this comment itself.
- * FIXME: make sure that text we're ommitting doesn't clobber the
- * comment epilogue, like having star-slash in the text of a C comment.
+ * If a block comment, any star-slash in the text is split by a space so
+ * as not to close the comment.
  */
 static int
 print_comment(FILE *f, const char *doc, size_t tabs, 
@@ -218,6 +218,15 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 				}
 			}
 
+			/* Don't let the text close a block comment. */
+
+			if (*cp == '/' && last == '*' &&
+			    strchr(in, '*') != NULL) {
+				if (fputc(' ', f) == EOF)
+					return 0;
+				curcol++;
+			}
+
 			if (fputc(*cp, f) == EOF)
 				return 0;
 			last = *cp;
@@ -262,12 +271,12 @@ gen_comment(FILE *f, size_t tabs, enum cmtt type, const char *cp)
 	/*
 	 * If we're a C comment and are sufficiently small, then print
 	 * us on a one-line comment block.
-	 * FIXME: make sure the comment doesn't have the end-of-comment
-	 * marker itself.
+	 * This mustn't contain the end-of-comment marker itself.
 	 */
 
 	if (type == COMMENT_C && cp != NULL && tabs >= 1 && 
-	    strchr(cp, '\n') == NULL && strlen(cp) < maxcol) {
+	    strchr(cp, '\n') == NULL && strstr(cp, "*/") == NULL &&
+	    strlen(cp) < maxcol) {
 		for (i = 0; i < tabs; i++) 
 			if (fputc('\t', f) == EOF)
 				return 0;
-- 
2.43.0


From 8f6edac477c5d00439d1a6577a2857397bae8892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 06/53] fix: emit limits and defaults of reals with full
 precision

---
 lang-c-source.c | 2 +-
 lang-json.c     | 4 ++--
 lang-nodejs.c   | 2 +-
 lang-sql.c      | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 077b475..23cbb41 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2027,7 +2027,7 @@ gen_valids_field(FILE *f,
 		break;
 	case FTYPE_REAL:
 		if (fprintf(f,
-		    "\tif (p->parsed.d %s %g)\n"
+		    "\tif (p->parsed.d %s %.17g)\n"
 		    "\t\treturn 0;\n",
 		    validbins[v->type], v->d.value.decimal) < 0)
 			return 0;
diff --git a/lang-json.c b/lang-json.c
index d45bf02..2ba106c 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -589,7 +589,7 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "\"%g\"", fd->def.decimal) < 0)
+			if (fprintf(f, "\"%.17g\"", fd->def.decimal) < 0)
 				return 0;
 			break;
 		case FTYPE_EMAIL:
@@ -631,7 +631,7 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "%g", 
+			if (fprintf(f, "%.17g", 
 			    fv->d.value.decimal) < 0)
 				return 0;
 			break;
diff --git a/lang-nodejs.c b/lang-nodejs.c
index 778be6d..e8a993b 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1646,7 +1646,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv %s %f))\n"
+			    "\t\t\tif (!(nv %s %.17g))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.decimal) < 0)
 				return 0;
diff --git a/lang-sql.c b/lang-sql.c
index 01a8315..26ec919 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -305,7 +305,7 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			rc = fprintf(f, "%" PRId64, fd->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = fprintf(f, "%g", fd->def.decimal);
+			rc = fprintf(f, "%.17g", fd->def.decimal);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
-- 
2.43.0


From ca53b3b268e6c7644ccf134333c131d046f3b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:06 +0000
Subject: [PATCH 07/53] fix: quote default strings in ALTER TABLE

---
 lang-sql.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lang-sql.c b/lang-sql.c
index 26ec919..ebebf83 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -263,6 +263,28 @@ ort_lang_sql(const struct ort_lang_sql *args,
 	return 1;
 }
 
+/*
+ * Emit "cp" as an SQL string literal: single quotes are doubled, and
+ * escaped double quotes lose their backslash.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_literal(FILE *f, const char *cp)
+{
+
+	if (fputc('\'', f) == EOF)
+		return 0;
+	for ( ; *cp != '\0'; cp++) {
+		if (*cp == '\\' && cp[1] == '"')
+			cp++;
+		if (*cp == '\'' && fputc('\'', f) == EOF)
+			return 0;
+		if (fputc(*cp, f) == EOF)
+			return 0;
+	}
+	return fputc('\'', f) != EOF;
+}
+
 /*
  * This is the ALTER TABLE version of the field generators in
  * gen_struct().
@@ -309,7 +331,7 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
-			rc = fprintf(f, "'%s'", fd->def.string);
+			rc = gen_literal(f, fd->def.string) ? 0 : -1;
 			break;
 		case FTYPE_ENUM:
 			rc = fprintf(f, "%" PRId64, 
-- 
2.43.0


From 93cef3c410ba67e671f49f4356d4f7f2d95e73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 08/53] fix: always produce valid JSON strings

---
 lang-json.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index 2ba106c..6096b6d 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -145,9 +145,19 @@ gen_string(FILE *f, const char *cp)
 		case '\t':
 			rc = fputs("\\t", f) != EOF;
 			break;
+		case '\\':
+			/* Double quotes are already escaped. */
+			if (cp[1] == '"')
+				cp++;
+			rc = fprintf(f, "\\%c", *cp) > 0;
+			break;
+		case '"':
+			rc = fputs("\\\"", f) != EOF;
+			break;
 		default:
 			if ((unsigned char)*cp < 32)
-				rc = fprintf(f, "\\u%.4u", *cp) > 0;
+				rc = fprintf(f, "\\u%.4x", 
+					(unsigned char)*cp) > 0;
 			else
 				rc = fputc(*cp, f) != EOF;
 		}
-- 
2.43.0


From 1143b03244393e8de04cb7af0def2065ce687d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 09/53] fix: don't swap lines and columns of JSON positions

---
 lang-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index 6096b6d..18c8933 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -256,7 +256,7 @@ gen_pos(FILE *f, const struct pos *pos)
 	if (!gen_string(f, pos->fname))
 		return 0;
 	return fprintf(f, ", \"line\": %zu, \"column\": %zu },", 
-		pos->column, pos->line) > 0;
+		pos->line, pos->column) > 0;
 }
 
 /*
-- 
2.43.0


From e0cbc93b9f7aa5afd15bdd6bed1fc8e355cb7624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 10/53] fix: don't crash on XLIFF files lacking required
 elements

---
 lang-xliff.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 66dc4ad..d83f691 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -305,7 +305,7 @@ xstart(void *dat, const XML_Char *s, const XML_Char **atts)
 			return;
 		}
 	} else if (strcmp(s, "trans-unit") == 0) {
-		if (p->set->trglang == NULL) {
+		if (p->set == NULL || p->set->trglang == NULL) {
 			xparse_err(p, "<trans-unit> not in <file>");
 			XML_StopParser(p->p, 0);
 			return;
@@ -466,8 +466,15 @@ xend(void *dat, const XML_Char *s)
 
 	XML_SetDefaultHandlerExpand(p->p, NULL);
 
+	/* 
+	 * Empty elements outside of their parents invoke us even if
+	 * we've been stopped on the opening. 
+	 */
+
+	if (p->curunit == NULL)
+		return;
+
 	if (strcmp(s, "trans-unit") == 0) {
-		assert(p->curunit != NULL);
 		if (p->curunit->source == NULL || 
 		    p->curunit->target == NULL) {
 			xparse_err(p, "missing <source> or "
@@ -477,12 +484,12 @@ xend(void *dat, const XML_Char *s)
 		}
 		p->curunit = NULL;
 	} else if (strcmp(s, "target") == 0) {
-		assert(p->curunit != NULL);
-		unescape(p->curunit->target);
+		if (p->curunit->target != NULL)
+			unescape(p->curunit->target);
 		p->type = 0;
 	} else if (strcmp(s, "source") == 0) {
-		assert(p->curunit != NULL);
-		unescape(p->curunit->source);
+		if (p->curunit->source != NULL)
+			unescape(p->curunit->source);
 		p->type = 0;
 	}
 }
@@ -536,6 +543,12 @@ xliff_read(struct msgq *mq, FILE *f,
 		return 0;
 	} while (!feof(f));
 
+	if (xp->set == NULL || xp->set->trglang == NULL) {
+		xparse_err(xp, "missing <xliff> or <file>");
+		xparse_free(xp);
+		return 0;
+	}
+
 	*ret = xp->set;
 	xp->set = NULL;
 	xparse_free(xp);
-- 
2.43.0


From 49886392cb2594fe7b9b5e40cd4a96509014b8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 11/53] fix: don't abort writing limits of bit-fields

---
 lang-json.c | 1 +
 writer.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lang-json.c b/lang-json.c
index 18c8933..2be3b90 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -633,6 +633,7 @@ gen_field(FILE *f, const struct field *fd)
 			return 0;
 		switch (fd->type) {
 		case FTYPE_BIT:
+		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
diff --git a/writer.c b/writer.c
index 7c3b094..e3b2e6e 100644
--- a/writer.c
+++ b/writer.c
@@ -281,6 +281,7 @@ parse_write_field(struct writer *w, const struct field *p)
 	TAILQ_FOREACH(fv, &p->fvq, entries) 
 		switch (p->type) {
 		case FTYPE_BIT:
+		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
-- 
2.43.0


From 6747be482c53f131119a6b4802f17370dfbfb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 12/53] fix: generate manpages for configurations without
 inserts

---
 lang-c-manpage.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 9073d25..24bc9bf 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -981,7 +981,7 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 		if (s->ins != NULL)
 			break;
 	if (s == NULL)
-		return 0;
+		return 1;
 
 	if (!syn && fputs(
 	    ".Ss Database inserts\n"
@@ -989,11 +989,11 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 	    "All functions return -1 on constraint failure or the new\n"
 	    "row identifier on success.\n"
 	    ".Bl -tag -width Ds\n", f) == EOF)
-		return -1;
+		return 0;
 
 	TAILQ_FOREACH(s, &cfg->sq, entries) 
 		if (s->ins != NULL && !gen_insert(f, s, syn))
-			return -1;
+			return 0;
 
 	if (!syn && fputs(".El\n", f) == EOF)
 		return 0;
-- 
2.43.0


From e7fc1b166b9e9dd7e40ce0af7a3fdb3a5a2a8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 13/53] fix: write dates and reals so they're read back as they
 were

---
 writer.c | 49 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/writer.c b/writer.c
index e3b2e6e..bdddc77 100644
--- a/writer.c
+++ b/writer.c
@@ -27,6 +27,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 
 #include "ort.h"
 
@@ -158,6 +159,41 @@ wprint(struct writer *w, const char *fmt, ...)
 	return len >= 0;
 }
 
+/*
+ * Write a date, which was parsed from a local calendar day.
+ * Returns zero on failure, non-zero otherwise.
+ */
+static int
+wdate(struct writer *w, int64_t v)
+{
+	time_t		 t = (time_t)v;
+	struct tm	*tm;
+
+	if ((tm = localtime(&t)) == NULL)
+		return 0;
+	return wprint(w, "%.4d-%.2d-%.2d", 
+		tm->tm_year + 1900, tm->tm_mon + 1, tm->tm_mday);
+}
+
+/*
+ * Write a real with the fewest decimals that parse as the same value.
+ * There's no syntax for exponents.
+ * Returns zero on failure (memory), non-zero otherwise.
+ */
+static int
+wreal(struct writer *w, double v)
+{
+	char	 buf[2048];
+	int	 prec;
+
+	for (prec = 0; prec <= 1074; prec++) {
+		snprintf(buf, sizeof(buf), "%.*f", prec, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+	return wputs(w, buf);
+}
+
 /*
  * Write a field/enumeration/whatever comment.
  * Returns zero on failure (memory), non-zero otherwise.
@@ -244,17 +280,20 @@ parse_write_field(struct writer *w, const struct field *p)
 	}
 	if (fl & FIELD_HASDEF) {
 		switch (p->type) {
+		case FTYPE_DATE:
+			rc = wputs(w, " default ") &&
+				wdate(w, p->def.integer);
+			break;
 		case FTYPE_BIT:
 		case FTYPE_BITFIELD:
-		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
 			rc = wprint(w, " default %" PRId64,
 				p->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = wprint(w, " default %g",
-				p->def.decimal);
+			rc = wputs(w, " default ") &&
+				wreal(w, p->def.decimal);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
@@ -290,8 +329,8 @@ parse_write_field(struct writer *w, const struct field *p)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (!wprint(w, " limit %s %g",
-			    vtypes[fv->type], fv->d.value.decimal))
+			if (!wprint(w, " limit %s ", vtypes[fv->type]) ||
+			    !wreal(w, fv->d.value.decimal))
 				return 0;
 			break;
 		case FTYPE_BLOB:
-- 
2.43.0


From 431ecca1d089c2768844ba9d2dd84acc271da107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 14/53] fix: escape quotes of joined translations

---
 writer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/writer.c b/writer.c
index bdddc77..c0e0fe1 100644
--- a/writer.c
+++ b/writer.c
@@ -663,6 +663,11 @@ parse_write_label(struct writer *w, const struct config *cfg,
 
 	while (*cp != '\0') {
 		if (!isspace((unsigned char)*cp)) {
+			/* Translations might not have escaped quotes. */
+			if (*cp == '"' && 
+			    (cp == p->label || cp[-1] != '\\') &&
+			    !wputc(w, '\\'))
+				return 0;
 			if (!wputc(w, *cp))
 				return 0;
 			cp++;
-- 
2.43.0


From e67e359e3ae5e2f9144e3f439764a0197b3c75d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 15/53] fix: show removed roles in difference output

---
 writer-diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer-diff.c b/writer-diff.c
index 4ea0f0e..4eb4d8d 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -984,7 +984,7 @@ ort_write_diff_roleq(FILE *f, const struct diffq *q, const struct diff *d)
 		case DIFF_ADD_ROLE:
 			rc = ort_write_role(f, 1, dd);
 			break;
-		case DIFF_DEL_EITEM:
+		case DIFF_DEL_ROLE:
 			rc = ort_write_role(f, 0, dd);
 			break;
 		case DIFF_MOD_ROLE:
-- 
2.43.0


From 2be0f41b6f8cea5e50396e21d58e94c6f5689157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 16/53] fix: reject duplicate update and delete names

---
 parser_struct.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser_struct.c b/parser_struct.c
index 4457f81..52944a2 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -915,7 +915,8 @@ parse_struct_unique(struct parse *p, struct strct *s)
 static void
 parse_struct_update(struct parse *p, struct strct *s, enum upt type)
 {
-	struct update	*up;
+	struct update	*up, *uu;
+	struct updateq	*uq;
 	struct uref	*ur;
 	char		*cp;
 
@@ -1075,6 +1076,14 @@ terms:
 				parse_errx(p, "expected term name");
 				return;
 			}
+			uq = up->type == UP_MODIFY ? &s->uq : &s->dq;
+			TAILQ_FOREACH(uu, uq, entries) {
+				if (uu == up || uu->name == NULL ||
+				    strcasecmp(uu->name, p->last.string))
+					continue;
+				parse_errx(p, "duplicate term name");
+				return;
+			}
 			free(up->name);
 			up->name = strdup(p->last.string);
 			if (NULL == up->name) {
-- 
2.43.0


From b678b487f8c6cee49b269aaa2aca9457d8b50c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 17/53] fix: don't overflow assigning enum values after a parse
 error

---
 parser_enum.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_enum.c b/parser_enum.c
index 6eb630a..be74604 100644
--- a/parser_enum.c
+++ b/parser_enum.c
@@ -197,6 +197,9 @@ parse_enum_data(struct parse *p, struct enm *e)
 			hasauto = 1;
 	}
 
+	if (PARSE_STOP(p))
+		return;
+
 	/*
 	 * If we have any values to assign automatically, do so here.
 	 * First we determine the greatest current value.
@@ -220,9 +223,6 @@ parse_enum_data(struct parse *p, struct enm *e)
 				ei->value = maxvalue++;
 	}
 
-	if (PARSE_STOP(p))
-		return;
-
 	if (parse_next(p) != TOK_SEMICOLON)
 		parse_errx(p, "expected semicolon");
 	else if (TAILQ_EMPTY(&e->eq))
-- 
2.43.0


From c0dd749358c3369cb885a6b7072921979ec281e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 18/53] fix: don't overflow on default date components

---
 parser_field.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser_field.c b/parser_field.c
index 003c690..44782c9 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -326,7 +326,8 @@ parse_field_info(struct parse *p, struct field *fd)
 				if (parse_next(p) != TOK_INTEGER) {
 					parse_errx(p, "expected year (integer)");
 					break;
-				} else if (p->last.integer > INT_MAX) {
+				} else if (p->last.integer < 0 ||
+				    p->last.integer > INT_MAX) {
 					parse_errx(p, "invalid year");
 					break;
 				}
@@ -337,7 +338,7 @@ parse_field_info(struct parse *p, struct field *fd)
 				} else if (p->last.integer >= 0) {
 					parse_errx(p, "invalid month");
 					break;
-				} else if (p->last.integer < INT_MIN) {
+				} else if (p->last.integer <= INT_MIN) {
 					parse_errx(p, "invalid month");
 					break;
 				}
@@ -348,7 +349,7 @@ parse_field_info(struct parse *p, struct field *fd)
 				} else if (p->last.integer >= 0) {
 					parse_errx(p, "invalid day");
 					break;
-				} else if (p->last.integer < INT_MIN) {
+				} else if (p->last.integer <= INT_MIN) {
 					parse_errx(p, "invalid day");
 					break;
 				}
-- 
2.43.0


From f460fa5b537c7ba862f0638679fb5ff2427585e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 19/53] fix: unlink roles from their own queue and test the
 default flag

---
 config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.c b/config.c
index 763d8c7..5383490 100644
--- a/config.c
+++ b/config.c
@@ -43,7 +43,7 @@ parse_free_field(struct field *p)
 	}
 	if (p->ref != NULL)
 		free(p->ref);
-	if (FIELD_HASDEF && 
+	if ((p->flags & FIELD_HASDEF) && 
 	    (FTYPE_TEXT == p->type ||
 	     FTYPE_EMAIL == p->type))
 		free(p->def.string);
@@ -377,7 +377,7 @@ ort_config_free(struct config *cfg)
 	}
 
 	while ((r = TAILQ_FIRST(&cfg->arq)) != NULL) {
-		TAILQ_REMOVE(&cfg->rq, r, allentries);
+		TAILQ_REMOVE(&cfg->arq, r, allentries);
 		parse_free_role(r);
 	}
 
-- 
2.43.0


From 8e7176198c29657523faca8b3da5d9d895e5ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 20/53] fix: compare each unique statement with all others

---
 linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker.c b/linker.c
index 7b30e57..8c56261 100644
--- a/linker.c
+++ b/linker.c
@@ -393,7 +393,7 @@ check_unique_unique(struct config *cfg, struct strct *s)
 					break;
 			}
 			if (nf != NULL)
-				break;
+				continue;
 			gen_errx(cfg, &u->pos, "duplicate "
 				"unique statements: %s:%zu:%zu",
 				uu->pos.fname, uu->pos.line,
-- 
2.43.0


From 3fe79df6e869e321b2090ac073d9e47b8f0bd282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 21/53] fix: don't use a role operation's name after reading
 beyond it

---
 parser_struct.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser_struct.c b/parser_struct.c
index 52944a2..d4df47f 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -1359,16 +1359,16 @@ parse_struct_roles(struct parse *p, struct strct *s)
 			goto cleanup;
 		} 
 
+		if (p->lasttype != TOK_SEMICOLON) {
+			parse_errx(p, "expected semicolon");
+			goto cleanup;
+		}
+
 		/* Assign all roles to the given operation. */
 
 		if (!rolemap_assign(p, s, 
 		    (const char *const *)ns, nsz, type, name))
 			goto cleanup;
-
-		if (p->lasttype != TOK_SEMICOLON) {
-			parse_errx(p, "expected semicolon");
-			goto cleanup;
-		}
 	}
 
 	if (!PARSE_STOP(p) && p->lasttype == TOK_RBRACE)
-- 
2.43.0


From fe8813cc7c67d3d90485259d31baa4a5d92bea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 22/53] fix: fail if the output couldn't be written

---
 cheader.c       |  3 ++-
 cmanpage.c      |  3 ++-
 csource.c       |  3 ++-
 javascript.c    |  3 ++-
 json.c          |  3 ++-
 lang-c-source.c | 11 ++++++-----
 main.c          |  3 ++-
 mainaudit.c     |  4 +++-
 maindiff.c      |  3 ++-
 nodejs.c        |  3 ++-
 rust.c          |  3 ++-
 sql.c           |  3 ++-
 sqldiff.c       |  3 ++-
 xliff.c         |  2 ++
 14 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/cheader.c b/cheader.c
index b83027f..d5cc458 100644
--- a/cheader.c
+++ b/cheader.c
@@ -110,7 +110,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_header(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_header(&args, cfg, stdout) &&
+		    fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/cmanpage.c b/cmanpage.c
index 16a2e20..9cd62f5 100644
--- a/cmanpage.c
+++ b/cmanpage.c
@@ -93,7 +93,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_manpage(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_manpage(&args, cfg, stdout) &&
+		    fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/csource.c b/csource.c
index 6400838..e16f7c9 100644
--- a/csource.c
+++ b/csource.c
@@ -168,7 +168,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_source(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_source(&args, cfg, stdout) &&
+		    fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/javascript.c b/javascript.c
index 5bddea4..eee6c0d 100644
--- a/javascript.c
+++ b/javascript.c
@@ -144,7 +144,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_javascript(cfg, &args, stdout)))
+		if (!(rc = ort_lang_javascript(cfg, &args, stdout) &&
+		    fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/json.c b/json.c
index 16178b9..758ddc3 100644
--- a/json.c
+++ b/json.c
@@ -81,7 +81,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_json(&args, cfg, stdout)))
+		if (!(rc = ort_lang_json(&args, cfg, stdout) &&
+		    fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/lang-c-source.c b/lang-c-source.c
index 23cbb41..8ec8c13 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -3090,11 +3090,12 @@ ort_lang_c_source(const struct ort_lang_c *args,
 				return 0;
 
 	TAILQ_FOREACH(p, &cfg->sq, entries)
-		gen_functions(f, cfg, p,
-			args->flags & ORT_LANG_C_JSON_KCGI,
-			args->flags & ORT_LANG_C_JSON_JSMN,
-			args->flags & ORT_LANG_C_VALID_KCGI,
-			args->flags & ORT_LANG_C_DB_SQLBOX, &fq);
+		if (!gen_functions(f, cfg, p,
+		    args->flags & ORT_LANG_C_JSON_KCGI,
+		    args->flags & ORT_LANG_C_JSON_JSMN,
+		    args->flags & ORT_LANG_C_VALID_KCGI,
+		    args->flags & ORT_LANG_C_DB_SQLBOX, &fq))
+			return 0;
 
 	while ((fd = TAILQ_FIRST(&fq)) != NULL) {
 		TAILQ_REMOVE(&fq, fd, entries);
diff --git a/main.c b/main.c
index 98fe232..2902611 100644
--- a/main.c
+++ b/main.c
@@ -74,7 +74,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_write_file(stdout, cfg)))
+		if (!(rc = ort_write_file(stdout, cfg) &&
+		    fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/mainaudit.c b/mainaudit.c
index 591dd14..23477d6 100644
--- a/mainaudit.c
+++ b/mainaudit.c
@@ -263,7 +263,9 @@ main(int argc, char *argv[])
 	}
 
 	audit_write(aq, verb);
-	rc = 1;
+	rc = fflush(stdout) != EOF && !ferror(stdout);
+	if (!rc)
+		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_auditq_free(aq);
diff --git a/maindiff.c b/maindiff.c
index bfec866..1b182d3 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -165,7 +165,8 @@ main(int argc, char *argv[])
 
 	if (!ort_write_diff_file(stdout, q, 
 	    (const char *const *)&argv[confst], confsz,
-	    (const char *const *)argv, dconfsz)) {
+	    (const char *const *)argv, dconfsz) ||
+	    fflush(stdout) == EOF) {
 		rc = -1;
 		warn(NULL);
 	}
diff --git a/nodejs.c b/nodejs.c
index 0463a41..488be3e 100644
--- a/nodejs.c
+++ b/nodejs.c
@@ -95,7 +95,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_nodejs(&args, cfg, stdout)))
+		if (!(rc = ort_lang_nodejs(&args, cfg, stdout) &&
+		    fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/rust.c b/rust.c
index 20ef3a9..4438505 100644
--- a/rust.c
+++ b/rust.c
@@ -79,7 +79,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_rust(&args, cfg, stdout)))
+		if (!(rc = ort_lang_rust(&args, cfg, stdout) &&
+		    fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/sql.c b/sql.c
index fc4cda4..4b6ff7d 100644
--- a/sql.c
+++ b/sql.c
@@ -76,7 +76,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_sql(NULL, cfg, stdout)))
+		if (!(rc = ort_lang_sql(NULL, cfg, stdout) &&
+		    fflush(stdout) != EOF))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/sqldiff.c b/sqldiff.c
index cbf2bea..82eb54f 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -150,7 +150,8 @@ main(int argc, char *argv[])
 		goto out;
 	}
 
-	if (!(rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq)))
+	if (!(rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq) &&
+	    fflush(stdout) != EOF))
 		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/xliff.c b/xliff.c
index ad30878..b8309cc 100644
--- a/xliff.c
+++ b/xliff.c
@@ -172,6 +172,8 @@ main(int argc, char *argv[])
 		break;
 	}
 
+	if (rc && fflush(stdout) == EOF)
+		rc = 0;
 	if (!rc)
 		warn(NULL);
 out:
-- 
2.43.0


From ca30b513697419a18dd6624e758dd899863d17c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 23/53] fix: always produce valid JSON strings in audits

---
 audit-json.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/audit-json.c b/audit-json.c
index 821a596..7a89bb2 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -210,9 +210,18 @@ print_doc(const char *cp)
 		case ('\t'):
 			fputs("\\t", stdout);
 			break;
+		case ('\\'):
+			/* Double quotes are already escaped. */
+			if (*cp == '"')
+				cp++;
+			printf("\\%c", cp[-1]);
+			break;
+		case ('"'):
+			fputs("\\\"", stdout);
+			break;
 		default:
 			if ((unsigned char)c < 32)
-				printf("\\u%.4u", c);
+				printf("\\u%.4x", (unsigned char)c);
 			else
 				fputc(c, stdout);
 			break;
@@ -514,7 +523,9 @@ main(int argc, char *argv[])
 	}
 
 	gen_audit_json(cfg, aq, r, standalone);
-	rc = 1;
+	rc = fflush(stdout) != EOF && !ferror(stdout);
+	if (!rc)
+		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_auditq_free(aq);
-- 
2.43.0


From 84659a65457e6090c07e894275d622eab9b5f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 24/53] fix: report failure to write SQL differences

---
 lang-sql.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lang-sql.c b/lang-sql.c
index ebebf83..871fc26 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -572,8 +572,6 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 	if (errors)
 		goto out;
 
-	rc = -1;
-
 	/*
 	 * Make sure we do all additions now, as we might end up
 	 * referencing these later.  Start with structures (which fields
-- 
2.43.0


From ae4f1f6192f57a2f269d05e14b44171ee66f7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 25/53] fix: deny operations without roles in Node.js output

When roles are enabled, operations to which no role is assigned may not
be used by any role, but ort-nodejs let every role do so.
---
 lang-nodejs.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index e8a993b..d3d6775 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -168,26 +168,31 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 
 /*
  * Recursively generate all roles allowed by this rolemap.
+ * If roles are enabled but there's no rolemap, no role is allowed.
  * Return <0 on failure, >0 if we wrote something, 0 otherwise.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
 	const struct rref	*rr;
 
-	if (rm == NULL)
+	if (TAILQ_EMPTY(&cfg->rq))
 		return 0;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
-		return 0;
+		return -1;
+	if (rm == NULL)
+		return fputs("\t\tdefault:\n"
+		     "\t\t\tprocess.abort();\n"
+		     "\t\t}\n", f) != EOF ? 1 : -1;
 	TAILQ_FOREACH(rr, &rm->rq, entries)
 		if (!gen_role(f, rr->role, 2))
-			return 0;
+			return -1;
 
 	return fputs("\t\t\tbreak;\n"
 	     "\t\tdefault:\n"
 	     "\t\t\tprocess.abort();\n"
-	     "\t\t}\n", f) != EOF;
+	     "\t\t}\n", f) != EOF ? 1 : -1;
 }
 
 /*
@@ -461,7 +466,7 @@ gen_insert(FILE *f, const struct strct *p)
 	    "\n", p->name) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, p->ins->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, p->cfg, p->ins->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -730,7 +735,7 @@ gen_update(FILE *f, const struct config *cfg,
 	    num) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, up->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, up->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1144,7 +1149,7 @@ gen_query(FILE *f, const struct config *cfg,
 	    "\t\tstmt.raw(true);\n"
 	    "\n", s->parent->name, num) < 0)
 		return 0;
-	if ((rc = gen_rolemap(f, s->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, s->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
-- 
2.43.0


From e2a272e6ce02b7767d99e91e27b2cc0409cd6fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 26/53] fix: let Node.js roles change into none

As documented, and as in the C output, any role may change into none.
---
 lang-nodejs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index d3d6775..97affaa 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2058,7 +2058,11 @@ gen_ortctx_dbrole(FILE *f, const struct config *cfg)
 	    "\t\tif (this.#role === 'none')\n"
 	    "\t\t\tprocess.abort();\n"
 	    "\t\tif (newrole === 'all')\n"
-	    "\t\t\tprocess.abort();\n\n", f) == EOF)
+	    "\t\t\tprocess.abort();\n"
+	    "\t\tif (newrole === 'none') {\n"
+	    "\t\t\tthis.#role = newrole;\n"
+	    "\t\t\treturn;\n"
+	    "\t\t}\n\n", f) == EOF)
 		return 0;
 
 	/* All possible descents from current into encompassed role. */
-- 
2.43.0


From 6b8fb18b23bcf7308b5e37421523e3e6c0a8ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 27/53] fix: emit a case for the all role without sub-roles

If no role is declared, ort-nodejs produced a switch statement with a
break before any case.
---
 lang-nodejs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 97affaa..57d9662 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -144,6 +144,8 @@ gen_var(FILE *f, size_t pos, size_t col, const struct field *fd)
 
 /*
  * Generate role name (if not all) and recursively descend.
+ * The "all" role is only named if it has no sub-roles, as there must be
+ * at least one case before the statements following this.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -152,7 +154,7 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 	const struct role	*rr;
 	size_t			 i;
 
-	if (strcmp(r->name, "all")) {
+	if (strcmp(r->name, "all") || TAILQ_EMPTY(&r->subrq)) {
 		for (i = 0; i < tabs; i++)
 			if (fputc('\t', f) == EOF)
 				return 0;
-- 
2.43.0


From 2ee4b8b2ac799dc6950cacf2cdf4d1fa40501785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 28/53] fix: compare the languages of labels by name in
 ort-diff

---
 diff.c | 49 +++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/diff.c b/diff.c
index 01827f0..debaa69 100644
--- a/diff.c
+++ b/diff.c
@@ -82,10 +82,12 @@ ort_check_rolemap_roles(const struct rolemap *from,
 
 /*
  * Make sure that the queue of labels contains the same data.
+ * Languages are compared by name, as each configuration numbers its own.
  * Return zero if dissimilar, non-zero if similar.
  */
 static int
-ort_check_labels(const struct labelq *from, const struct labelq *into)
+ort_check_labels(const struct config *cfrom, const struct labelq *from, 
+	const struct config *cinto, const struct labelq *into)
 {
 	size_t	 		 fromsz = 0, intosz = 0;
 	const struct label	*linto, *lfrom;
@@ -103,7 +105,8 @@ ort_check_labels(const struct labelq *from, const struct labelq *into)
 
 	TAILQ_FOREACH(lfrom, from, entries) {
 		TAILQ_FOREACH(linto, into, entries) {
-			if (linto->lang != lfrom->lang)
+			if (strcasecmp(cinto->langs[linto->lang],
+			    cfrom->langs[lfrom->lang]))
 				continue;
 			if (strcmp(linto->label, lfrom->label))
 				continue;
@@ -220,7 +223,8 @@ ort_check_comment(const char *from, const char *into)
  */
 static int
 ort_diff_bitidx(struct diffq *q,
-	const struct bitidx *ifrom, const struct bitidx *iinto)
+	const struct config *cfrom, const struct bitidx *ifrom, 
+	const struct config *cinto, const struct bitidx *iinto)
 {
 	struct diff	*d;
 	enum difftype	 type = DIFF_SAME_BITIDX;
@@ -244,7 +248,8 @@ ort_diff_bitidx(struct diffq *q,
 		type = DIFF_MOD_BITIDX;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_BITIDX_LABELS)) == NULL)
 			return -1;
 		d->bitidx_pair.from = ifrom;
@@ -436,7 +441,8 @@ ort_diff_field(struct diffq *q,
  */
 static int
 ort_diff_eitem(struct diffq *q,
-	const struct eitem *ifrom, const struct eitem *iinto)
+	const struct config *cfrom, const struct eitem *ifrom, 
+	const struct config *cinto, const struct eitem *iinto)
 {
 	struct diff	*d;
 	enum difftype	 type = DIFF_SAME_EITEM;
@@ -468,7 +474,8 @@ ort_diff_eitem(struct diffq *q,
 		type = DIFF_MOD_EITEM;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_EITEM_LABELS)) == NULL)
 			return -1;
 		d->eitem_pair.from = ifrom;
@@ -488,7 +495,8 @@ ort_diff_eitem(struct diffq *q,
  */
 static int
 ort_diff_bitf(struct diffq *q,
-	const struct bitf *efrom, const struct bitf *einto)
+	const struct config *cfrom, const struct bitf *efrom, 
+	const struct config *cinto, const struct bitf *einto)
 {
 	const struct bitidx	*ifrom, *iinto;
 	struct diff		*d;
@@ -504,7 +512,8 @@ ort_diff_bitf(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->bq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_bitidx(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_bitidx
+		    (q, cfrom, ifrom, cinto, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_BITF;
@@ -533,10 +542,10 @@ ort_diff_bitf(struct diffq *q,
 		type = DIFF_MOD_BITF;
 	}
 
-	if (!ort_check_labels
-	     (&efrom->labels_unset, &einto->labels_unset) ||
-	    !ort_check_labels
-	     (&efrom->labels_null, &einto->labels_null)) {
+	if (!ort_check_labels(cfrom, &efrom->labels_unset,
+	     cinto, &einto->labels_unset) ||
+	    !ort_check_labels(cfrom, &efrom->labels_null,
+	     cinto, &einto->labels_null)) {
 		d = diff_alloc(q, DIFF_MOD_BITF_LABELS);
 		if (d == NULL)
 			return 0;
@@ -1281,7 +1290,8 @@ ort_diff_strct(struct diffq *q,
  */
 static int
 ort_diff_enm(struct diffq *q,
-	const struct enm *efrom, const struct enm *einto)
+	const struct config *cfrom, const struct enm *efrom, 
+	const struct config *cinto, const struct enm *einto)
 {
 	const struct eitem	*ifrom, *iinto;
 	struct diff		*d;
@@ -1297,7 +1307,8 @@ ort_diff_enm(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->eq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_eitem(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_eitem
+		    (q, cfrom, ifrom, cinto, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_ENM;
@@ -1325,8 +1336,8 @@ ort_diff_enm(struct diffq *q,
 		type = DIFF_MOD_ENM;
 	}
 
-	if (!ort_check_labels
-	    (&efrom->labels_null, &einto->labels_null)) {
+	if (!ort_check_labels(cfrom, &efrom->labels_null,
+	    cinto, &einto->labels_null)) {
 		if ((d = diff_alloc(q, DIFF_MOD_ENM_LABELS)) == NULL)
 			return 0;
 		d->enm_pair.from = efrom;
@@ -1362,7 +1373,8 @@ ort_diff_bitfs(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_BITF)) == NULL)
 				return 0;
 			d->bitf = einto;
-		} else if (!ort_diff_bitf(q, efrom, einto))
+		} else if (!ort_diff_bitf
+		    (q, from, efrom, into, einto))
 			return 0;
 	}
 
@@ -1612,7 +1624,8 @@ ort_diff_enms(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_ENM)) == NULL)
 				return 0;
 			d->enm = einto;
-		} else if (!ort_diff_enm(q, efrom, einto))
+		} else if (!ort_diff_enm
+		    (q, from, efrom, into, einto))
 			return 0;
 	}
 
-- 
2.43.0


From 58aa26efd76ebc332b9ef5f57eb00319f16645e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:57 +0000
Subject: [PATCH 29/53] fix: refuse upgrades adding a row identifier to a table

---
 lang-sql.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lang-sql.c b/lang-sql.c
index 871fc26..28feb27 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -360,6 +360,16 @@ gen_check_fields(struct msgq *mq, const struct diffq *q, int destruct)
 
 	TAILQ_FOREACH(d, q, entries) {
 		switch (d->type) {
+		case DIFF_ADD_FIELD:
+
+			/* SQLite can't add a primary key column. */
+
+			if (!(d->field->flags & FIELD_ROWID))
+				break;
+			gen_warnx(mq, &d->field->pos, 
+				"rowid column was added");
+			errors++;
+			break;
 		case DIFF_DEL_FIELD:
 			if (destruct || d->field->type == FTYPE_STRUCT)
 				break;
-- 
2.43.0


From 4516f4f881bf7bc42977883ed51db4096aa98e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:22 +0000
Subject: [PATCH 30/53] fix: terminate comments ending in a newline

A documentation comment ending in a newline left the line with the
comment marker open, so what follows -- e.g., a column in the SQL
schema -- became part of the comment.
---
 lang.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang.c b/lang.c
index 7cba78d..19de64a 100644
--- a/lang.c
+++ b/lang.c
@@ -233,9 +233,9 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 			curcol++;
 		}
 
-		/* Newline-terminate. */
+		/* Newline-terminate (a last newline has a marker after it). */
 
-		if (last != '\n' && fputc('\n', f) == EOF)
+		if (fputc('\n', f) == EOF)
 			return 0;
 	}
 
-- 
2.43.0


From 9f4b5b936c4424124bf4a9510ce416e4ebe37cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:22 +0000
Subject: [PATCH 31/53] fix: bind the right parameters in C iterators checking
 passwords

---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 8ec8c13..66e74ca 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -527,8 +527,8 @@ gen_iterator(FILE *f, const struct config *cfg,
 				idx, pos, sent->op);
 			if (c < 0)
 				return 0;
-			pos += (size_t)c;
-			idx++;
+			idx += (size_t)c;
+			pos++;
 		}
 
 	/* Prepare and step. */
-- 
2.43.0


From e0c7eadd706177e13a4fd4504632a3ef44a8856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 32/53] fix: let Node.js roles change only into ancestor roles

---
 lang-nodejs.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 57d9662..0cad3c6 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1986,9 +1986,9 @@ gen_alias_builder(FILE *f, const struct strct *p)
 }
 
 /*
- * Generate all of the possible transitions from the given role into all
- * possible roles, then all of the transitions from the roles "beneath"
- * the current role.
+ * Generate all of the possible transitions from the given role, which
+ * are into its ancestors (except for "all"), then all of the
+ * transitions from the roles "beneath" the current role.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -2000,8 +2000,9 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 	    "\t\t\tswitch(newrole) {\n", r->name) < 0)
 		return 0;
 
-	if (!gen_role(f, r, 3))
-		return 0;
+	for (rr = r; strcmp(rr->name, "all"); rr = rr->parent)
+		if (fprintf(f, "\t\t\tcase '%s':\n", rr->name) < 0)
+			return 0;
 	if (fputs("\t\t\t\tthis.#role = newrole;\n"
 	    "\t\t\t\treturn;\n"
 	    "\t\t\tdefault:\n"
@@ -2067,7 +2068,7 @@ gen_ortctx_dbrole(FILE *f, const struct config *cfg)
 	    "\t\t}\n\n", f) == EOF)
 		return 0;
 
-	/* All possible descents from current into encompassed role. */
+	/* All possible ascents from current into ancestor role. */
 
 	if (fputs("\t\tswitch (this.#role) {\n"
 	    "\t\tcase 'default':\n"
-- 
2.43.0


From ecc6df1c9f97e0c48ba2181bfb7101e28dba6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 33/53] fix: let roles in C change into ROLE_none

---
 lang-c-source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index 66e74ca..21b447e 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1143,6 +1143,10 @@ gen_func_role_transitions(FILE *f, const struct config *cfg)
 	    "\t\treturn;\n"
 	    "\tif (ctx->role == ROLE_none)\n"
 	    "\t\tabort();\n"
+	    "\tif (r == ROLE_none) {\n"
+	    "\t\tctx->role = r;\n"
+	    "\t\treturn;\n"
+	    "\t}\n"
 	    "\n"
 	    "\tswitch (ctx->role) {\n"
 	    "\tcase ROLE_default:\n"
-- 
2.43.0


From 25af08948b5c49f581307e5623d09f82c57f7bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 34/53] fix: bind the reference's type when looking up null
 references

---
 lang-c-source.c | 51 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 21b447e..919453b 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1669,6 +1669,42 @@ gen_unfill_r(FILE *f, const struct strct *p)
 	return fputs("}\n\n", f) != EOF;
 }
 
+/*
+ * Bind the (non-null) source of a reference to the parameter that looks
+ * up its target in gen_reffind().
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_reffind_bind(FILE *f, const struct field *fd)
+{
+
+	if (fputs("\t\tmemset(&parm, 0, sizeof(parm));\n", f) == EOF)
+		return 0;
+	if (fprintf(f, "\t\tparm.type = %s;\n",
+	    bindtypes[fd->type]) < 0)
+		return 0;
+
+	switch (fd->type) {
+	case FTYPE_BIT:
+	case FTYPE_BITFIELD:
+	case FTYPE_DATE:
+	case FTYPE_EPOCH:
+	case FTYPE_INT:
+		return fprintf(f, "\t\tparm.%s = ORT_GET_%s_%s(p);\n",
+		    bindvars[fd->type], fd->parent->name, fd->name) > 0;
+	case FTYPE_BLOB:
+		if (fprintf(f,
+		    "\t\tparm.sz = p->%s_sz;\n", fd->name) < 0)
+			return 0;
+		break;
+	default:
+		break;
+	}
+
+	return fprintf(f, "\t\tparm.%s = p->%s;\n",
+	    bindvars[fd->type], fd->name) > 0;
+}
+
 /*
  * If a structure has possible null foreign keys, we need to fill in the
  * null keys after the lookup has taken place IFF they aren't null.
@@ -1714,10 +1750,13 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 	TAILQ_FOREACH(fd, &p->fq, entries) {
 		if (fd->type != FTYPE_STRUCT)
 			continue;
-		if ((fd->ref->source->flags & FIELD_NULL))
-			if (fprintf(f, "\tif (p->has_%s) {\n"
-			    "\t\tparm.type = SQLBOX_PARM_INT;\n"
-			    "\t\tparm.iparm = ORT_GET_%s_%s(p);\n"
+		if ((fd->ref->source->flags & FIELD_NULL)) {
+			if (fprintf(f, "\tif (p->has_%s) {\n",
+			    fd->ref->source->name) < 0)
+				return 0;
+			if (!gen_reffind_bind(f, fd->ref->source))
+				return 0;
+			if (fprintf(f,
 			    "\t\tif (!sqlbox_prepare_bind_async\n"
 			    "\t\t    (db, 0, STMT_%s_BY_UNIQUE_%s, 1, &parm, 0))\n"
 			    "\t\t\texit(EXIT_FAILURE);\n"
@@ -1728,14 +1767,12 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 			    "\t\t\texit(EXIT_FAILURE);\n"
 			    "\t\tp->has_%s = 1;\n"
 			    "\t}\n",
-			    fd->ref->source->name,
-			    fd->ref->source->parent->name,
-			    fd->ref->source->name,
 			    fd->ref->target->parent->name,
 			    fd->ref->target->name,
 			    fd->ref->target->parent->name,
 			    fd->name, fd->name) < 0)
 				return 0;
+		}
 		if (!(fd->ref->target->parent->flags &
 		    STRCT_HAS_NULLREFS))
 			continue;
-- 
2.43.0


From 89683564926289b98ec9c2817ee42b3706fa49bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 35/53] fix: let the default role look up null references in C

---
 lang-c-source.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index 919453b..84d5821 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -814,6 +814,7 @@ gen_roles(FILE *f, const struct config *cfg, const struct strct *p)
 	/*
 	 * FIXME: only do this if the role needs access to this, which
 	 * needs to be figured out by a recursive scan.
+	 * This includes the default role, which isn't beneath "all".
 	 */
 
 	TAILQ_FOREACH(fd, &p->fq, entries)
@@ -823,6 +824,10 @@ gen_roles(FILE *f, const struct config *cfg, const struct strct *p)
 				return -1;
 			if (!gen_role_stmt_all(f, cfg, buf))
 				return -1;
+			if (fprintf(f, "\tif (!sqlbox_role_hier_stmt"
+			    "(hier, ROLE_default, %s))\n"
+			    "\t\tgoto err;\n", buf) < 0)
+				return -1;
 			shown++;
 			free(buf);
 		}
-- 
2.43.0


From a5833f537c50478f959902fbaf32da482d315f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 36/53] fix: check several passwords in C searches without a
 stale object

---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 84d5821..3c87b60 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1400,11 +1400,11 @@ gen_search(FILE *f, const struct config *cfg,
 			pos++;
 			continue;
 		}
-		if (fputs("\t\tif ", f) == EOF)
+		if (fputs("\t\tif (p != NULL && ", f) == EOF)
 			return 0;
 		if (!gen_checkpass(f, 1, pos, sent))
 			return 0;
-		if (fprintf(f, " {\n"
+		if (fprintf(f, ") {\n"
 		    "\t\t\tdb_%s_free(p);\n"
 		    "\t\t\tp = NULL;\n"
 		    "\t\t}\n",
-- 
2.43.0


From 5b550fbcbf1b4ab67b15cae554616e3b78eebb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:02 +0000
Subject: [PATCH 37/53] fix: check limits of e-mails and blobs in Node.js
 validators

---
 lang-nodejs.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 0cad3c6..05653d1 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1613,7 +1613,19 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 
 	switch (fd->type) {
 	case FTYPE_BLOB:
-		if (fputs("\t\t\treturn Buffer.from(v);\n", f) == EOF)
+		if (TAILQ_EMPTY(&fd->fvq))
+			return fputs("\t\t\treturn "
+				"Buffer.from(v);\n", f) != EOF;
+		if (fputs("\t\t\tconst nv: Buffer = "
+		    "Buffer.from(v);\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn nv;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_TEXT:
@@ -1636,8 +1648,18 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		    ("\t\t\tif (!validator.isEmail(v.trim()))\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst em: string|false = \n"
-		     "\t\t\t\tvalidator.normalizeEmail(v.trim());\n"
-		     "\t\t\treturn typeof(em) === 'string' ? "
+		     "\t\t\t\tvalidator.normalizeEmail(v.trim());\n", 
+		     f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (typeof(em) === 'string' && "
+			    "!(em.length %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs
+		    ("\t\t\treturn typeof(em) === 'string' ? "
 		     "em : null;\n", f) == EOF)
 			return 0;
 		return 1;
-- 
2.43.0


From 2bc63e60a19a1b195c63c68b5e5730df40f0b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 38/53] fix: validate string lengths in bytes in Node.js

---
 lang-nodejs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 05653d1..52edf80 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1636,7 +1636,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\tif (!(Buffer.byteLength(nv) %s %zu))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.len) < 0)
 				return 0;
@@ -1654,7 +1654,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
 			    "\t\t\tif (typeof(em) === 'string' && "
-			    "!(em.length %s %zu))\n"
+			    "!(Buffer.byteLength(em) %s %zu))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.len) < 0)
 				return 0;
-- 
2.43.0


From b9465839b10f7d9bb6dee61f20af7c756b9137f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 39/53] fix: escape quotes of concatenation statements in
 Node.js

---
 lang.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lang.c b/lang.c
index 19de64a..3509453 100644
--- a/lang.c
+++ b/lang.c
@@ -992,7 +992,8 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				 */
 
 				if ((ur->field->flags & FIELD_NULL)) {
-					if (fprintf(f, 
+					if (fprintf(f, lang == LANG_JS ?
+					    "COALESCE(%s,\\'\\')" : 
 					    "COALESCE(%s,'')",
 					    ur->field->name) < 0)
 						return 0;
-- 
2.43.0


From e319609a97c6376917e9e6944656716966b0bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 40/53] fix: count distinct rows with a valid statement

---
 lang.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lang.c b/lang.c
index 3509453..b102d9f 100644
--- a/lang.c
+++ b/lang.c
@@ -627,12 +627,14 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		/* 
 		 * Juggle around the possibilities of...
 		 *   select count(*)
-		 *   select count(distinct --gen_sql_stmt_schema--)
+		 *   select count(*) from (select distinct
+		 *     --gen_sql_stmt_schema-- ...)
 		 *   select --gen_sql_stmt_schema--
 		 */
 
 		if (s->type == STYPE_COUNT) {
-			if ((rc = fprintf(f, "COUNT(")) < 0)
+			if ((rc = fprintf(f, "COUNT(*)%s", s->dst ?
+			    " FROM (SELECT " : "")) < 0)
 				return 0;
 			col += (size_t)rc;
 		}
@@ -651,14 +653,10 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			    p, 1, p, NULL, &col))
 				return 0;
 			needquot = 1;
-		} else
-			if (fputc('*', f) == EOF)
-				return 0;
+		}
 
 		if (needquot && fprintf(f, "%s%c", spacer, delim) < 0)
 			return 0;
-		if (s->type == STYPE_COUNT && fputc(')', f) == EOF)
-			return 0;
 		if (fprintf(f, " FROM %s", p->name) < 0)
 			return 0;
 
@@ -673,7 +671,8 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
 			(s->type != STYPE_SEARCH && s->limit > 0) ||
-			(s->type != STYPE_SEARCH && s->offset > 0);
+			(s->type != STYPE_SEARCH && s->offset > 0) ||
+			(s->type == STYPE_COUNT && s->dst);
 		
 		nc = 0;
 		if (!gen_sql_stmt_join
@@ -807,6 +806,9 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		if (STYPE_SEARCH != s->type && s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
+		if (s->type == STYPE_COUNT && s->dst && 
+		    fputc(')', f) == EOF)
+			return 0;
 		if (fputc(delim, f) == EOF)
 			return 0;
 		if (lang == LANG_RUST && fputs("; }", f) == EOF)
-- 
2.43.0


From 114ab37c6a2fbc87150ed6fd5607829c5306768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:42 +0000
Subject: [PATCH 41/53] fix: apply offsets to searches and not to counts

---
 lang.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lang.c b/lang.c
index b102d9f..02565fd 100644
--- a/lang.c
+++ b/lang.c
@@ -671,7 +671,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
 			(s->type != STYPE_SEARCH && s->limit > 0) ||
-			(s->type != STYPE_SEARCH && s->offset > 0) ||
+			s->offset > 0 ||
 			(s->type == STYPE_COUNT && s->dst);
 		
 		nc = 0;
@@ -800,10 +800,12 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				return 0;
 		}
 
-		if (STYPE_SEARCH != s->type && s->limit > 0 &&
+		if ((STYPE_SEARCH != s->type || s->offset > 0) && 
+		    s->limit > 0 &&
 		    fprintf(f, " LIMIT %" PRId64, s->limit) < 0)
 			return 0;
-		if (STYPE_SEARCH != s->type && s->offset > 0 &&
+		if ((STYPE_COUNT != s->type || s->dst) && 
+		    s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
 		if (s->type == STYPE_COUNT && s->dst && 
-- 
2.43.0


From cbaf21eb82135657c1c3fcf4f3eed280cbe91697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 42/53] fix: don't repeat roles when not exporting fields in C

---
 lang-c-source.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 3c87b60..f7a1325 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -254,6 +254,25 @@ gen_role(FILE *f, const struct role *r)
 	return 1;
 }
 
+/*
+ * Whether "role" descends from another role in "rm", in which case
+ * gen_role() on the latter already accounts for it.
+ * Return non-zero if it does, zero otherwise.
+ */
+static int
+has_ancestor(const struct rolemap *rm, const struct role *role)
+{
+	const struct rref	*rs;
+	const struct role	*r;
+
+	for (r = role->parent; r != NULL; r = r->parent)
+		TAILQ_FOREACH(rs, &rm->rq, entries)
+			if (rs->role == r)
+				return 1;
+
+	return 0;
+}
+
 /*
  * Fill an individual field from the database in gen_fill().
  * Return zero on failure, non-zero on success.
@@ -2193,7 +2212,8 @@ gen_json_out_field(FILE *f,
 		    "(p->priv_store)) {\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(rs, &fd->rolemap->rq, entries)
-			if (!gen_role(f, rs->role))
+			if (!has_ancestor(fd->rolemap, rs->role) &&
+			    !gen_role(f, rs->role))
 				return 0;
 		if (!gen_comment(f, 2, COMMENT_C,
 		    "Don't export field to noted roles."))
-- 
2.43.0


From 3f910cf02beb0785e6295a89546dc9a7a8fe50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 43/53] fix: only look up null references of structures filled
 in C

---
 lang-c-source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index f7a1325..e18f664 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2771,7 +2771,7 @@ gen_functions(FILE *f, const struct config *cfg, const struct strct *p,
 			return 0;
 		if (!gen_unfill_r(f, p))
 			return 0;
-		if (!gen_reffind(f, cfg, p))
+		if (fd != NULL && !gen_reffind(f, cfg, p))
 			return 0;
 		if (!gen_free(f, p))
 			return 0;
-- 
2.43.0


From ed84f3d09d55e28262298321407e0e74373666c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 44/53] fix: fail if ort-xliff couldn't write its output

---
 xliff.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xliff.c b/xliff.c
index b8309cc..38e0d62 100644
--- a/xliff.c
+++ b/xliff.c
@@ -172,9 +172,9 @@ main(int argc, char *argv[])
 		break;
 	}
 
-	if (rc && fflush(stdout) == EOF)
-		rc = 0;
-	if (!rc)
+	if (rc > 0 && fflush(stdout) == EOF)
+		rc = -1;
+	if (rc <= 0)
 		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
@@ -195,7 +195,7 @@ out:
 
 	free(confs);
 	free(args.in);
-	return !rc;
+	return rc <= 0;
 usage:
 	fprintf(stderr, 
 		"usage: %s [-c] -j [config...] -x [xliff...]\n"
-- 
2.43.0


From efd20de2e040ef06a473a133ab519002f45e25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 45/53] fix: escape backslashes and line breaks of labels in
 JavaScript

---
 lang-javascript.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index a43de9a..becd38b 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -71,8 +71,10 @@ static	const char *types[FTYPE__MAX] = {
 };
 
 /*
- * Escape JavaScript string literal.
- * This escapes backslashes and single apostrophes.
+ * Print a label within a single-quoted JavaScript string.
+ * Quotes are escaped in the label itself: all other backslashes and line
+ * breaks are part of its text.
+ * Return zero on failure, non-zero on success.
  */
 static int
 gen_label_text(FILE *f, const char *cp)
@@ -85,6 +87,18 @@ gen_label_text(FILE *f, const char *cp)
 			if (fputs("\\\'", f) == EOF)
 				return 0;
 			break;
+		case '\\':
+			if (*cp != '"' && fputs("\\\\", f) == EOF)
+				return 0;
+			break;
+		case '\n':
+			if (fputs("\\n", f) == EOF)
+				return 0;
+			break;
+		case '\r':
+			if (fputs("\\r", f) == EOF)
+				return 0;
+			break;
 		default:
 			if (fputc(c, f) == EOF)
 				return 0;
-- 
2.43.0


From d387265e26b5cd1dfd65f5f9e6e4bd2d18820ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 46/53] fix: escape attributes of XLIFF output

---
 lang-xliff.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index d83f691..ad121d7 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -823,7 +823,7 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	const struct eitem 	*ei;
 	const struct bitf	*b;
 	const struct bitidx	*bi;
-	char			*sbuf = NULL, *tbuf = NULL;
+	char			*sbuf = NULL, *tbuf = NULL, *nbuf = NULL;
 	struct msgq		 tmpq = TAILQ_HEAD_INITIALIZER(tmpq);
 
 	if ((p = XML_ParserCreate(NULL)) == NULL)
@@ -867,15 +867,27 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	rc = -1;
 	qsort(x->u, x->usz, sizeof(struct xliffunit), xliffunit_sort);
 
+	if ((tbuf = escape(x->trglang)) == NULL ||
+	    (sbuf = escape(x->srclang)) == NULL ||
+	    (nbuf = escape(x->original)) == NULL)
+		goto out;
+
 	if (fprintf(f, 
 	    "<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
 	    "\t<file target-language=\"%s\" source-language=\"%s\" "
 	    "original=\"%s\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", x->trglang, x->srclang, x->original) < 0)
+            "\t\t<body>\n", tbuf, sbuf, nbuf) < 0)
 		goto out;
 
+	free(sbuf);
+	free(tbuf);
+	free(nbuf);
+	sbuf = tbuf = nbuf = NULL;
+
 	for (i = 0; i < x->usz; i++) {
+		if ((nbuf = escape(x->u[i].name)) == NULL)
+			goto out;
 		if ((sbuf = escape(x->u[i].source)) == NULL)
 			goto out;
 		if (x->u[i].target != NULL &&
@@ -889,14 +901,14 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t\t<target>%s</target>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf, sbuf) < 0)
+			    nbuf, sbuf, sbuf) < 0)
 				goto out;
 		} else if (tbuf == NULL) {
 			if (fprintf(f, 
 			    "\t\t\t<trans-unit id=\"%s\">\n"
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf) < 0)
+			    nbuf, sbuf) < 0)
 				goto out;
 		} else {
 			if (fprintf(f, 
@@ -904,12 +916,13 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t\t<target>%s</target>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf, tbuf) < 0)
+			    nbuf, sbuf, tbuf) < 0)
 				goto out;
 		}
 		free(sbuf);
 		free(tbuf);
-		sbuf = tbuf = NULL;
+		free(nbuf);
+		sbuf = tbuf = nbuf = NULL;
 	}
 
 	if (fputs("\t\t</body>\n\t</file>\n</xliff>\n", f) == EOF)
@@ -919,6 +932,7 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 out:
 	free(sbuf);
 	free(tbuf);
+	free(nbuf);
 	xparse_xliff_free(x);
 	XML_ParserFree(p);
 	if (mq == &tmpq)
@@ -1004,12 +1018,18 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 	 * Escape all '<' and '&' as '&lt;' and '&amp;'.
 	 */
 
-	if (fprintf(f, "<xliff version=\"1.2\" "
+	if ((buf = escape(cfg->fnamesz ? cfg->fnames[0] : "")) == NULL)
+		goto out;
+	rc = fprintf(f, "<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
 	    "\t<file source-language=\"TODO\" original=\"%s\" "
 	    "target-language=\"TODO\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", cfg->fnamesz ? cfg->fnames[0] : "") < 0)
+            "\t\t<body>\n", buf);
+	free(buf);
+	if (rc < 0) {
+		rc = 0;
 		goto out;
+	}
 
 	for (i = 0; i < ssz; i++) {
 		rc = 0;
-- 
2.43.0


From 22245a0b9d9435c16d3b679cdb8a8bb87ff8a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 47/53] fix: don't write escapes of ort(5) quotes into XLIFF

---
 lang-xliff.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index ad121d7..93dff60 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -377,9 +377,33 @@ xstart(void *dat, const XML_Char *s, const XML_Char **atts)
 	}
 }
 
+/*
+ * See if a string of an XLIFF file is that of a label, whose quotes are
+ * always escaped (they needn't be in XLIFF files).
+ * Return zero if not the same, non-zero if the same.
+ */
+static int
+same(const char *s, const char *label)
+{
+
+	for (;;) {
+		if (s[0] == '\\' && s[1] == '"')
+			s++;
+		if (label[0] == '\\' && label[1] == '"')
+			label++;
+		if (*s != *label)
+			return 0;
+		if (*s == '\0')
+			return 1;
+		s++;
+		label++;
+	}
+}
+
 /*
  * XML-escape the given string.
  * This only considers the five predefined XML escapes.
+ * Removes the backslash of quotes escaped in ort(5) labels.
  * Return NULL on memory failure.
  */
 static char *
@@ -406,7 +430,9 @@ escape(const char *s)
 
 	for (i = count = 0; i < sz; i++) {
 		buf[count] = '\0';
-		if ('<' == s[i])
+		if ('\\' == s[i] && '"' == s[i + 1])
+			continue;
+		else if ('<' == s[i])
 			count = strlcat(buf, "&lt;", bufsz);
 		else if ('&' == s[i])
 			count = strlcat(buf, "&amp;", bufsz);
@@ -600,7 +626,7 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 	/* Look up what we want to translate in the database. */
 
 	for (i = 0; i < x->usz; i++)
-		if (strcmp(x->u[i].source, l->label) == 0)
+		if (same(x->u[i].source, l->label))
 			break;
 
 	if (i == x->usz && type == NULL) {
@@ -694,7 +720,7 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 	/* Look up what we want to translate in the database. */
 
 	for (i = 0; i < x->usz; i++)
-		if (strcmp(x->u[i].source, l->label) == 0)
+		if (same(x->u[i].source, l->label))
 			break;
 
 	if (i == x->usz) {
-- 
2.43.0


From 96a36ebbd385984f3eda6f5ddbd52032de115577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 48/53] fix: refuse translations which configurations cannot
 hold

---
 lang-xliff.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 93dff60..b187a24 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -21,6 +21,7 @@
 #endif
 
 #include <assert.h>
+#include <ctype.h>
 #include <expat.h>
 #include <limits.h> /* INT_MAX */
 #include <stdarg.h>
@@ -654,6 +655,14 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 
 	assert(targ != NULL);
 
+	/* There's no way to write this in a configuration. */
+
+	if (targ[0] != '\0' && targ[strlen(targ) - 1] == '\\') {
+		ort_msg(mq, MSGTYPE_ERROR, 0, pos, 
+			"translation ends in a backslash");
+		return 0;
+	}
+
 	/* 
 	 * We have what we want to translate, now make sure that we're
 	 * not overriding an existing translation.
@@ -806,6 +815,25 @@ xliff_join_single(struct config *cfg, int copy,
 
 	assert(x->trglang != NULL);
 
+	/* Languages are lower-case identifiers in configurations. */
+
+	pos.fname = fn;
+	pos.line = pos.column = 0;
+
+	for (i = 0; x->trglang[i] != '\0'; i++) {
+		if (!isalpha((unsigned char)x->trglang[i]) &&
+		    (i == 0 || !isdigit((unsigned char)x->trglang[i])))
+			break;
+		x->trglang[i] = (char)
+			tolower((unsigned char)x->trglang[i]);
+	}
+	if (i == 0 || x->trglang[i] != '\0') {
+		ort_msg(mq, MSGTYPE_ERROR, 0, &pos, 
+			"malformed target-language: %s", x->trglang);
+		xparse_xliff_free(x);
+		return 0;
+	}
+
 	for (i = 0; i < cfg->langsz; i++)
 		if (strcmp(cfg->langs[i], x->trglang) == 0)
 			break;
@@ -821,8 +849,6 @@ xliff_join_single(struct config *cfg, int copy,
 			return -1;
 		cfg->langsz++;
 	} else {
-		pos.fname = fn;
-		pos.line = pos.column = 0;
 		ort_msg(mq, MSGTYPE_WARN, 0, &pos, 
 			"language \"%s\" already noted", x->trglang);
 	}
-- 
2.43.0


From 72e9ae8cc94803b1eb003024c687b83d8f3eed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 49/53] fix: only unescape ort(5) quotes of labels in XLIFF

---
 lang-xliff.c | 61 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index b187a24..85c3f3c 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -379,32 +379,51 @@ xstart(void *dat, const XML_Char *s, const XML_Char **atts)
 }
 
 /*
- * See if a string of an XLIFF file is that of a label, whose quotes are
- * always escaped (they needn't be in XLIFF files).
+ * Copy a label without the backslashes escaping its double quotes.
+ * Return NULL on memory failure.
+ */
+static char *
+unquote(const char *s)
+{
+	char	*buf, *cp;
+
+	if ((buf = cp = malloc(strlen(s) + 1)) == NULL)
+		return NULL;
+
+	for ( ; *s != '\0'; s++)
+		if (s[0] != '\\' || s[1] != '"')
+			*cp++ = *s;
+
+	*cp = '\0';
+	return buf;
+}
+
+/*
+ * See if the source of a translation is the given label.
+ * Double quotes needn't be escaped in the source.
  * Return zero if not the same, non-zero if the same.
  */
 static int
-same(const char *s, const char *label)
+same(const char *source, const char *label)
 {
+	const char	*s, *l;
 
-	for (;;) {
-		if (s[0] == '\\' && s[1] == '"')
-			s++;
-		if (label[0] == '\\' && label[1] == '"')
-			label++;
-		if (*s != *label)
+	if (strcmp(source, label) == 0)
+		return 1;
+
+	for (s = source, l = label; *l != '\0'; s++, l++) {
+		if (l[0] == '\\' && l[1] == '"')
+			l++;
+		if (*s != *l)
 			return 0;
-		if (*s == '\0')
-			return 1;
-		s++;
-		label++;
 	}
+
+	return *s == '\0';
 }
 
 /*
  * XML-escape the given string.
  * This only considers the five predefined XML escapes.
- * Removes the backslash of quotes escaped in ort(5) labels.
  * Return NULL on memory failure.
  */
 static char *
@@ -431,9 +450,7 @@ escape(const char *s)
 
 	for (i = count = 0; i < sz; i++) {
 		buf[count] = '\0';
-		if ('\\' == s[i] && '"' == s[i + 1])
-			continue;
-		else if ('<' == s[i])
+		if ('<' == s[i])
 			count = strlcat(buf, "&lt;", bufsz);
 		else if ('&' == s[i])
 			count = strlcat(buf, "&amp;", bufsz);
@@ -743,7 +760,7 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 		memset(u, 0, sizeof(struct xliffunit));
 		if ((u->name = strdup(nbuf)) == NULL)
 			return -1;
-		if ((u->source = strdup(l->label)) == NULL)
+		if ((u->source = unquote(l->label)) == NULL)
 			return -1;
 	}
 
@@ -1035,7 +1052,7 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 	const struct bitidx	 *bi;
 	size_t			  i, ssz = 0;
 	const char		**s = NULL;
-	char			 *buf;
+	char			 *buf, *lbuf;
 	int			  rc = 0;
 	struct msgq		  tmpq = TAILQ_HEAD_INITIALIZER(tmpq);
 
@@ -1085,7 +1102,11 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 
 	for (i = 0; i < ssz; i++) {
 		rc = 0;
-		if ((buf = escape(s[i])) == NULL)
+		if ((lbuf = unquote(s[i])) == NULL)
+			goto out;
+		buf = escape(lbuf);
+		free(lbuf);
+		if (buf == NULL)
 			goto out;
 		rc = (args->flags & ORT_LANG_XLIFF_COPY) ?
 			fprintf(f, "\t\t\t<trans-unit id=\"%zu\">\n"
-- 
2.43.0


From 02aec59969c08720b60ab1a30090fa21d584e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 50/53] fix: refuse configurations cut off within a statement

---
 parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.c b/parser.c
index 11cd1d5..b6ce619 100644
--- a/parser.c
+++ b/parser.c
@@ -747,6 +747,11 @@ parse_root(struct parse *p)
 			parse_bitfield(p);
 		else
 			parse_errx(p, "unknown top-level type");
+
+		/* Statements may not be cut short by the end of file. */
+
+		if (p->lasttype == TOK_EOF)
+			parse_errx(p, "unexpected end of file");
 	}
 
 	return 1;
-- 
2.43.0


From 5ca778b5b1d36fdc0b73dfdb543b422259af76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 51/53] fix: fail if any write to the output failed

---
 cheader.c    | 2 +-
 cmanpage.c   | 2 +-
 csource.c    | 2 +-
 javascript.c | 2 +-
 json.c       | 2 +-
 main.c       | 2 +-
 maindiff.c   | 2 +-
 nodejs.c     | 2 +-
 rust.c       | 2 +-
 sql.c        | 2 +-
 sqldiff.c    | 2 +-
 xliff.c      | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cheader.c b/cheader.c
index d5cc458..3bfeeaa 100644
--- a/cheader.c
+++ b/cheader.c
@@ -111,7 +111,7 @@ main(int argc, char *argv[])
 
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_c_header(&args, cfg, stdout) &&
-		    fflush(stdout) != EOF))
+		    fflush(stdout) != EOF && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/cmanpage.c b/cmanpage.c
index 9cd62f5..6c1f2fc 100644
--- a/cmanpage.c
+++ b/cmanpage.c
@@ -94,7 +94,7 @@ main(int argc, char *argv[])
 
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_c_manpage(&args, cfg, stdout) &&
-		    fflush(stdout) != EOF))
+		    fflush(stdout) != EOF && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/csource.c b/csource.c
index e16f7c9..fcfe41b 100644
--- a/csource.c
+++ b/csource.c
@@ -169,7 +169,7 @@ main(int argc, char *argv[])
 
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_c_source(&args, cfg, stdout) &&
-		    fflush(stdout) != EOF))
+		    fflush(stdout) != EOF && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/javascript.c b/javascript.c
index eee6c0d..a70fa31 100644
--- a/javascript.c
+++ b/javascript.c
@@ -145,7 +145,7 @@ main(int argc, char *argv[])
 
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_javascript(cfg, &args, stdout) &&
-		    fflush(stdout) != EOF))
+		    fflush(stdout) != EOF && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/json.c b/json.c
index 758ddc3..62d1094 100644
--- a/json.c
+++ b/json.c
@@ -82,7 +82,7 @@ main(int argc, char *argv[])
 
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_json(&args, cfg, stdout) &&
-		    fflush(stdout) != EOF))
+		    fflush(stdout) != EOF && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/main.c b/main.c
index 2902611..34a1036 100644
--- a/main.c
+++ b/main.c
@@ -75,7 +75,7 @@ main(int argc, char *argv[])
 
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_write_file(stdout, cfg) &&
-		    fflush(stdout) != EOF))
+		    fflush(stdout) != EOF && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/maindiff.c b/maindiff.c
index 1b182d3..757b6e5 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -166,7 +166,7 @@ main(int argc, char *argv[])
 	if (!ort_write_diff_file(stdout, q, 
 	    (const char *const *)&argv[confst], confsz,
 	    (const char *const *)argv, dconfsz) ||
-	    fflush(stdout) == EOF) {
+	    fflush(stdout) == EOF || ferror(stdout)) {
 		rc = -1;
 		warn(NULL);
 	}
diff --git a/nodejs.c b/nodejs.c
index 488be3e..2e99329 100644
--- a/nodejs.c
+++ b/nodejs.c
@@ -96,7 +96,7 @@ main(int argc, char *argv[])
 
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_nodejs(&args, cfg, stdout) &&
-		    fflush(stdout) != EOF))
+		    fflush(stdout) != EOF && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/rust.c b/rust.c
index 4438505..2489a94 100644
--- a/rust.c
+++ b/rust.c
@@ -80,7 +80,7 @@ main(int argc, char *argv[])
 
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_rust(&args, cfg, stdout) &&
-		    fflush(stdout) != EOF))
+		    fflush(stdout) != EOF && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/sql.c b/sql.c
index 4b6ff7d..7c87ef8 100644
--- a/sql.c
+++ b/sql.c
@@ -77,7 +77,7 @@ main(int argc, char *argv[])
 
 	if ((rc = ort_parse_close(cfg)))
 		if (!(rc = ort_lang_sql(NULL, cfg, stdout) &&
-		    fflush(stdout) != EOF))
+		    fflush(stdout) != EOF && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/sqldiff.c b/sqldiff.c
index 82eb54f..7213607 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -151,7 +151,7 @@ main(int argc, char *argv[])
 	}
 
 	if (!(rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq) &&
-	    fflush(stdout) != EOF))
+	    fflush(stdout) != EOF && !ferror(stdout)))
 		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/xliff.c b/xliff.c
index 38e0d62..02540e3 100644
--- a/xliff.c
+++ b/xliff.c
@@ -172,7 +172,7 @@ main(int argc, char *argv[])
 		break;
 	}
 
-	if (rc > 0 && fflush(stdout) == EOF)
+	if (rc > 0 && (fflush(stdout) == EOF || ferror(stdout)))
 		rc = -1;
 	if (rc <= 0)
 		warn(NULL);
-- 
2.43.0


From 6db6c0340a54cd4ef27137824e9a4a1a070f823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 52/53] fix: stop if memory runs out when resolving names

---
 linker_resolve.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index 670740e..0f5438e 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -1014,20 +1014,32 @@ linker_resolve(struct config *cfg)
 	TAILQ_FOREACH(r, &cfg->priv->rq, entries)
 		switch (r->type) {
 		case RESOLVE_AGGR:
-			fail += !resolve_struct_aggr
+			rc = resolve_struct_aggr
 				(cfg, &r->struct_aggr);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_DISTINCT:
-			fail += !resolve_struct_distinct
+			rc = resolve_struct_distinct
 				(cfg, &r->struct_distinct);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_GROUPROW:
-			fail += !resolve_struct_grouprow
+			rc = resolve_struct_grouprow
 				(cfg, &r->struct_grouprow);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_ORDER:
-			fail += !resolve_struct_order
+			rc = resolve_struct_order
 				(cfg, &r->struct_order);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_ROLEMAP:
 			if (!resolve_struct_rolemap_post
-- 
2.43.0


From ebc4417b8a163015eddce54163b289f2e8b5996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 53/53] fix: do not number the items of refused enumerations

---
 parser_enum.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_enum.c b/parser_enum.c
index be74604..6584f11 100644
--- a/parser_enum.c
+++ b/parser_enum.c
@@ -272,6 +272,9 @@ parse_enum(struct parse *p)
 
 	parse_enum_data(p, e);
 
+	if (PARSE_STOP(p))
+		return;
+
 	/* Get the sup(max) bount below at zero. */
 
 	TAILQ_FOREACH(ei, &e->eq, entries)
-- 
2.43.0

