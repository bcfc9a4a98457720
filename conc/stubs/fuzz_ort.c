/*
 * libFuzzer target: a configuration (or, with FUZZ_XLIFF, an XLIFF file
 * joined with the configuration in the file named by $FUZZ_CONFIG) given to
 * the library.  Aborts if a message carries an impossible position or a
 * configuration is refused without an error message.
 */
#include "config.h"
#if HAVE_SYS_QUEUE
# include <sys/queue.h>
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ort.h"
#ifdef FUZZ_XLIFF
#include "ort-lang-xliff.h"
#endif

static FILE *null_;

static void
check(struct msgq *mq, const uint8_t *d, size_t sz, int ok)
{
	struct msg *m; size_t lines = 1, i, errs = 0;
	for (i = 0; i < sz; i++) lines += d[i] == '\n';
	TAILQ_FOREACH(m, mq, entries) {
		errs++;
		if (d != NULL && m->fname != NULL && (m->line < 1 || m->line > lines + 1 || m->column > sz + 1)) {
			fprintf(stderr, "POSITION %s:%zu:%zu: %s\n", m->fname, m->line, m->column, m->buf ? m->buf : "");
			abort();
		}
	}
	if (!ok && !errs) { fprintf(stderr, "REFUSED WITHOUT MESSAGE\n"); abort(); }
}

#ifdef FUZZ_XLIFF
int
LLVMFuzzerTestOneInput(const uint8_t *d, size_t sz)
{
	struct config *cfg; FILE *f, *g; struct msgq mq = TAILQ_HEAD_INITIALIZER(mq);
	struct ort_lang_xliff a; const char *fn = "x.xliff", *c; int rc, k;
	if (null_ == NULL) null_ = fopen("/dev/null", "w");
	if ((c = getenv("FUZZ_CONFIG")) == NULL || sz == 0) return 0;
	for (k = 0; k < 2; k++) {
		if ((cfg = ort_config_alloc()) == NULL) return 0;
		if ((g = fopen(c, "r")) == NULL) return 0;
		rc = ort_parse_file(cfg, g, "c.ort") && ort_parse_close(cfg);
		fclose(g);
		if (!rc) { ort_config_free(cfg); return 0; }
		f = fmemopen((void *)d, sz, "r");
		memset(&a, 0, sizeof a);
		a.in = &f; a.fnames = &fn; a.insz = 1; a.flags = sz & 1 ? ORT_LANG_XLIFF_COPY : 0;
		TAILQ_INIT(&mq);
		rc = k ? ort_lang_xliff_update(&a, cfg, null_, &mq) : ort_lang_xliff_join(&a, cfg, null_, &mq);
		check(&mq, NULL, 0, rc > 0); /* positions are expat's */
		fclose(f);
		ort_msgq_free(&mq);
		ort_config_free(cfg);
	}
	return 0;
}
#else
int
LLVMFuzzerTestOneInput(const uint8_t *d, size_t sz)
{
	struct config *cfg; FILE *f; int rc;
	if (null_ == NULL) null_ = fopen("/dev/null", "w");
	if (sz == 0) return 0;
	if ((cfg = ort_config_alloc()) == NULL) return 0;
	f = fmemopen((void *)d, sz, "r");
	rc = ort_parse_file(cfg, f, "a.ort") && ort_parse_close(cfg);
	check(&cfg->mq, d, sz, rc);
	if (rc) ort_write_file(null_, cfg);
	fclose(f);
	ort_config_free(cfg);
	return 0;
}
#endif
