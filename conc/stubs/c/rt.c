#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "sqlbox.h"
#include "kcgi.h"
#include "kcgijson.h"
#include "rt.h"
struct shared *SH;
sqlite3 *DB;
/* ------------------------------------------------------------ output */
void P(const char *f, ...)
{ va_list ap; int n; va_start(ap, f); n = vsnprintf(SH->out + SH->len, sizeof(SH->out) - SH->len, f, ap); va_end(ap);
  if (n > 0 && SH->len + n < sizeof(SH->out)) SH->len += n; }
void PS(const char *s, size_t n)
{ size_t i; P("\""); for (i = 0; i < n; i++) { unsigned char c = s[i]; if (c < 32 || c == '"' || c == '\\' || c == 127) P("\\u%04x", c); else P("%c", c); } P("\""); }
void PI(int64_t v) { P("[\"i\",\"%lld\"]", (long long)v); }
void PR(double v) { if (isnan(v) || isinf(v)) P("[\"r\",\"%s\"]", isnan(v) ? "nan" : v < 0 ? "-inf" : "inf"); else P("[\"r\",%.17g]", v); }
void PB(const void *p, size_t n) { size_t i; P("[\"b\",\""); for (i = 0; i < n; i++) P("%02x", ((const unsigned char *)p)[i]); P("\"]"); }
void PT(const char *s) { if (s == NULL) { P("[\"s\",\"(NULL)\"]"); return; } P("[\"s\","); PS(s, strlen(s)); P("]"); }
static void val(sqlite3_stmt *s, int i)
{ switch (sqlite3_column_type(s, i)) {
  case SQLITE_NULL: P("null"); break;
  case SQLITE_INTEGER: PI(sqlite3_column_int64(s, i)); break;
  case SQLITE_FLOAT: PR(sqlite3_column_double(s, i)); break;
  case SQLITE_TEXT: P("[\"s\","); PS((const char *)sqlite3_column_text(s, i), sqlite3_column_bytes(s, i)); P("]"); break;
  default: PB(sqlite3_column_blob(s, i), sqlite3_column_bytes(s, i)); } }
void dump(int n, const char **names, const char **sql)
{ int i, j, r; sqlite3_stmt *s; P("{");
  for (i = 0; i < n; i++) { P("%s\"%s\":[", i ? "," : "", names[i]); r = 0;
    if (sqlite3_prepare_v2(DB, sql[i], -1, &s, NULL) == SQLITE_OK) {
      while (sqlite3_step(s) == SQLITE_ROW) { P("%s[", r++ ? "," : ""); for (j = 0; j < sqlite3_column_count(s); j++) { if (j) P(","); val(s, j); } P("]"); }
      sqlite3_finalize(s); }
    P("]"); }
  P("}"); }
int each_call(int n, void (**f)(void))
{ int i, st; pid_t p; size_t len;
  SH = mmap(NULL, sizeof(*SH), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (SH == MAP_FAILED) return 1;
  for (i = 0; i < n; i++) {
    SH->denied = 0; SH->err[0] = 0; SH->len = 0;
    fflush(stdout);
    if ((p = fork()) == -1) return 1;
    if (p == 0) { alarm(10); (void)!freopen("/dev/null", "w", stderr); f[i](); _exit(0); }
    while (waitpid(p, &st, 0) == -1 && errno == EINTR) ;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) puts("{\"abort\":true}");
    else if (SH->denied) puts("{\"abort\":true,\"denied\":true}");
    else if (WIFSIGNALED(st)) printf("{\"err\":\"signal %d\"}\n", WTERMSIG(st));
    else if (WEXITSTATUS(st) != 0) { len = strlen(SH->err); SH->len = 0; PS(SH->err[0] ? SH->err : "exits with failure", SH->err[0] ? len : 18); SH->out[SH->len] = 0; printf("{\"sql\":%s,\"err\":%s}\n", SH->err[0] ? "true" : "false", SH->out); }
    else { fwrite(SH->out, 1, SH->len, stdout); putchar('\n'); }
  }
  fflush(stdout); return 0; }
/* ------------------------------------------------------------ roles */
struct sqlbox_role_hier { size_t n; struct { int parent, stmt[4096]; size_t src; } *r; int sink, start; };
struct sqlbox { struct sqlbox_cfg cfg; size_t role; sqlite3_stmt *stmt, *open[32]; size_t nopen; int multi; struct sqlbox_parm *ps; struct sqlbox_parmset set; int stepped; char *may; char *stm; size_t nr; };
struct sqlbox_role_hier *sqlbox_role_hier_alloc(size_t n)
{ size_t i; struct sqlbox_role_hier *h = calloc(1, sizeof(*h)); h->n = n; h->r = calloc(n ? n : 1, sizeof(h->r[0])); for (i = 0; i < n; i++) h->r[i].parent = -1; h->sink = h->start = -1; return h; }
void sqlbox_role_hier_free(struct sqlbox_role_hier *h) { if (h) { free(h->r); free(h); } }
int sqlbox_role_hier_sink(struct sqlbox_role_hier *h, size_t r) { if (r >= h->n) return 0; h->sink = r; return 1; }
int sqlbox_role_hier_start(struct sqlbox_role_hier *h, size_t r) { if (r >= h->n) return 0; h->start = r; return 1; }
int sqlbox_role_hier_src(struct sqlbox_role_hier *h, size_t r, size_t s) { return r < h->n; }
int sqlbox_role_hier_stmt(struct sqlbox_role_hier *h, size_t r, size_t s) { if (r >= h->n || s >= 4096) return 0; h->r[r].stmt[s] = 1; return 1; }
int sqlbox_role_hier_child(struct sqlbox_role_hier *h, size_t p, size_t c) { if (p >= h->n || c >= h->n || p == c) return 0; h->r[c].parent = p; return 1; }
/* the transitions and statements each role has */
static struct sqlbox_role_hier *GEN;
int sqlbox_role_hier_gen(const struct sqlbox_role_hier *h, struct sqlbox_roles *rs, size_t def)
{ size_t i, k; int a; struct sqlbox_role_hier *g = sqlbox_role_hier_alloc(h->n);
  memcpy(g->r, h->r, h->n * sizeof(h->r[0])); g->sink = h->sink; g->start = h->start;
  for (i = 0; i < h->n; i++) for (a = h->r[i].parent, k = 0; a != -1 && k < h->n; a = h->r[a].parent, k++) {
    size_t s; for (s = 0; s < 4096; s++) if (h->r[a].stmt[s]) g->r[i].stmt[s] = 1; }
  GEN = g; rs->rolesz = h->n; rs->defrole = def; return 1; }
void sqlbox_role_hier_gen_free(struct sqlbox_roles *r) { }
static int denied(const char *w) { SH->denied = 1; snprintf(SH->err, sizeof(SH->err), "%s", w); return 0; }
int sqlbox_role(struct sqlbox *b, size_t r)
{ int a; size_t k;
  if (!b->nr) return 1;
  if (r >= b->nr) return denied("no such role");
  if (r == b->role || (int)r == GEN->sink || (int)b->role == GEN->start) { b->role = r; return 1; }
  for (a = GEN->r[b->role].parent, k = 0; a != -1 && k < b->nr; a = GEN->r[a].parent, k++) if ((size_t)a == r) { b->role = r; return 1; }
  return denied("role change"); }
/* ------------------------------------------------------------ database */
static int sqlerr(struct sqlbox *b) { snprintf(SH->err, sizeof(SH->err), "%s", sqlite3_errmsg(DB)); return 0; }
struct sqlbox *sqlbox_alloc(struct sqlbox_cfg *c)
{ struct sqlbox *b = calloc(1, sizeof(*b)); b->cfg = *c;
  b->cfg.stmts.stmts = malloc((c->stmts.stmtsz + 1) * sizeof(struct sqlbox_pstmt)); memcpy(b->cfg.stmts.stmts, c->stmts.stmts, c->stmts.stmtsz * sizeof(struct sqlbox_pstmt));
  b->cfg.srcs.srcs = malloc((c->srcs.srcsz + 1) * sizeof(struct sqlbox_src)); memcpy(b->cfg.srcs.srcs, c->srcs.srcs, c->srcs.srcsz * sizeof(struct sqlbox_src));
  b->nr = GEN ? c->roles.rolesz : 0; b->role = c->roles.defrole; return b; }
void sqlbox_free(struct sqlbox *b) { free(b); }
int sqlbox_msg_set_dat(struct sqlbox *b, const void *p, size_t n) { return 1; }
int sqlbox_open_async(struct sqlbox *b, size_t s)
{ if (s >= b->cfg.srcs.srcsz) return 0;
  if (sqlite3_open_v2(b->cfg.srcs.srcs[s].fname, &DB, SQLITE_OPEN_READWRITE, NULL) != SQLITE_OK) return 0;
  sqlite3_exec(DB, "PRAGMA foreign_keys=ON; BEGIN", NULL, NULL, NULL); return 1; }
/* statements without identifier are those opened last */
static void POP(struct sqlbox *b) { sqlite3_finalize(b->stmt); b->nopen--; b->stmt = b->nopen ? b->open[b->nopen - 1] : NULL; }
static int prep(struct sqlbox *b, size_t s, size_t n, const struct sqlbox_parm *p)
{ size_t i; int rc = SQLITE_OK;
  if (b->nr && (s >= 4096 || !GEN->r[b->role].stmt[s])) return denied("statement");
  if (s >= b->cfg.stmts.stmtsz) { snprintf(SH->err, sizeof(SH->err), "no such statement"); return 0; }
  if (b->nopen >= 31) { snprintf(SH->err, sizeof(SH->err), "too many open statements"); return 0; }
  if (sqlite3_prepare_v2(DB, b->cfg.stmts.stmts[s].stmt, -1, &b->stmt, NULL) != SQLITE_OK) return sqlerr(b);
  if ((size_t)sqlite3_bind_parameter_count(b->stmt) != n) { snprintf(SH->err, sizeof(SH->err), "%zu values for %d placeholders", n, sqlite3_bind_parameter_count(b->stmt)); return 0; }
  for (i = 0; i < n; i++) {
    switch (p[i].type) {
    case SQLBOX_PARM_BLOB: rc = sqlite3_bind_blob(b->stmt, i + 1, p[i].bparm ? p[i].bparm : "", p[i].sz, SQLITE_TRANSIENT); break;
    case SQLBOX_PARM_FLOAT: rc = sqlite3_bind_double(b->stmt, i + 1, p[i].fparm); break;
    case SQLBOX_PARM_INT: rc = sqlite3_bind_int64(b->stmt, i + 1, p[i].iparm); break;
    case SQLBOX_PARM_NULL: rc = sqlite3_bind_null(b->stmt, i + 1); break;
    case SQLBOX_PARM_STRING: rc = sqlite3_bind_text(b->stmt, i + 1, p[i].sparm, p[i].sz ? (int)p[i].sz - 1 : -1, SQLITE_TRANSIENT); break;
    default: snprintf(SH->err, sizeof(SH->err), "bad type of value"); return 0; }
    if (rc != SQLITE_OK) return sqlerr(b); }
  b->open[b->nopen++] = b->stmt; return 1; }
int sqlbox_prepare_bind_async(struct sqlbox *b, size_t src, size_t s, size_t n, const struct sqlbox_parm *p, unsigned long fl)
{ b->multi = (fl & SQLBOX_STMT_MULTI) != 0; return prep(b, s, n, p); }
enum sqlbox_code sqlbox_exec(struct sqlbox *b, size_t src, size_t s, size_t n, const struct sqlbox_parm *p, unsigned long fl)
{ int rc; if (!prep(b, s, n, p)) return SQLBOX_CODE_ERROR;
  rc = sqlite3_step(b->stmt);
  if (rc != SQLITE_DONE && rc != SQLITE_ROW) sqlerr(b);
  POP(b);
  if (rc == SQLITE_DONE) return SQLBOX_CODE_OK;
  if (rc == SQLITE_CONSTRAINT && (fl & SQLBOX_STMT_CONSTRAINT)) return SQLBOX_CODE_CONSTRAINT;
  return SQLBOX_CODE_ERROR; }
const struct sqlbox_parmset *sqlbox_step(struct sqlbox *b, size_t id)
{ int rc, i, n; if (!b->stmt) { snprintf(SH->err, sizeof(SH->err), "no statement"); return NULL; }
  rc = sqlite3_step(b->stmt);
  b->set.ps = NULL; b->set.psz = 0;
  if (rc == SQLITE_DONE) return &b->set;
  if (rc != SQLITE_ROW) { sqlerr(b); return NULL; }
  n = sqlite3_column_count(b->stmt); b->set.psz = n; b->set.ps = calloc(n, sizeof(struct sqlbox_parm));
  for (i = 0; i < n; i++) { struct sqlbox_parm *q = &b->set.ps[i];
    switch (sqlite3_column_type(b->stmt, i)) {
    case SQLITE_NULL: q->type = SQLBOX_PARM_NULL; break;
    case SQLITE_INTEGER: q->type = SQLBOX_PARM_INT; q->iparm = sqlite3_column_int64(b->stmt, i); q->sz = sizeof(int64_t); break;
    case SQLITE_FLOAT: q->type = SQLBOX_PARM_FLOAT; q->fparm = sqlite3_column_double(b->stmt, i); q->sz = sizeof(double); break;
    case SQLITE_TEXT: q->type = SQLBOX_PARM_STRING; q->sparm = strdup((const char *)sqlite3_column_text(b->stmt, i)); q->sz = sqlite3_column_bytes(b->stmt, i) + 1; break;
    default: q->type = SQLBOX_PARM_BLOB; q->sz = sqlite3_column_bytes(b->stmt, i); q->bparm = malloc(q->sz + 1); if (q->sz) memcpy((void *)q->bparm, sqlite3_column_blob(b->stmt, i), q->sz); } }
  return &b->set; }
int sqlbox_finalise(struct sqlbox *b, size_t id) { if (!b->stmt) return 0; POP(b); return 1; }
int sqlbox_lastid(struct sqlbox *b, size_t s, int64_t *id) { *id = sqlite3_last_insert_rowid(DB); return 1; }
int sqlbox_trans_immediate(struct sqlbox *b, size_t s, size_t i) { return 1; }
int sqlbox_trans_deferred(struct sqlbox *b, size_t s, size_t i) { return 1; }
int sqlbox_trans_exclusive(struct sqlbox *b, size_t s, size_t i) { return 1; }
int sqlbox_trans_commit(struct sqlbox *b, size_t s, size_t i) { return 1; }
int sqlbox_trans_rollback(struct sqlbox *b, size_t s, size_t i) { return 1; }
int sqlbox_parm_int(const struct sqlbox_parm *p, int64_t *v)
{ switch (p->type) { case SQLBOX_PARM_INT: *v = p->iparm; return 0; case SQLBOX_PARM_FLOAT: *v = (int64_t)p->fparm; return 1;
  case SQLBOX_PARM_STRING: { char *e; errno = 0; *v = strtoll(p->sparm, &e, 10); return *p->sparm == 0 || *e || errno ? -1 : 1; }
  default: return -1; } }
int sqlbox_parm_float(const struct sqlbox_parm *p, double *v)
{ switch (p->type) { case SQLBOX_PARM_FLOAT: *v = p->fparm; return 0; case SQLBOX_PARM_INT: *v = (double)p->iparm; return 1;
  case SQLBOX_PARM_STRING: { char *e; *v = strtod(p->sparm, &e); return *p->sparm == 0 || *e ? -1 : 1; }
  default: return -1; } }
int sqlbox_parm_string_alloc(const struct sqlbox_parm *p, char **v, size_t *sz)
{ char b[64];
  switch (p->type) { case SQLBOX_PARM_STRING: *v = strdup(p->sparm); break;
  case SQLBOX_PARM_INT: snprintf(b, sizeof(b), "%lld", (long long)p->iparm); *v = strdup(b); break;
  case SQLBOX_PARM_FLOAT: snprintf(b, sizeof(b), "%f", p->fparm); *v = strdup(b); break;
  case SQLBOX_PARM_BLOB: *v = strndup(p->bparm, p->sz); break;
  default: return -1; }
  if (sz) *sz = strlen(*v) + 1; return p->type == SQLBOX_PARM_STRING ? 0 : 1; }
int sqlbox_parm_blob_alloc(const struct sqlbox_parm *p, void **v, size_t *sz)
{ if (p->type == SQLBOX_PARM_BLOB) { *sz = p->sz; *v = malloc(p->sz + 1); memcpy(*v, p->bparm, p->sz); return 0; }
  if (p->type == SQLBOX_PARM_STRING) { *sz = p->sz - 1; *v = malloc(p->sz); memcpy(*v, p->sparm, p->sz); return 1; }
  return -1; }
/* ------------------------------------------------------------ kcgi */
int crypt_newhash(const char *pw, const char *pref, char *h, size_t n) { snprintf(h, n, "H:%s", pw); return 0; }
int crypt_checkpass(const char *pw, const char *h) { return h && !strncmp(h, "H:", 2) && !strcmp(h + 2, pw) ? 0 : -1; }
int kvalid_string(struct kpair *p) { if (strlen(p->val) != p->valsz) return 0; p->parsed.s = p->val; return 1; }
int kvalid_stringne(struct kpair *p) { return kvalid_string(p) && p->valsz > 0; }
int kvalid_int(struct kpair *p)
{ char *e; long long v; if (!kvalid_stringne(p)) return 0;
  errno = 0; v = strtoll(p->val, &e, 10); if (*e || e == p->val || errno) return 0; p->parsed.i = v; return 1; }
int kvalid_uint(struct kpair *p) { return kvalid_int(p) && p->parsed.i >= 0; }
int kvalid_bit(struct kpair *p) { return kvalid_uint(p) && p->parsed.i <= 64; }
int kvalid_double(struct kpair *p)
{ char *e; double v; if (!kvalid_stringne(p)) return 0; v = strtod(p->val, &e); if (*e || e == p->val || isnan(v) || isinf(v)) return 0; p->parsed.d = v; return 1; }
int kvalid_udouble(struct kpair *p) { return kvalid_double(p) && p->parsed.d >= 0; }
int kvalid_email(struct kpair *p)
{ const char *at; if (!kvalid_stringne(p) || p->valsz < 5) return 0; at = strchr(p->val, '@');
  return at && at > p->val && strchr(at, '.') && !strchr(p->val, ' '); }
int kvalid_date(struct kpair *p)
{ int y, m, d, mx; struct tm tm; static const int md[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
  if (!kvalid_string(p) || p->valsz != 10 || p->val[4] != '-' || p->val[7] != '-') return 0;
  if (sscanf(p->val, "%4d-%2d-%2d", &y, &m, &d) != 3 || m < 1 || m > 12) return 0;
  mx = md[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)));
  if (d < 1 || d > mx) return 0;
  memset(&tm, 0, sizeof(tm)); tm.tm_year = y - 1900; tm.tm_mon = m - 1; tm.tm_mday = d; p->parsed.i = timegm(&tm); return 1; }
/* ------------------------------------------------------------ kcgijson */
static void J(struct kjsonreq *r, const char *f, ...)
{ va_list ap; if (r->max - r->sz < 400) r->buf = realloc(r->buf, r->max = r->max * 2 + 4000);
  va_start(ap, f); r->sz += vsnprintf(r->buf + r->sz, r->max - r->sz, f, ap); va_end(ap); }
static void JS(struct kjsonreq *r, const char *s)
{ J(r, "\""); for (; *s; s++) { unsigned char c = *s; if (c < 32 || c == '"' || c == '\\' || c == 127) J(r, "\\u%04x", c); else J(r, "%c", c); } J(r, "\""); }
static void key(struct kjsonreq *r, const char *k) { if (!r->first) J(r, ","); r->first = 0; if (k) { J(r, "["); JS(r, k); J(r, ","); } }
int kjson_putintstrp(struct kjsonreq *r, const char *k, int64_t v) { key(r, k); J(r, "[\"i\",\"%lld\"]]", (long long)v); return 1; }
int kjson_putintp(struct kjsonreq *r, const char *k, int64_t v) { return kjson_putintstrp(r, k, v); }
int kjson_putdoublep(struct kjsonreq *r, const char *k, double v) { key(r, k); J(r, "[\"r\",%.17g]]", v); return 1; }
int kjson_putstringp(struct kjsonreq *r, const char *k, const char *v) { key(r, k); if (v == NULL) { J(r, "null]"); return 1; } J(r, "[\"s\","); JS(r, v); J(r, "]]"); return 1; }
int kjson_putboolp(struct kjsonreq *r, const char *k, int v) { key(r, k); J(r, "[\"t\",%s]]", v ? "true" : "false"); return 1; }
int kjson_putnullp(struct kjsonreq *r, const char *k) { key(r, k); J(r, "null]"); return 1; }
int kjson_objp_open(struct kjsonreq *r, const char *k) { key(r, k); J(r, "[\"o\",["); r->first = 1; return 1; }
int kjson_obj_open(struct kjsonreq *r) { key(r, NULL); J(r, "[\"o\",["); r->first = 1; return 1; }
int kjson_obj_close(struct kjsonreq *r) { J(r, "]]]"); r->first = 0; return 1; }
int kjson_arrayp_open(struct kjsonreq *r, const char *k) { key(r, k); J(r, "[\"l\",["); r->first = 1; return 1; }
int kjson_array_open(struct kjsonreq *r) { key(r, NULL); J(r, "[\"l\",["); r->first = 1; return 1; }
int kjson_array_close(struct kjsonreq *r) { J(r, "]]]"); r->first = 0; return 1; }
