/* Stand-in for sqlbox(3): same interface as far as generated code uses it,
 * running in-process on SQLite. */
#ifndef SQLBOX_H
#define SQLBOX_H
#include <stddef.h>
#include <stdint.h>
enum sqlbox_parmtype { SQLBOX_PARM_BLOB, SQLBOX_PARM_FLOAT, SQLBOX_PARM_INT, SQLBOX_PARM_NULL, SQLBOX_PARM_STRING };
struct sqlbox_parm { union { double fparm; int64_t iparm; const char *sparm; const void *bparm; }; enum sqlbox_parmtype type; size_t sz; };
struct sqlbox_parmset { struct sqlbox_parm *ps; size_t psz; int code; };
enum sqlbox_code { SQLBOX_CODE_OK, SQLBOX_CODE_ERROR, SQLBOX_CODE_CONSTRAINT };
#define SQLBOX_STMT_CONSTRAINT 1
#define SQLBOX_STMT_MULTI 2
struct sqlbox_pstmt { char *stmt; };
enum sqlbox_srcmode { SQLBOX_SRC_RO, SQLBOX_SRC_RW, SQLBOX_SRC_RWC };
struct sqlbox_src { char *fname; enum sqlbox_srcmode mode; };
struct sqlbox_srcs { struct sqlbox_src *srcs; size_t srcsz; };
struct sqlbox_pstmts { struct sqlbox_pstmt *stmts; size_t stmtsz; };
struct sqlbox_role { size_t *roles; size_t rolesz; size_t *stmts; size_t stmtsz; size_t *srcs; size_t srcsz; };
struct sqlbox_roles { struct sqlbox_role *roles; size_t rolesz; size_t defrole; };
struct sqlbox_msg { void (*func)(const char *, void *); void (*func_short)(const char *, ...); void *dat; };
struct sqlbox_cfg { struct sqlbox_srcs srcs; struct sqlbox_pstmts stmts; struct sqlbox_roles roles; struct sqlbox_msg msg; };
struct sqlbox; struct sqlbox_role_hier;
struct sqlbox *sqlbox_alloc(struct sqlbox_cfg *);
void sqlbox_free(struct sqlbox *);
int sqlbox_msg_set_dat(struct sqlbox *, const void *, size_t);
int sqlbox_open_async(struct sqlbox *, size_t);
int sqlbox_role(struct sqlbox *, size_t);
struct sqlbox_role_hier *sqlbox_role_hier_alloc(size_t);
void sqlbox_role_hier_free(struct sqlbox_role_hier *);
int sqlbox_role_hier_sink(struct sqlbox_role_hier *, size_t);
int sqlbox_role_hier_start(struct sqlbox_role_hier *, size_t);
int sqlbox_role_hier_src(struct sqlbox_role_hier *, size_t, size_t);
int sqlbox_role_hier_stmt(struct sqlbox_role_hier *, size_t, size_t);
int sqlbox_role_hier_child(struct sqlbox_role_hier *, size_t, size_t);
int sqlbox_role_hier_gen(const struct sqlbox_role_hier *, struct sqlbox_roles *, size_t);
void sqlbox_role_hier_gen_free(struct sqlbox_roles *);
int sqlbox_prepare_bind_async(struct sqlbox *, size_t, size_t, size_t, const struct sqlbox_parm *, unsigned long);
enum sqlbox_code sqlbox_exec(struct sqlbox *, size_t, size_t, size_t, const struct sqlbox_parm *, unsigned long);
const struct sqlbox_parmset *sqlbox_step(struct sqlbox *, size_t);
int sqlbox_finalise(struct sqlbox *, size_t);
int sqlbox_lastid(struct sqlbox *, size_t, int64_t *);
int sqlbox_trans_immediate(struct sqlbox *, size_t, size_t);
int sqlbox_trans_deferred(struct sqlbox *, size_t, size_t);
int sqlbox_trans_exclusive(struct sqlbox *, size_t, size_t);
int sqlbox_trans_commit(struct sqlbox *, size_t, size_t);
int sqlbox_trans_rollback(struct sqlbox *, size_t, size_t);
int sqlbox_parm_int(const struct sqlbox_parm *, int64_t *);
int sqlbox_parm_float(const struct sqlbox_parm *, double *);
int sqlbox_parm_string_alloc(const struct sqlbox_parm *, char **, size_t *);
int sqlbox_parm_blob_alloc(const struct sqlbox_parm *, void **, size_t *);
#endif
