/*
 * ortv extraction shim, appended to /repo's config.h: the mutating TAILQ
 * macros become calls with an assumed contract over abstract sequences.
 * FIRST/NEXT/EMPTY/FOREACH/FOREACH_SAFE keep the repository's own expansion
 * (tqh_first / tqe_next member reads, which the verifier interprets over the
 * abstract sequence).
 */
#undef TAILQ_HEAD_INITIALIZER
#undef TAILQ_LAST
#undef TAILQ_PREV
#undef TAILQ_INIT
#undef TAILQ_INSERT_HEAD
#undef TAILQ_INSERT_TAIL
#undef TAILQ_INSERT_AFTER
#undef TAILQ_INSERT_BEFORE
#undef TAILQ_REMOVE
#undef TAILQ_REPLACE
#undef TAILQ_CONCAT
#define TAILQ_HEAD_INITIALIZER(head) { 0, 0 }
void __ortv_tq_init(const void *);
void __ortv_tq_ins_head(const void *, const void *, const char *);
void __ortv_tq_ins_tail(const void *, const void *, const char *);
void __ortv_tq_ins_after(const void *, const void *, const void *, const char *);
void __ortv_tq_ins_before(const void *, const void *, const char *);
void __ortv_tq_remove(const void *, const void *, const char *);
void __ortv_tq_concat(const void *, const void *, const char *);
#define TAILQ_INIT(head) __ortv_tq_init(head)
#define TAILQ_INSERT_HEAD(head, elm, field) __ortv_tq_ins_head(head, elm, #field)
#define TAILQ_INSERT_TAIL(head, elm, field) __ortv_tq_ins_tail(head, elm, #field)
#define TAILQ_INSERT_AFTER(head, l, elm, field) __ortv_tq_ins_after(head, l, elm, #field)
#define TAILQ_INSERT_BEFORE(l, elm, field) __ortv_tq_ins_before(l, elm, #field)
#define TAILQ_REMOVE(head, elm, field) __ortv_tq_remove(head, elm, #field)
#define TAILQ_CONCAT(h1, h2, field) __ortv_tq_concat(h1, h2, #field)
#define TAILQ_LAST(head, headname) (*(head)->tqh_last)
#define TAILQ_PREV(elm, headname, field) (*(elm)->field.tqe_prev)
