/* Stand-in for kcgi(3) validators. */
#ifndef KCGI_H
#define KCGI_H
#include <stddef.h>
#include <stdint.h>
struct kpair { char *key; size_t keypos; char *val; size_t valsz; char *file; char *ctype; int type; union { int64_t i; const char *s; double d; } parsed; };
struct kvalid { int (*valid)(struct kpair *); const char *name; };
int kvalid_bit(struct kpair *), kvalid_date(struct kpair *), kvalid_double(struct kpair *), kvalid_email(struct kpair *), kvalid_int(struct kpair *), kvalid_string(struct kpair *), kvalid_stringne(struct kpair *), kvalid_uint(struct kpair *), kvalid_udouble(struct kpair *);
int crypt_newhash(const char *, const char *, char *, size_t);
int crypt_checkpass(const char *, const char *);
#endif
