/* what the drivers need from the stand-ins */
#include <stdio.h>
#include <sqlite3.h>
struct shared { int denied; char err[400]; size_t len; char out[1 << 20]; };
extern struct shared *SH;
extern sqlite3 *DB;
void P(const char *, ...);
void PS(const char *, size_t);
void PI(int64_t), PR(double), PB(const void *, size_t), PT(const char *);
void dump(int, const char **, const char **);
int each_call(int, void (**)(void));
