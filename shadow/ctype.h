/* ortv extraction shim: plain prototypes instead of glibc's table macros. */
#ifndef ORTV_CTYPE_H
#define ORTV_CTYPE_H
int isalnum(int); int isalpha(int); int isdigit(int); int isspace(int);
int islower(int); int isupper(int); int isprint(int); int iscntrl(int); int isxdigit(int); int ispunct(int); int isgraph(int);
int tolower(int); int toupper(int);
#endif
