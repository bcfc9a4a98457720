/* ortv extraction shim: assert(3) becomes a verifier obligation. */
#ifndef ORTV_ASSERT_H
#define ORTV_ASSERT_H
void __ortv_assert(int);
#undef assert
#define assert(x) __ortv_assert((x) ? 1 : 0)
#endif
