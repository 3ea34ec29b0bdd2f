/* PARSENUM is a macro for C only; one function per type. */
#include "platform.h"
#include <stddef.h>
#include <stdint.h>
#include "parsenum.h"
int pn_int(const char *s, int lo, int hi, int *o) { int x; int rc = PARSENUM(&x, s, lo, hi); *o = x; return rc; }
int pn_u32(const char *s, uint32_t lo, uint32_t hi, uint32_t *o) { uint32_t x; int rc = PARSENUM(&x, s, lo, hi); *o = x; return rc; }
int pn_size(const char *s, size_t lo, size_t hi, size_t *o) { size_t x; int rc = PARSENUM(&x, s, lo, hi); *o = x; return rc; }
int pn_u64(const char *s, uint64_t *o) { uint64_t x; int rc = PARSENUM(&x, s); *o = x; return rc; }
int pn_double(const char *s, double lo, double hi, double *o) { double x; int rc = PARSENUM(&x, s, lo, hi); *o = x; return rc; }
int pn_double_any(const char *s, double *o) { double x; int rc = PARSENUM(&x, s); *o = x; return rc; }
