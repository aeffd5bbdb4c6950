/* force-included in every symbolically compiled source */
#include <math.h>
#include <stdlib.h>
#undef signbit
#undef isnan
#undef isinf
#undef isfinite
int __sym_signbit(double); int __sym_isnan(double); int __sym_isinf(double); int __sym_isfinite(double);
#define signbit(x) __sym_signbit(x)
#define isnan(x) __sym_isnan(x)
#define isinf(x) __sym_isinf(x)
#define isfinite(x) __sym_isfinite(x)
