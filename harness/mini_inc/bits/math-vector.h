/* The libm vector declarations of the borrowed headers are for another machine. */
#include <bits/libm-simd-decl-stubs.h>
