/* snprintf with the default argument promotions spelled out (CBMC passes narrow variadic arguments unpromoted) */
#ifndef VP_FMT_H
#define VP_FMT_H
#include <stdio.h>
int vp_snprintf(char *, size_t, const char *, ...);
#define VP_P(x) (1 ? (x) : 0)
#define VP_CNT(...) VP_CNT_(__VA_ARGS__, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1)
#define VP_CNT_(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, n, ...) n
#define VP_M1(a0) a0
#define VP_M2(a0, a1) a0, VP_P(a1)
#define VP_M3(a0, a1, a2) a0, VP_P(a1), VP_P(a2)
#define VP_M4(a0, a1, a2, a3) a0, VP_P(a1), VP_P(a2), VP_P(a3)
#define VP_M5(a0, a1, a2, a3, a4) a0, VP_P(a1), VP_P(a2), VP_P(a3), VP_P(a4)
#define VP_M6(a0, a1, a2, a3, a4, a5) a0, VP_P(a1), VP_P(a2), VP_P(a3), VP_P(a4), VP_P(a5)
#define VP_M7(a0, a1, a2, a3, a4, a5, a6) a0, VP_P(a1), VP_P(a2), VP_P(a3), VP_P(a4), VP_P(a5), VP_P(a6)
#define VP_M8(a0, a1, a2, a3, a4, a5, a6, a7) a0, VP_P(a1), VP_P(a2), VP_P(a3), VP_P(a4), VP_P(a5), VP_P(a6), VP_P(a7)
#define VP_M9(a0, a1, a2, a3, a4, a5, a6, a7, a8) a0, VP_P(a1), VP_P(a2), VP_P(a3), VP_P(a4), VP_P(a5), VP_P(a6), VP_P(a7), VP_P(a8)
#define VP_M10(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) a0, VP_P(a1), VP_P(a2), VP_P(a3), VP_P(a4), VP_P(a5), VP_P(a6), VP_P(a7), VP_P(a8), VP_P(a9)
#define VP_M11(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) a0, VP_P(a1), VP_P(a2), VP_P(a3), VP_P(a4), VP_P(a5), VP_P(a6), VP_P(a7), VP_P(a8), VP_P(a9), VP_P(a10)
#define VP_M12(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) a0, VP_P(a1), VP_P(a2), VP_P(a3), VP_P(a4), VP_P(a5), VP_P(a6), VP_P(a7), VP_P(a8), VP_P(a9), VP_P(a10), VP_P(a11)
#define VP_CAT(a, b) VP_CAT_(a, b)
#define VP_CAT_(a, b) a##b
#define snprintf(b, n, ...) vp_snprintf(b, n, VP_CAT(VP_M, VP_CNT(__VA_ARGS__))(__VA_ARGS__))
#endif
