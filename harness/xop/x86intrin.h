/* The two XOP instructions the library uses, in terms of SSE2: lets its XOP sources run on any x86-64 processor.
   (Rotation counts: positive to the left, negative to the right, modulo 64, per lane.) */
#ifndef MC_XOP_X86INTRIN_H
#define MC_XOP_X86INTRIN_H
#include_next <x86intrin.h>
static inline __m128i mc_rot_epi64(__m128i a, __m128i n)
{
    unsigned long long x[2], c[2];
    _mm_storeu_si128((__m128i *)x, a); _mm_storeu_si128((__m128i *)c, n);
    for (int i = 0; i < 2; i++) { unsigned k = (unsigned)c[i] & 63; x[i] = (x[i] << k) | (x[i] >> ((64 - k) & 63)); }
    return _mm_loadu_si128((const __m128i *)x);
}
#undef _mm_roti_epi64
#define _mm_roti_epi64(a, n) mc_rot_epi64((a), _mm_set1_epi64x(n))
#define _mm_rot_epi64(a, n) mc_rot_epi64((a), (n))
#endif
