// C27: objects of this build at every address their type allows, and every position of the stack a caller may leave.
// Compiled for each selection with its own headers; linked with a harness compiled once.
#include <alloca.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#if defined(KRAVATTE)
#include "KravatteModes.h"
#define BB 200
#define MAXPAR 8
#define F(x) Kravatte_##x
#define FF Kravatte_Instance
#define M(x) Kravatte_##x
#define FIN Kra
#define FOUT Vatte
#define INIT KRAVATTE_FLAG_INIT
#define LAST KRAVATTE_FLAG_LAST_PART
#elif defined(XOOFFF)
#include "XoofffModes.h"
#define BB 48
#define MAXPAR 16
#define F(x) Xoofff_##x
#define FF Xoofff_Instance
#define M(x) Xoofff##x
#define FIN Xoofff_Compress
#define FOUT Xoofff_Expand
#define INIT Xoofff_FlagInit
#define LAST Xoofff_FlagLastPart
#elif defined(SP800)
#include "SP800-185.h"
#else
#include "KangarooTwelve.h"
#endif

static uint8_t data[1 << 18];
static const uint8_t KEY[24] = "a key of twenty-four by";
static char message[200];

/// A session: uses the object at o, input at in, output at out; returns the number of bytes of output, or 0 on an unexpected return code.
typedef size_t (*Session)(void *o, const uint8_t *in, uint8_t *out);
#define OK(e) if (e) return 0

#if defined(BB)
static size_t core(void *o, const uint8_t *in, uint8_t *out)
{
    FF *t = o; size_t n = (2 * MAXPAR + 2) * BB + 9, k = 3 * BB + 1;
    OK(F(MaskDerivation)(t, KEY, 8 * sizeof KEY));
    OK(FIN(t, in, 8 * k, INIT)); OK(FIN(t, in + k, 8 * (n - k), LAST));
    OK(FOUT(t, out, 8 * k, 0)); OK(FOUT(t, out + k, 8 * (n - k), LAST));
    return n;
}
static size_t sane(void *o, const uint8_t *in, uint8_t *out)
{
    M(SANE_Instance) *t = o; size_t n = (2 * MAXPAR + 2) * BB + 9;
    OK(M(SANE_Initialize)(t, KEY, 8 * sizeof KEY, in, 96, out)); OK(M(SANE_Wrap)(t, in, out + 16, 8 * n, in + 3, 8 * n, out + 16 + n));
    return n + 32;
}
static size_t sanse(void *o, const uint8_t *in, uint8_t *out)
{
    M(SANSE_Instance) *t = o; size_t n = (2 * MAXPAR + 2) * BB + 9;
    OK(M(SANSE_Initialize)(t, KEY, 8 * sizeof KEY)); OK(M(SANSE_Wrap)(t, in, out + 32, 8 * n, in + 3, 8 * n, out));
    return n + 32;
}
static size_t wbc(void *o, const uint8_t *in, uint8_t *out)
{
    FF *t = o; size_t n = (4 * MAXPAR + 2) * BB + 9;
    OK(F(MaskDerivation)(t, KEY, 8 * sizeof KEY)); OK(M(WBC_Encipher)(t, in, out, 8 * n, in + 5, 8 * (BB + 3)));
    return n;
}
static const struct { const char *name; size_t size, align; Session f; } S[] = {
    {"compression and expansion", sizeof(FF), _Alignof(FF), core}, {"SANE", sizeof(M(SANE_Instance)), _Alignof(M(SANE_Instance)), sane},
    {"SANSE", sizeof(M(SANSE_Instance)), _Alignof(M(SANSE_Instance)), sanse}, {"wide block cipher", sizeof(FF), _Alignof(FF), wbc} };
#elif defined(SP800)
static size_t ph(void *o, const uint8_t *in, uint8_t *out)
{
    ParallelHash_Instance *t = o; size_t B = 64, n = 18 * B + 9, k = 5 * B + 1;
    OK(ParallelHash128_Initialize(t, B, 8 * 300, in, 24)); OK(ParallelHash128_Update(t, in, 8 * k)); OK(ParallelHash128_Update(t, in + k, 8 * (n - k))); OK(ParallelHash128_Final(t, out));
    return 300;
}
static size_t ph256(void *o, const uint8_t *in, uint8_t *out)
{
    ParallelHash_Instance *t = o; size_t B = 1024, n = 18 * B + 9;
    OK(ParallelHash256_Initialize(t, B, 0, in, 24)); OK(ParallelHash256_Update(t, in, 8 * n)); OK(ParallelHash256_Final(t, out)); OK(ParallelHash256_Squeeze(t, out, 8 * 300));
    return 300;
}
static size_t csh(void *o, const uint8_t *in, uint8_t *out)
{
    cSHAKE_Instance *t = o;
    OK(cSHAKE128_Initialize(t, 0, in, 24, in + 9, 40)); OK(cSHAKE128_Update(t, in, 8 * 5)); OK(cSHAKE128_Update(t, in, 8 * 900)); OK(cSHAKE128_Final(t, out)); OK(cSHAKE128_Squeeze(t, out, 8 * 500));
    return 500;
}
static size_t kmac(void *o, const uint8_t *in, uint8_t *out)
{
    KMAC_Instance *t = o;
    OK(KMAC256_Initialize(t, KEY, 8 * sizeof KEY, 8 * 400, in + 9, 40)); OK(KMAC256_Update(t, in, 8 * 5)); OK(KMAC256_Update(t, in, 8 * 900)); OK(KMAC256_Final(t, out));
    return 400;
}
static const struct { const char *name; size_t size, align; Session f; } S[] = {
    {"ParallelHash128", sizeof(ParallelHash_Instance), _Alignof(ParallelHash_Instance), ph}, {"ParallelHash256", sizeof(ParallelHash_Instance), _Alignof(ParallelHash_Instance), ph256},
    {"cSHAKE128", sizeof(cSHAKE_Instance), _Alignof(cSHAKE_Instance), csh}, {"KMAC256", sizeof(KMAC_Instance), _Alignof(KMAC_Instance), kmac} };
#else
static size_t kt(void *o, const uint8_t *in, uint8_t *out)
{
    KangarooTwelve_Instance *t = o; size_t n = 18 * 8192 + 9, k = 8192 + 1;
    OK(KangarooTwelve_Initialize(t, 128, 0)); OK(KangarooTwelve_Update(t, in, k)); OK(KangarooTwelve_Update(t, in + k, n - k)); OK(KangarooTwelve_Final(t, 0, in, 3)); OK(KangarooTwelve_Squeeze(t, out, 500));
    return 500;
}
static size_t kt256(void *o, const uint8_t *in, uint8_t *out)
{
    KangarooTwelve_Instance *t = o; size_t n = 18 * 8192 + 9;
    OK(KangarooTwelve_Initialize(t, 256, 64)); OK(KangarooTwelve_Update(t, in, n)); OK(KangarooTwelve_Final(t, out, in, 3));
    return 64;
}
static const struct { const char *name; size_t size, align; Session f; } S[] = {
    {"KT128", sizeof(KangarooTwelve_Instance), _Alignof(KangarooTwelve_Instance), kt}, {"KT256", sizeof(KangarooTwelve_Instance), _Alignof(KangarooTwelve_Instance), kt256} };
#endif

static __attribute__((noinline)) size_t deeper(Session f, void *o, const uint8_t *in, uint8_t *out, unsigned phase)
{   // the caller's frame ends at another multiple of 16
    volatile uint8_t *room = alloca(16 * phase + 16); room[0] = (uint8_t)phase;
    size_t n = f(o, in, out);
    return room[0] == (uint8_t)phase ? n : 0;
}
/// Returns a description of the first difference, or null.  what is set before every session (for a crash).
const char *mix_align(void (*what)(const char *), unsigned long *count)
{
    static uint8_t want[1 << 16], got[1 << 16];
    for (size_t i = 0; i < sizeof data; i++) data[i] = (uint8_t)(i * 167 + (i >> 8) * 13 + 5);
    for (size_t s = 0; s < sizeof S / sizeof *S; s++) {
        uint8_t *mem = aligned_alloc(128, (S[s].size + 512) & ~(size_t)127), *in = aligned_alloc(128, sizeof data + 128);
        size_t n = 0;
        for (size_t at = 0; at < 128; at += S[s].align)
            for (unsigned phase = 0; phase < 8; phase++) {
                if (at && phase % 3) continue;
                snprintf(message, sizeof message, "%s with the object at a multiple of 128 plus %zu (its type asks for %zu), stack moved by %u bytes", S[s].name, at, S[s].align, 16 * phase);
                what(message);
                memset(mem, 0xC3, S[s].size + 256); memset(got, 0, sizeof got); memcpy(in + 5 * phase, data, sizeof data);
                size_t k = deeper(S[s].f, mem + at, in + 5 * phase, got + 3 * phase, phase); ++*count;
                if (!at && !phase) { n = k; memcpy(want, got, n); }
                if (!k || k != n || memcmp(want, got + 3 * phase, n)) return message;
            }
        free(mem); free(in);
    }
    return 0;
}
