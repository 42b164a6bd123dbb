// Farfalle reference on bit strings, and one set of names for the Kravatte and Xoofff interfaces (-DKRAVATTE or -DXOOFFF).
#pragma once
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#ifdef KRAVATTE
#include "Kravatte.h"
#include "KravatteModes.h"
#else
#include "Xoofff.h"
#include "XoofffModes.h"
#endif
}
#ifdef KRAVATTE
#define NAME "Kravatte"
typedef ROOM(Kravatte_Instance) FF;
static const auto ff_key = Kravatte_MaskDerivation; static const auto ff_in = Kra; static const auto ff_out = Vatte; static const auto ff_all = Kravatte;
enum { INIT = KRAVATTE_FLAG_INIT, LAST = KRAVATTE_FLAG_LAST_PART, SHORT = KRAVATTE_FLAG_SHORT };
static const size_t BB = 200, MAXPAR = 8;
#else
#define NAME "Xoofff"
typedef ROOM(Xoofff_Instance) FF;
static const auto ff_key = Xoofff_MaskDerivation; static const auto ff_in = Xoofff_Compress; static const auto ff_out = Xoofff_Expand; static const auto ff_all = Xoofff;
enum { INIT = Xoofff_FlagInit, LAST = Xoofff_FlagLastPart, SHORT = Xoofff_FlagXoofffie };
static const size_t BB = 48, MAXPAR = 16;
#endif

/// Farfalle[p, p, p, p, rollc, rolle] of a key and a sequence of strings.
struct Farfalle {
    uint8_t k[BB], x[BB], kr[BB];
    static void p(uint8_t *s) {
#ifdef KRAVATTE
        ref::keccakp(s, 6);
#else
        ref::xoodoo(s, 6);
#endif
    }
    static uint64_t ld(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
    static void st(uint8_t *p, uint64_t v, int n) { for (int i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * i)); }
#ifdef KRAVATTE
    static void rollc(uint8_t *s)
    {   // lanes (0..4, 4)
        uint64_t l[5]; for (int i = 0; i < 5; i++) l[i] = ld(s + 8 * (20 + i), 8);
        uint64_t n = ref::rol64(l[0], 7) ^ l[1] ^ (l[1] >> 3);
        for (int i = 0; i < 4; i++) st(s + 8 * (20 + i), l[i + 1], 8);
        st(s + 8 * 24, n, 8);
    }
    static void rolle(uint8_t *s)
    {   // lanes (0..4, 3) and (0..4, 4)
        uint64_t l[10]; for (int i = 0; i < 10; i++) l[i] = ld(s + 8 * (15 + i), 8);
        uint64_t n = ref::rol64(l[0], 7) ^ ref::rol64(l[1], 18) ^ (l[2] & (l[1] >> 1));
        for (int i = 0; i < 9; i++) st(s + 8 * (15 + i), l[i + 1], 8);
        st(s + 8 * 24, n, 8);
    }
#else
    static void shift(uint32_t a[3][4])
    {   uint32_t b[4]; for (int i = 0; i < 4; i++) b[i] = a[0][(i + 1) % 4];
        for (int i = 0; i < 4; i++) { a[0][i] = a[1][i]; a[1][i] = a[2][i]; a[2][i] = b[i]; } }
    static void roll(uint8_t *s, bool e)
    {
        uint32_t a[3][4]; for (int i = 0; i < 12; i++) a[i / 4][i % 4] = (uint32_t)ld(s + 4 * i, 4);
        if (e) a[0][0] = (a[1][0] & a[2][0]) ^ ref::rol32(a[0][0], 5) ^ ref::rol32(a[1][0], 13) ^ 7;
        else a[0][0] ^= (a[0][0] << 13) ^ ref::rol32(a[1][0], 3);
        shift(a);
        for (int i = 0; i < 12; i++) st(s + 4 * i, a[i / 4][i % 4], 4);
    }
    static void rollc(uint8_t *s) { roll(s, false); }
    static void rolle(uint8_t *s) { roll(s, true); }
#endif
    Farfalle() { memset(this, 0, sizeof *this); }
    explicit Farfalle(const ref::Bits &key)
    {
        ref::Bits b = key; b.bit(1); memset(k, 0, BB); memcpy(k, b.b.data(), b.b.size());
        p(k); restart();
    }
    void restart() { memcpy(kr, k, BB); memset(x, 0, BB); }
    void block(const uint8_t *m) { uint8_t t[BB]; for (size_t i = 0; i < BB; i++) t[i] = m[i] ^ kr[i]; p(t); for (size_t i = 0; i < BB; i++) x[i] ^= t[i]; rollc(kr); }
    void string(const ref::Bits &m) { tail(m.b.data(), m.n); }
    /// what remains of a string after whole blocks
    void tail(const uint8_t *m, size_t bits)
    {
        while (bits >= 8 * BB) { block(m); m += BB; bits -= 8 * BB; }
        uint8_t l[BB] = {0}; if (bits) memcpy(l, m, (bits + 7) / 8);
        if (bits % 8) l[bits / 8] &= (uint8_t)((1 << bits % 8) - 1);
        l[bits / 8] |= (uint8_t)(1 << bits % 8);
        block(l); rollc(kr);
    }
    /// bits [8*from, 8*from + n) of the output, unused bits zero
    ref::Bytes out(size_t from, size_t n, bool shrt = false) const
    {
        uint8_t y[BB], t[BB]; memcpy(y, x, BB); if (!shrt) p(y);
        size_t need = 8 * from + n; ref::Bytes o;
        for (size_t j = 0; 8 * BB * j < need; j++) {
            if (BB * (j + 1) > from) { memcpy(t, y, BB); p(t); for (size_t i = 0; i < BB; i++) if (BB * j + i >= from && 8 * (BB * j + i) < need) o.push_back(t[i] ^ kr[i]); }
            rolle(y);
        }
        if (n % 8) o.back() &= (uint8_t)((1 << n % 8) - 1);
        return o;
    }
    ref::Bits outbits(size_t from, size_t n, bool shrt = false) const { ref::Bytes b = out(from, n, shrt); return ref::Bits(b.data(), n); }
};
static inline size_t by(size_t bits) { return (bits + 7) / 8; }
static inline ref::Bits bits_of(size_t n, uint32_t salt) { mc::Bytes d = mc::data(by(n), salt); return ref::Bits(d.data(), n); }
/// same bits, unused bits of the last byte set
static inline mc::Bytes dirty(const ref::Bits &b) { mc::Bytes r = b.b; if (b.n % 8) r.back() |= (uint8_t)(0xFF << (b.n % 8)); return r; }
