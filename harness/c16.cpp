// C16 (-DWAYS=2,4,8 on Keccak-p[1600]), C17 (-DXOO -DWAYS=4,8,16 on Xoodoo): parallel engines against P independent byte arrays.
#ifdef XOO
#define XOOFFF
#else
#define KRAVATTE
#endif
#include "farfalle.hpp"
#define J3(a, b, c) a##b##c
#define J2(a, b, c) J3(a, b, c)
extern "C" {
#ifdef XOO
#if WAYS == 4
#include "Xoodoo-times4-SnP.h"
#elif WAYS == 8
#include "Xoodoo-times8-SnP.h"
#else
#include "Xoodoo-times16-SnP.h"
#endif
#define F(x) J2(Xoodootimes, P, _##x)
#else
#if WAYS == 2
#include "KeccakP-1600-times2-SnP.h"
#elif WAYS == 4
#include "KeccakP-1600-times4-SnP.h"
#else
#include "KeccakP-1600-times8-SnP.h"
#endif
#define F(x) J2(KeccakP1600times, P, _##x)
#endif
}
#if !defined(XOO) && WAYS == 2
#ifdef KeccakF1600times2_FastLoop_supported
#define HAS24
#endif
#ifdef KeccakP1600times2_12rounds_FastLoop_supported
#define HAS12
#endif
#ifdef KeccakF1600times2_FastKravatte_supported
#define HASFF
#endif
#ifdef KeccakP1600times2_KT128ProcessLeaves_supported
#define HASL128
#endif
#ifdef KeccakP1600times2_KT256ProcessLeaves_supported
#define HASL256
#endif
#endif
#if !defined(XOO) && WAYS == 4
#ifdef KeccakF1600times4_FastLoop_supported
#define HAS24
#endif
#ifdef KeccakP1600times4_12rounds_FastLoop_supported
#define HAS12
#endif
#ifdef KeccakF1600times4_FastKravatte_supported
#define HASFF
#endif
#ifdef KeccakP1600times4_KT128ProcessLeaves_supported
#define HASL128
#endif
#ifdef KeccakP1600times4_KT256ProcessLeaves_supported
#define HASL256
#endif
#endif
#if !defined(XOO) && WAYS == 8
#ifdef KeccakF1600times8_FastLoop_supported
#define HAS24
#endif
#ifdef KeccakP1600times8_12rounds_FastLoop_supported
#define HAS12
#endif
#ifdef KeccakF1600times8_FastKravatte_supported
#define HASFF
#endif
#ifdef KeccakP1600times8_KT128ProcessLeaves_supported
#define HASL128
#endif
#ifdef KeccakP1600times8_KT256ProcessLeaves_supported
#define HASL256
#endif
#endif
#if defined(XOO) && WAYS == 4 && defined(Xoodootimes4_FastXoofff_supported)
#define HASFF
#endif
#if defined(XOO) && WAYS == 8 && defined(Xoodootimes8_FastXoofff_supported)
#define HASFF
#endif
#if defined(XOO) && WAYS == 16 && defined(Xoodootimes16_FastXoofff_supported)
#define HASFF
#endif
#define P WAYS
using namespace mc;
#ifdef XOO
enum { W = 48, L = 4, LANES = 12 };
static void rperm(uint8_t *s, int n) { ref::xoodoo(s, n); }
static const int ROUNDS[] = {6, 12};
#else
enum { W = 200, L = 8, LANES = 25 };
static void rperm(uint8_t *s, int n) { ref::keccakp(s, n); }
static const int ROUNDS[] = {4, 6, 12, 24};
#endif
typedef F(states) S;
static In in(1 << 20), inh(1 << 20, true); static Out out(1 << 18), outh(1 << 18, true), outw(W), outs(P * 64 + 256);
struct World { alignas(64) S s; uint8_t m[P][W]; };

static void permute(S *s, int n)
{
#ifdef XOO
    if (n == 6) F(PermuteAll_6rounds)(s); else F(PermuteAll_12rounds)(s);
#else
    if (n == 4) F(PermuteAll_4rounds)(s); else if (n == 6) F(PermuteAll_6rounds)(s); else if (n == 12) F(PermuteAll_12rounds)(s); else F(PermuteAll_24rounds)(s);
#endif
}
static void full(const World &w, const char *what) { for (unsigned i = 0; i < P; i++) { F(ExtractBytes)(&w.s, i, outw.take(W), 0, W); outw.check(w.m[i], what); } }
static void load(World &w, const std::function<uint8_t(unsigned, unsigned)> &v)
{
    memset((void *)&w, 0x5A, sizeof w); F(InitializeAll)(&w.s); memset(w.m, 0, sizeof w.m); full(w, "states after InitializeAll");
    for (unsigned i = 0; i < P; i++) { for (unsigned j = 0; j < W; j++) w.m[i][j] = v(i, j); F(AddBytes)(&w.s, i, in.put(w.m[i], W), 0, W); }
}
static uint8_t dense(unsigned i, unsigned j) { return dat(i * W + j, 3); }
static uint8_t zero(unsigned, unsigned) { return 0; }

static void ranges(unsigned inst, unsigned off, bool T)
{
    std::unique_ptr<World> w0(new World), wp(new World); World &w = *wp; load(*w0, dense); Bytes d = data(W, 77);
    for (unsigned len = 0; off + len <= W; len++)
        for (unsigned a = 0; a < (T ? 10u : 3u); a++) {
            auto src = [&]() { return a == 0 ? in.put(d.data(), len) : a == 1 ? inh.put(d.data(), len) : in.put_at(d.data(), len, 1024 + (a + len) * 3); };
            snprintf(g.call, sizeof g.call, "instance %u offset %u length %u placement %u", inst, off, len, a); g.progress++;
            uint8_t *m = w.m[inst] + off;
            w = *w0; F(AddBytes)(&w.s, inst, src(), off, len); for (unsigned i = 0; i < len; i++) m[i] ^= d[i]; full(w, "states after AddBytes");
            w = *w0; F(OverwriteBytes)(&w.s, inst, src(), off, len); if (len) memcpy(m, d.data(), len); full(w, "states after OverwriteBytes");
            Out &o = a == 1 ? outh : out; size_t on = a >= 2 ? len + 1 + (a + len) % 7 : len;
            w = *w0; uint8_t *p = o.take(on); F(ExtractBytes)(&w.s, inst, p, off, len); Bytes e(m, m + len); e.resize(on, o.fill); o.check(e.data(), "ExtractBytes");
            for (unsigned i = 0; i < len; i++) e[i] ^= d[i];
            p = o.take(on); F(ExtractAndAddBytes)(&w.s, inst, src(), p, off, len); o.check(e.data(), "ExtractAndAddBytes");
            p = o.take(on); if (len) memcpy(p, d.data(), len); F(ExtractAndAddBytes)(&w.s, inst, p, p, off, len); o.check(e.data(), "ExtractAndAddBytes in place"); full(w, "states after extraction");
            g.transitions += 5;
        }
    for (int c : {0x00, 0x01, 0x80, 0xFF}) { w = *w0; F(AddByte)(&w.s, inst, (unsigned char)c, off); w.m[inst][off] ^= c; full(w, "states after AddByte"); g.transitions++; }
    for (unsigned z : {off, off == W - 1 ? (unsigned)W : off}) { w = *w0; F(OverwriteWithZeroes)(&w.s, inst, z); memset(w.m[inst], 0, z); full(w, "states after OverwriteWithZeroes"); g.transitions++; }
    g.states++; g.call[0] = 0;
}
static void lanes(unsigned n, bool)
{
    std::unique_ptr<World> w0(new World), wp(new World); World &w = *wp; load(*w0, dense);
    for (unsigned o : {n, n + 1, n + 2, n + 3, (unsigned)LANES, (unsigned)LANES + 4, (unsigned)LANES + 7, 64u, 1024u}) {
        if (o < n) continue;
        size_t sz = n ? (size_t)(P - 1) * o * L + n * L : 0; Bytes d = data(sz, 9);
        for (int a = 0; a < 4; a++) {
            call("%u lanes, lane offset %u, placement %d", n, o, a);
            auto src = [&]() { return a == 0 ? in.put(d.data(), sz) : a == 1 ? inh.put(d.data(), sz) : in.put_at(d.data(), sz, 511 + a); };
            w = *w0; F(AddLanesAll)(&w.s, src(), n, o); for (unsigned i = 0; i < P; i++) for (unsigned j = 0; j < n * L; j++) w.m[i][j] ^= d[i * o * L + j]; full(w, "states after AddLanesAll");
            w = *w0; F(OverwriteLanesAll)(&w.s, src(), n, o); for (unsigned i = 0; i < P; i++) for (unsigned j = 0; j < n * L; j++) w.m[i][j] = d[i * o * L + j]; full(w, "states after OverwriteLanesAll");
            Out &q = a == 1 ? outh : out; size_t on = a >= 2 ? sz + a - 1 : sz; w = *w0;
            Bytes e(on, q.fill); for (unsigned i = 0; i < P; i++) for (unsigned j = 0; j < n * L; j++) e[i * o * L + j] = w.m[i][j];
            F(ExtractLanesAll)(&w.s, q.take(on), n, o); q.check(e.data(), "ExtractLanesAll");
            for (unsigned i = 0; i < P; i++) for (unsigned j = 0; j < n * L; j++) e[i * o * L + j] ^= d[i * o * L + j];
            q.take(on); F(ExtractAndAddLanesAll)(&w.s, src(), q.p, n, o); q.check(e.data(), "ExtractAndAddLanesAll"); full(w, "states after extraction");
            g.transitions += 4; g.states++;
        }
    }
}
static void perms(int n, unsigned inst)
{
    std::unique_ptr<World> wp(new World); World &w = *wp;
    for (int bit = -1; bit < 8 * W; bit++) for (int neg = 0; neg < 3; neg++) {
        call("%d rounds, instance %u, bit %d of %s", n, inst, bit, neg == 0 ? "zero states" : neg == 1 ? "all-one states" : "dense states");
        load(w, [&](unsigned i, unsigned j) -> uint8_t { uint8_t v = neg == 0 ? 0 : neg == 1 ? 0xFF : dense(i, j); if (i == inst && (int)j == bit / 8 && bit >= 0) v ^= 1 << bit % 8; return v; });
        permute(&w.s, n); for (unsigned i = 0; i < P; i++) rperm(w.m[i], n); full(w, "permuted states"); g.transitions++; g.states++;
    }
}
#ifndef XOO
static void loop(unsigned ln, int rounds, bool T)
{
    std::unique_ptr<World> wp(new World); World &w = *wp;
    struct G { unsigned par, ser; };
    std::vector<G> gs = {{1024, ln}, {ln, P * ln}, {ln + 3, P * ln}, {64, 7}, {32, ln}, {ln + 1, ln + 2}};
    for (G q : gs) {
        if (q.par < ln) continue;
        size_t span = ((size_t)q.par * (P - 1) + ln) * 8, ser = q.ser * 8; if (ser > span) continue;
        std::vector<size_t> N; for (size_t k = 0; k <= (T ? 9 : 4); k++) for (long d : {-8, -1, 0, 1, 8}) { long n = (long)(span + k * ser) + d; if (n >= 0) N.push_back(n); } N.push_back(0); if (q.par == 1024) N.push_back((size_t)P * 8192);
        for (size_t n : N) for (int a = 0; a < 3; a++) {
            if (n > in.a.cap - 1024) continue;
            call("fast loop of %d rounds, %u lanes, offsets %u (parallel) %u (serial), %zu bytes, placement %d", rounds, ln, q.par, q.ser, n, a);
            Bytes d = data(n, 5); load(w, dense);
            const uint8_t *p = a == 0 ? in.put(d.data(), n) : a == 1 ? inh.put(d.data(), n) : in.put_at(d.data(), n, 513);
            size_t r = 0, e = 0;
#define FL J2(KeccakF1600times, P, _FastLoop_Absorb)
#define FL12 J2(KeccakP1600times, P, _12rounds_FastLoop_Absorb)
#ifdef HAS24
            if (rounds == 24) r = FL(&w.s, ln, q.par, q.ser, p, n);
#endif
#ifdef HAS12
            if (rounds == 12) r = FL12(&w.s, ln, q.par, q.ser, p, n);
#endif
            size_t left = n; while (left >= span) { for (unsigned i = 0; i < P; i++) { for (unsigned j = 0; j < ln * 8; j++) w.m[i][j] ^= d[e + (size_t)i * q.par * 8 + j]; rperm(w.m[i], rounds); } e += ser; left -= ser; }
            expect_rc((long)r, (long)e, "fast loop: offset"); full(w, "states after the fast loop"); g.transitions++; g.states++;
        }
    }
}
#endif
/// Farfalle compression and expansion over batches of P blocks.
template <class CF, class EF> static void farfalle_loops(CF comp, EF expn, bool T)
{
    for (unsigned nb = P; nb <= (T ? 6 : 3) * P + 1; nb++) for (int extra : {0, 1, (int)BB - 1}) for (int pat = 0; pat < 3; pat++) for (int a = 0; a < 3; a++) {
        size_t n = nb * BB + extra, k = nb / P * P; call("%u blocks and %d bytes, pattern %d, placement %d", nb, extra, pat, a);
        alignas(64) uint8_t key[BB], acc[BB], mk[BB], ma[BB];
        for (size_t i = 0; i < BB; i++) { key[i] = pat == 1 ? 0 : pat == 2 ? 0xFF : dat(i, 5); acc[i] = pat == 1 ? 0 : pat == 2 ? 0xFF : dat(i, 6); }
        memcpy(mk, key, BB); memcpy(ma, acc, BB); Bytes d = data(n, 7);
        const uint8_t *p = a == 0 ? in.put(d.data(), n) : a == 1 ? inh.put(d.data(), n) : in.put_at(d.data(), n, 1021);
        size_t r = comp(acc, key, p, n), all = k; if (!r) k = 0;  // an engine may leave the batch to its caller (unaligned data on ARM)
        for (size_t b = 0; b < k; b++) { uint8_t t[BB]; for (size_t i = 0; i < BB; i++) t[i] = d[b * BB + i] ^ mk[i]; Farfalle::p(t); for (size_t i = 0; i < BB; i++) ma[i] ^= t[i]; Farfalle::rollc(mk); }
        expect_rc((long)r, (long)(k * BB), "compress loop: bytes consumed"); expect(acc, ma, BB, "accumulator"); expect(key, mk, BB, "rolled key");
        alignas(64) uint8_t y[BB], kr[BB], my[BB]; for (size_t i = 0; i < BB; i++) { y[i] = pat == 1 ? 0 : pat == 2 ? 0xFF : dat(i, 8); kr[i] = pat == 1 ? 0 : dat(i, 9); } memcpy(my, y, BB);
        Out &o = a == 1 ? outh : out; size_t on = a == 2 ? n + 3 : n; r = expn(y, kr, o.take(on), n); k = r ? all : 0;
        Bytes e(on, o.fill); for (size_t b = 0; b < k; b++) { uint8_t t[BB]; memcpy(t, my, BB); Farfalle::p(t); for (size_t i = 0; i < BB; i++) e[b * BB + i] = t[i] ^ kr[i]; Farfalle::rolle(my); }
        expect_rc((long)r, (long)(k * BB), "expand loop: bytes produced"); o.check(e.data(), "expanded blocks"); expect(y, my, BB, "rolled state");
        g.transitions += 2; g.states++;
    }
}
static void addis(void (*f)(unsigned char *, const unsigned char *, size_t))
{
    for (size_t n = 0; n <= 3100; n += n < 700 ? 1 : 7) for (int a = 0; a < 4; a++) {
        size_t b = (n + 7) / 8; call("AddIs of %zu bits, placement %d", n, a); Bytes d = data(b, 1), e = data(b, 2);
        const uint8_t *p = a == 0 ? in.put(d.data(), b) : a == 1 ? inh.put(d.data(), b) : in.put_at(d.data(), b, 33 + a);
        Out &o = a == 1 ? outh : out; size_t on = a >= 2 ? b + a - 1 : b; o.take(on); if (b) memcpy(o.p, e.data(), b);
        f(o.p, p, n); for (size_t i = 0; i < b; i++) e[i] ^= d[i]; if (n % 8) e[b - 1] &= (1 << n % 8) - 1; e.resize(on, o.fill); o.check(e.data(), "AddIs"); g.transitions++;
    }
}
#ifndef XOO
static void leaves(void (*f)(const unsigned char *, unsigned char *), unsigned rate, unsigned cv)
{
    for (int pat = 0; pat < 5; pat++) for (int a = 0; a < 3; a++) {
        size_t n = P * 8192; call("leaves at rate %u, pattern %d, placement %d", rate, pat, a);
        Bytes d = data(n, 30 + pat); if (pat == 1) d.assign(n, 0); if (pat == 2) d.assign(n, 0xFF); if (pat == 3) { d.assign(n, 0); for (unsigned i = 0; i < P; i++) d[i * 8192 + 8191] = i + 1; }
        const uint8_t *p = a == 0 ? in.put(d.data(), n) : a == 1 ? inh.put(d.data(), n) : in.put_at(d.data(), n, 1023);
        Bytes e; for (unsigned i = 0; i < P; i++) { uint8_t s[200] = {0}; size_t o = 0; for (size_t j = 0; j < 8192; j++) { s[o++] ^= d[i * 8192 + j]; if (o == rate) { ref::keccakp(s, 12); o = 0; } } s[o] ^= 0x0B; s[rate - 1] ^= 0x80; ref::keccakp(s, 12); e.insert(e.end(), s, s + cv); }
        Out &o = a == 1 ? outh : out; size_t on = e.size() + (a == 2 ? 3 : 0); e.resize(on, o.fill); f(p, o.take(on)); o.check(e.data(), "chaining values"); g.transitions++; g.states++;
    }
}
#endif
// ---- sequences of operations
struct Op { uint8_t k = 0, i = 0; uint16_t a = 0, b = 0; };
static const char *kind[] = {"AddByte", "AddBytes", "OverwriteBytes", "OverwriteWithZeroes", "Permute", "ExtractAndAddBytes", "AddLanesAll", "OverwriteLanesAll", "ExtractAndAddLanesAll", "InitializeAll"};
static std::string show(const Op &o) { return str("%s(instance %u, %u, %u)", kind[o.k], o.i, o.a, o.b); }
static std::vector<Op> OPS; static size_t curd, maxd;
static bool apply(World &w, const Op &o)
{
    Bytes d = data((size_t)P * W + 4096, 11 + 100 * curd); uint8_t *m = w.m[o.i] + (o.k == 3 ? 0 : o.a); size_t sz = o.a ? ((size_t)(P - 1) * o.b + o.a) * L : 0;
    switch (o.k) {
    case 0: F(AddByte)(&w.s, o.i, (unsigned char)o.b, o.a); *m ^= o.b; break;
    case 1: F(AddBytes)(&w.s, o.i, in.put(d.data(), o.b), o.a, o.b); for (int i = 0; i < o.b; i++) m[i] ^= d[i]; break;
    case 2: F(OverwriteBytes)(&w.s, o.i, in.put(d.data(), o.b), o.a, o.b); if (o.b) memcpy(m, d.data(), o.b); break;
    case 3: F(OverwriteWithZeroes)(&w.s, o.i, o.a); memset(m, 0, o.a); break;
    case 4: permute(&w.s, o.a); for (unsigned i = 0; i < P; i++) rperm(w.m[i], o.a); break;
    case 5: out.take(o.b); F(ExtractAndAddBytes)(&w.s, o.i, in.put(d.data(), o.b), out.p, o.a, o.b); for (int i = 0; i < o.b; i++) d[i] ^= m[i]; out.check(d.data(), "ExtractAndAddBytes"); break;
    case 6: F(AddLanesAll)(&w.s, in.put(d.data(), sz), o.a, o.b); for (unsigned i = 0; i < P; i++) for (int j = 0; j < o.a * L; j++) w.m[i][j] ^= d[(size_t)i * o.b * L + j]; break;
    case 7: F(OverwriteLanesAll)(&w.s, in.put(d.data(), sz), o.a, o.b); for (unsigned i = 0; i < P; i++) for (int j = 0; j < o.a * L; j++) w.m[i][j] = d[(size_t)i * o.b * L + j]; break;
    case 8: { out.take(sz); F(ExtractAndAddLanesAll)(&w.s, in.put(d.data(), sz), out.p, o.a, o.b); Bytes e(sz, out.fill); for (unsigned i = 0; i < P; i++) for (int j = 0; j < o.a * L; j++) e[(size_t)i * o.b * L + j] = d[(size_t)i * o.b * L + j] ^ w.m[i][j]; out.check(e.data(), "ExtractAndAddLanesAll"); break; }
    case 9: F(InitializeAll)(&w.s); memset(w.m, 0, sizeof w.m); break;
    }
    full(w, "states");
    return curd < maxd;
}

int main(int argc, char **argv)
{
    mc::init(argc, argv); bool T = g.thorough;
    F(StaticInitialize)();
    for (unsigned i = 0; i < P; i++) for (unsigned off = 0; off < W; off++) if (begin("all range operations, instance %u, offset %u", i, off)) ranges(i, off, T);
    for (unsigned n = 0; n <= LANES; n++) if (begin("all-instance lane operations, %u lanes", n)) lanes(n, T);
    for (int r : ROUNDS) for (unsigned i = 0; i < P; i++) if (begin("%d rounds, weight-1 differences in instance %u", r, i)) perms(r, i);
#ifdef XOO
#define CL J2(Xooffftimes, P, _CompressFastLoop)
#define EL J2(Xooffftimes, P, _ExpandFastLoop)
#define AL J2(Xooffftimes, P, _AddIs)
#ifdef HASFF
    if (begin("compress and expand loops")) farfalle_loops([](uint8_t *x, uint8_t *k, const uint8_t *m, size_t n) { return CL(k, x, m, n); }, [](uint8_t *y, const uint8_t *k, uint8_t *o, size_t n) { return EL(y, k, o, n); }, T);
    if (begin("bit string addition")) addis(AL);
#endif
#else
#ifdef HAS24
    for (unsigned l = 1; l <= 24; l++) if (begin("fast loop, 24 rounds, %u lanes", l)) loop(l, 24, T);
#endif
#ifdef HAS12
    for (unsigned l = 1; l <= 24; l++) if (begin("fast loop, 12 rounds, %u lanes", l)) loop(l, 12, T);
#endif
#define CL J2(KeccakP1600times, P, _KravatteCompress)
#define EL J2(KeccakP1600times, P, _KravatteExpand)
#ifdef HASFF
    if (begin("compress and expand loops")) farfalle_loops([](uint8_t *x, uint8_t *k, const uint8_t *m, size_t n) { return CL((uint64_t *)x, (uint64_t *)k, m, n); }, [](uint8_t *y, const uint8_t *k, uint8_t *o, size_t n) { return EL((uint64_t *)y, (const uint64_t *)k, o, n); }, T);
#endif
#define K1 J2(KeccakP1600times, P, _KT128ProcessLeaves)
#define K2 J2(KeccakP1600times, P, _KT256ProcessLeaves)
#ifdef HASL128
    if (begin("KT128 leaves")) leaves(K1, 168, 32);
#endif
#ifdef HASL256
    if (begin("KT256 leaves")) leaves(K2, 136, 64);
#endif
#endif
    std::vector<Op> ops;
    auto add = [&](int k, int i, int a, int b) { Op o; o.k = k; o.i = i; o.a = a; o.b = b; ops.push_back(o); };
    for (int i : {0, 1, P / 2, P - 1}) {
        if (i == P / 2 && P / 2 == 1) continue;
        for (int k : {1, 2, 5}) { add(k, i, 0, W); add(k, i, 3, 2); add(k, i, 5, 2 * L + 1); add(k, i, 0, L + 1); add(k, i, W - 1, 1); }
        add(0, i, 0, 0x80); add(0, i, W - 1, 1); add(3, i, 0, 0); add(3, i, 2 * L + 1, 0); add(3, i, W, 0);
    }
    for (int r : ROUNDS) add(4, 0, r, 0);
    for (int k : {6, 7, 8}) { add(k, 0, LANES, LANES); add(k, 0, 1, 2); add(k, 0, LANES - 4, LANES - 3); add(k, 0, 0, 0); }
    add(9, 0, 0, 0);
    size_t depth = T ? 4 : 3; if (P >= 8 && !T) depth = 3;
    for (auto &f : ops) if (begin("all sequences of %zu operations starting with %s", depth, show(f).c_str())) {
        std::unique_ptr<World> w(new World); load(*w, dense); maxd = depth; curd = 1; apply(*w, f);
        OPS = ops; maxd = depth - 1; Search<World, Op> q; q.show = show; std::string h = show(f);
        q.run(*w, depth - 1, h, [](const World &, size_t d) { curd = d; return OPS; }, apply, [](World &, size_t) {});
    }
    return mc::finish();
}
