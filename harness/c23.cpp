// C23: lengths around 2^32 bits and 2^32 bytes, in one call and accumulated.
// Inputs are read from a small piece of memory mapped again and again (its period, 257 pages, divides no power of two);
// outputs are written to such a mapping, or to real memory where the code reads its output back.
// The reference streams over the same data once and keeps what it needs at the points of interest.
// -DPART_K (sponge-based), -DKRAVATTE, -DXOOFFF, -DXOODYAK
#include "mc.hpp"
#include "ref.hpp"
#if defined(PART_K)
extern "C" {
#include "KeccakSponge.h"
#include "KeccakHash.h"
#include "SP800-185.h"
#include "TurboSHAKE.h"
#include "KangarooTwelve.h"
#include "KeccakPRG.h"
}
#elif defined(XOODYAK)
extern "C" {
#include "Xoodyak.h"
}
#else
#include "farfalle.hpp"
#endif
#include <map>
#include <set>
#include <algorithm>
using namespace mc;
using ref::Bits; using ref::Sponge;

static const size_t T29 = (size_t)1 << 29, T32 = (size_t)1 << 32, PERIOD = 257 * 4096;
static uint8_t *repeating(size_t size, bool fill)
{
    int fd = memfd_create("rep", 0);
    if (fd < 0 || ftruncate(fd, PERIOD)) { perror("memfd"); exit(2); }
    size = (size + PERIOD - 1) / PERIOD * PERIOD;
    uint8_t *p = (uint8_t *)mmap(nullptr, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    for (size_t o = 0; o < size; o += PERIOD) if (mmap(p + o, PERIOD, fill ? PROT_READ | PROT_WRITE : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(2); }
    if (fill) { for (size_t i = 0; i < PERIOD; i++) p[i] = dat(i, 77); }
    close(fd);
    return p;
}
static const uint8_t *SRC; static uint8_t *DST;
struct Real { uint8_t *p; size_t n; explicit Real(size_t n) : n(n) { p = (uint8_t *)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } } ~Real() { munmap(p, n + 4096); } };
static void tick() { g.progress++; }

/// The points and the calls between them: huge calls from the first two points, one accumulated, and all the short ones.
static bool lean = false;      // quick tier: a single huge call of more than 2^32 bytes
static std::vector<size_t> points()
{ if (!g.thorough && lean) return {0, 1, T29 - 1, T29, T29 + 1, T32 + 1};
  return g.thorough ? std::vector<size_t>{0, 1, T29 - 1, T29, T29 + 1, T32 - 1, T32, T32 + 1, T32 + 4097} : std::vector<size_t>{0, 1, T29 - 1, T29, T29 + 1, T32 - 1, T32, T32 + 1}; }
static bool edge(size_t a, size_t b)
{
    size_t k = b - a;
    if (k < ((size_t)1 << 24)) return k > 0;
    if (b < T32 - 1) return a <= 1;                       // 0, 1 -> around 2^29
    if (g.thorough) return true;
    if (lean) return a == 0 && b == T32 + 1;
    return (a == 0 && b == T32 + 1) || (a == 1 && b == T32) || (a == T29 && b == T32 - 1);
}
/// Explores the graph of points on the real object; states with equal bytes are merged.
template <class I, class Step, class Obs> static void explore(const I &init, Step step, Obs observe)
{
    auto pts = points(); std::vector<std::vector<std::pair<std::unique_ptr<I>, std::string>>> node(pts.size());
    auto put = [](const I &x) { std::unique_ptr<I> p((I *)aligned_alloc(64, (sizeof(I) + 63) / 64 * 64)); memcpy((void *)p.get(), (const void *)&x, sizeof x); return p; };
    node[0].emplace_back(put(init), "start"); g.states++;
    std::unique_ptr<I> t = put(init);
    for (size_t a = 0; a < pts.size(); a++) for (size_t r = 0; r < node[a].size(); r++) for (size_t b = a + 1; b < pts.size(); b++) {
        if (!edge(pts[a], pts[b])) continue;
        
        memcpy((void *)t.get(), (const void *)node[a][r].first.get(), sizeof(I));
        g.free_path = node[a][r].second; g.step_size = (long)(pts[b] - pts[a]); tick();
        step(*t, pts[a], pts[b] - pts[a]);
        g.transitions++;
        bool known = false; for (auto &d : node[b]) if (memcmp((const void *)d.first.get(), (const void *)t.get(), sizeof(I)) == 0) known = true;
        if (known) continue;
        g.states++;
        node[b].emplace_back(put(*t), node[a][r].second + str(" +%zu", pts[b] - pts[a]));
        std::unique_ptr<I> u = put(*t); observe(*u, pts[b]);
    }
    g.step_size = -1; g.free_path.clear();
}

/// Output side: reference bytes just before each point, produced by one streaming pass.
static const size_t WIN = 4096;
struct Windows {
    std::map<size_t, Bytes> w;
    template <class Gen> void make(const std::vector<size_t> &pts, Gen gen)   // gen(uint8_t*, n): next n bytes
    {
        std::vector<uint8_t> buf(1 << 20); Bytes tail; size_t pos = 0;
        for (size_t p : pts) {
            while (pos < p) {
                size_t k = std::min(buf.size(), p - pos); gen(buf.data(), k); tick();
                if (k >= WIN) tail.assign(buf.begin() + (k - WIN), buf.begin() + k);
                else { tail.insert(tail.end(), buf.begin(), buf.begin() + k); if (tail.size() > WIN) tail.erase(tail.begin(), tail.end() - WIN); }
                pos += k;
            }
            w[p] = tail;
        }
    }
    /// after a call that produced [at-k, at) into DST at its own offset
    void check(size_t at, size_t k, const char *what)
    {
        const Bytes &b = w[at]; size_t n = std::min(k, b.size());
        expect(DST + at - n, b.data() + b.size() - n, n, what);
    }
};
template <class I, class Step> static void outputs(const I &init, Windows &w, Step step)
{
    memset(DST, 0xEE, PERIOD);
    explore(init, [&](I &t, size_t at, size_t k) { memset(DST + at, 0xEE, std::min(k, WIN)); if (k > WIN) memset(DST + at + k - WIN, 0xEE, WIN + 64); step(t, DST + at, k); w.check(at + k, k, "last bytes of the output"); }, [](I &, size_t) {});
}

#if defined(PART_K)
/// Reference digests at all points of a stream absorbed by a sponge.
template <class Fin> static std::map<size_t, Bytes> stream(Sponge s, const std::vector<size_t> &pts, Fin fin)
{
    std::map<size_t, Bytes> e; size_t pos = 0;
    for (size_t p : pts) { while (pos < p) { size_t k = std::min<size_t>(1 << 20, p - pos); s.absorb(SRC + pos, k); pos += k; tick(); } e[p] = fin(s, p); }
    return e;
}
static void absorb_big(Sponge &s, size_t n) { for (size_t p = 0; p < n;) { size_t k = std::min<size_t>(1 << 20, n - p); s.absorb(SRC + p, k); p += k; tick(); } }
static void absorb(Sponge &s, const Bits &b) { s.absorb(b.b.data(), b.b.size()); }
static void zero_to_rate(Sponge &s) { uint8_t z = 0; while (s.pos) s.absorb(&z, 1); }
static Bytes end(Sponge s, uint8_t delim, size_t n) { s.finish(delim); return s.squeeze(n); }
typedef ref::SP185 SP;
/// cSHAKE state after the prefix (name and customization of the given byte strings)
static Sponge cs_start(const char *name, const Bits &custom)
{ SP sp(128); Sponge s(168, 24); Bits e = SP::encode_string(SP::ascii(name)); e.append(SP::encode_string(custom)); absorb(s, sp.bytepad(e)); return s; }
static Bytes cvs_leaf(size_t off, size_t n, size_t rate, int nr, uint8_t delim, size_t cv)
{   // chaining value of SRC[off, off+n), remembered by the position in the period
    static std::map<std::vector<size_t>, Bytes> memo; std::vector<size_t> key = {off % PERIOD, n, rate, (size_t)nr};
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    Sponge s(rate, nr); s.absorb(SRC + off, n); s.finish(delim); if (memo.size() > 100000) memo.clear();
    return memo[key] = s.squeeze(cv);
}
static Sponge k12(int level, size_t n)
{   // empty customization
    size_t rate = (1600 - 2 * level) / 8, cv = level / 4; const size_t B = 8192;
    Sponge s(rate, 12);
    if (n + 1 <= B) { s.absorb(SRC, n); uint8_t z = 0; s.absorb(&z, 1); s.finish(0x07); return s; }
    size_t total = n + 1, count = 0;   // S = M || 0x00
    if (n >= B) s.absorb(SRC, B); else exit(2);
    uint8_t z8[8] = {3}; s.absorb(z8, 8);
    for (size_t o = B; o < total; o += B) {
        Bytes c;
        if (o + B <= n) c = cvs_leaf(o, B, rate, 12, 0x0B, cv);
        else { Sponge l(rate, 12); l.absorb(SRC + o, n - o); uint8_t z = 0; l.absorb(&z, 1); l.finish(0x0B); c = l.squeeze(cv); }
        s.absorb(c.data(), cv); count++; if (count % 4096 == 0) tick();
    }
    Bytes e = ref::k12_right_encode(count); e.push_back(0xFF); e.push_back(0xFF); s.absorb(e.data(), e.size()); s.finish(0x06);
    return s;
}
static Sponge parallel(size_t n, size_t block, uint64_t outbits)
{
    Sponge s = cs_start("ParallelHash", Bits()); absorb(s, SP::left_encode(block)); size_t c = 0;
    for (size_t o = 0; o < n; o += block, c++) { Bytes v = cvs_leaf(o, std::min(block, n - o), 168, 24, 0x1F, 32); s.absorb(v.data(), 32); if (c % 4096 == 0) tick(); }
    absorb(s, SP::right_encode(c)); absorb(s, SP::right_encode(outbits)); s.finish(0x04); return s;
}
template <class F> static std::map<size_t, Bytes> table(F f) { std::map<size_t, Bytes> e; for (size_t p : points()) e[p] = f(p); return e; }
static uint8_t outbuf[64];
#define OK(x) expect_rc(x, 0, #x)

static void part(bool loops)
{
    auto pts = points();
    if (begin("KeccakWidth1600_SpongeAbsorb")) {
        KeccakWidth1600_SpongeInstance I; memset((void *)&I, 0, sizeof I); OK(KeccakWidth1600_SpongeInitialize(&I, 1344, 256));
        auto e = stream(Sponge(168), pts, [](Sponge s, size_t) { return end(s, 0x1F, 64); });
        explore(I, [](auto &t, size_t at, size_t k) { OK(KeccakWidth1600_SpongeAbsorb(&t, SRC + at, k)); },
            [&](auto &t, size_t at) { OK(KeccakWidth1600_SpongeAbsorbLastFewBits(&t, 0x1F)); OK(KeccakWidth1600_SpongeSqueeze(&t, outbuf, 64)); expect(outbuf, e[at].data(), 64, "digest"); });
    }
    if (begin("TurboSHAKE_Absorb")) {
        TurboSHAKE_Instance I; memset((void *)&I, 0, sizeof I); OK(TurboSHAKE_Initialize(&I, 256));
        auto e = stream(Sponge(168, 12), pts, [](Sponge s, size_t) { return end(s, 0x1F, 64); });
        explore(I, [](auto &t, size_t at, size_t k) { OK(TurboSHAKE_Absorb(&t, SRC + at, k)); },
            [&](auto &t, size_t at) { OK(TurboSHAKE_AbsorbDomainSeparationByte(&t, 0x1F)); OK(TurboSHAKE_Squeeze(&t, outbuf, 64)); expect(outbuf, e[at].data(), 64, "digest"); });
    }
    for (int lv : {128, 256}) if (begin("KangarooTwelve_Update, level %d", lv)) {
        KangarooTwelve_Instance I; memset((void *)&I, 0, sizeof I); OK(KangarooTwelve_Initialize(&I, lv, 64));
        auto e = table([&](size_t p) { return k12(lv, p).squeeze(64); });
        explore(I, [](auto &t, size_t at, size_t k) { OK(KangarooTwelve_Update(&t, SRC + at, k)); },
            [&](auto &t, size_t at) { OK(KangarooTwelve_Final(&t, outbuf, nullptr, 0)); expect(outbuf, e[at].data(), 64, "digest"); });
    }
    if (begin("ParallelHash128_Update")) {
        ParallelHash_Instance I; memset((void *)&I, 0, sizeof I); OK(ParallelHash128_Initialize(&I, 8192, 512, nullptr, 0));
        auto e = table([&](size_t p) { return parallel(p, 8192, 512).squeeze(64); });
        explore(I, [](auto &t, size_t at, size_t k) { OK(ParallelHash128_Update(&t, SRC + at, 8 * k)); },
            [&](auto &t, size_t at) { OK(ParallelHash128_Final(&t, outbuf)); expect(outbuf, e[at].data(), 64, "digest"); });
    }
    if (loops) return;
    lean = true; pts = points();
    if (begin("Keccak_HashUpdate (bits)")) {
        Keccak_HashInstance I; memset((void *)&I, 0, sizeof I); OK(Keccak_HashInitialize(&I, 1344, 256, 512, 0x1F));
        auto e = stream(Sponge(168), pts, [](Sponge s, size_t) { return end(s, 0x1F, 64); });
        explore(I, [](auto &t, size_t at, size_t k) { OK(Keccak_HashUpdate(&t, SRC + at, 8 * k)); },
            [&](auto &t, size_t at) { OK(Keccak_HashFinal(&t, outbuf)); expect(outbuf, e[at].data(), 64, "digest"); });
        for (size_t extra : {1, 3, 7}) {   // one call with a length that is no multiple of 8
            Keccak_HashInstance t = I; g.free_path = str("one call of 2^32 + %zu bits", extra);
            OK(Keccak_HashUpdate(&t, SRC, 8 * T29 + extra)); OK(Keccak_HashFinal(&t, outbuf)); g.transitions++;
            Sponge s(168); absorb_big(s, T29); Bits b(SRC + T29, extra); b = ref::with_suffix(b, 0x1F); b.bit(1);
            if (b.n > 8) { s.absorb(b.b.data(), 1); s.finish(b.b[1]); } else s.finish(b.b[0]);
            expect(outbuf, s.squeeze(64).data(), 64, "digest");
        }
        g.free_path.clear();
    }
    if (begin("cSHAKE128_Update (bits)")) {
        cSHAKE_Instance I; memset((void *)&I, 0, sizeof I); OK(cSHAKE128_Initialize(&I, 512, (const uint8_t *)"Name", 32, (const uint8_t *)"Custom", 48));
        auto e = stream(cs_start("Name", SP::ascii("Custom")), pts, [](Sponge s, size_t) { return end(s, 0x04, 64); });
        explore(I, [](auto &t, size_t at, size_t k) { OK(cSHAKE128_Update(&t, SRC + at, 8 * k)); },
            [&](auto &t, size_t at) { OK(cSHAKE128_Final(&t, outbuf)); expect(outbuf, e[at].data(), 64, "digest"); });
    }
    if (begin("KMAC128_Update (bits)")) {
        KMAC_Instance I; memset((void *)&I, 0, sizeof I); OK(KMAC128_Initialize(&I, (const uint8_t *)"Key", 24, 512, nullptr, 0));
        Sponge s0 = cs_start("KMAC", Bits()); absorb(s0, SP(128).bytepad(SP::encode_string(SP::ascii("Key"))));
        auto e = stream(s0, pts, [](Sponge s, size_t) { absorb(s, SP::right_encode(512)); return end(s, 0x04, 64); });
        explore(I, [](auto &t, size_t at, size_t k) { OK(KMAC128_Update(&t, SRC + at, 8 * k)); },
            [&](auto &t, size_t at) { OK(KMAC128_Final(&t, outbuf)); expect(outbuf, e[at].data(), 64, "digest"); });
    }
    std::vector<size_t> big = {T29 - 1, T29, T29 + 1}, all = big; if (g.thorough) { all.push_back(T32 - 1); all.push_back(T32); } all.push_back(T32 + 1);
    for (size_t n : all) if ((g.thorough || n < T32) && begin("TupleHash128 with an element of %zu bytes", n))
        for (int pat = 0; pat < (n > T29 + 1 ? 1 : 3); pat++) {   // huge; huge,short; short,huge
            std::vector<size_t> el = pat == 0 ? std::vector<size_t>{n} : pat == 1 ? std::vector<size_t>{n, 3} : std::vector<size_t>{3, n};
            Sponge s = cs_start("TupleHash", Bits()); TupleHash_Instance t; memset((void *)&t, 0, sizeof t); OK(TupleHash128_Initialize(&t, 512, nullptr, 0));
            std::vector<TupleElement> te;
            for (size_t k : el) { absorb(s, SP::left_encode(8 * (uint64_t)k)); absorb_big(s, k); te.push_back(TupleElement{(BitSequence *)SRC, 8 * k}); }
            g.free_path = str("pattern %d", pat);
            OK(TupleHash128_Update(&t, te.data(), te.size())); OK(TupleHash128_Final(&t, outbuf)); g.transitions++;
            absorb(s, SP::right_encode(512)); expect(outbuf, end(s, 0x04, 64).data(), 64, "digest");
        }
    // one-shot functions and the other string arguments
    if (begin("one-shot functions with huge messages")) {
        for (size_t n : all) {
            g.free_path = str("KangarooTwelve(%zu)", n); OK(KangarooTwelve(128, SRC, n, outbuf, 64, nullptr, 0)); g.transitions++;
            expect(outbuf, k12(128, n).squeeze(64).data(), 64, "KT128");
            g.free_path = str("ParallelHash128(%zu)", n); OK(ParallelHash128(SRC, 8 * n, 8192, outbuf, 512, nullptr, 0)); g.transitions++;
            expect(outbuf, parallel(n, 8192, 512).squeeze(64).data(), 64, "ParallelHash128");
        }
        g.free_path.clear();
    }
    for (size_t n : all) if (begin("Sponge one-shot with %zu bytes", n)) { OK(KeccakWidth1600_Sponge(1344, 256, SRC, n, 0x1F, outbuf, 64)); Sponge s(168); absorb_big(s, n); expect(outbuf, end(s, 0x1F, 64).data(), 64, "digest"); g.transitions++; }
    for (size_t n : all) if (begin("TurboSHAKE one-shot with %zu bytes", n)) { OK(TurboSHAKE(512, SRC, n, 0x0B, outbuf, 64)); Sponge s(136, 12); absorb_big(s, n); expect(outbuf, end(s, 0x0B, 64).data(), 64, "digest"); g.transitions++; }
    for (size_t n : big) for (int which = 0; which < 4; which++) if ((g.thorough || n != T29) && begin("huge string argument %d of %zu bytes", which, n)) {
        Sponge s(168); Bits f = SP::left_encode(168); absorb(s, f); g.transitions++;
        if (which == 0) {          // cSHAKE name
            OK(cSHAKE128((const uint8_t *)"abc", 24, outbuf, 512, SRC, 8 * n, (const uint8_t *)"xy", 16));
            absorb(s, SP::left_encode(8 * n)); absorb_big(s, n); absorb(s, SP::encode_string(SP::ascii("xy"))); zero_to_rate(s); absorb(s, SP::ascii("abc"));
        } else if (which == 1) {   // cSHAKE customization
            OK(cSHAKE128((const uint8_t *)"abc", 24, outbuf, 512, (const uint8_t *)"xy", 16, SRC, 8 * n));
            absorb(s, SP::encode_string(SP::ascii("xy"))); absorb(s, SP::left_encode(8 * n)); absorb_big(s, n); zero_to_rate(s); absorb(s, SP::ascii("abc"));
        } else if (which == 2) {   // KMAC key
            OK(KMAC128(SRC, 8 * n, (const uint8_t *)"abc", 24, outbuf, 512, (const uint8_t *)"xy", 16));
            s = cs_start("KMAC", SP::ascii("xy")); absorb(s, f); absorb(s, SP::left_encode(8 * n)); absorb_big(s, n); zero_to_rate(s); absorb(s, SP::ascii("abc")); absorb(s, SP::right_encode(512));
        } else {                   // KangarooTwelve customization, empty message
            OK(KangarooTwelve(128, nullptr, 0, outbuf, 64, SRC, n));
            Bytes enc = ref::k12_right_encode(n); const size_t B = 8192; Sponge q(168, 12); q.absorb(SRC, B); uint8_t z8[8] = {3}; q.absorb(z8, 8); size_t c = 0, total = n + enc.size();
            for (size_t o = B; o < total; o += B, c++) {
                Sponge l(168, 12); Bytes v;
                if (o + B <= n) v = cvs_leaf(o, B, 168, 12, 0x0B, 32);
                else { if (o < n) l.absorb(SRC + o, n - o); size_t skip = o > n ? o - n : 0; l.absorb(enc.data() + skip, std::min(enc.size(), o + B > n ? o + B - n : 0) - skip); l.finish(0x0B); v = l.squeeze(32); }
                q.absorb(v.data(), 32);
            }
            Bytes e = ref::k12_right_encode(c); e.push_back(0xFF); e.push_back(0xFF); q.absorb(e.data(), e.size()); q.finish(0x06);
            expect(outbuf, q.squeeze(64).data(), 64, "digest"); continue;
        }
        expect(outbuf, end(s, 0x04, 64).data(), 64, "digest");
    }
    // outputs
    auto windows = [&](Sponge s) { Windows w; w.make(pts, [&](uint8_t *p, size_t n) { s.squeeze(p, n); }); return w; };
    if (begin("KeccakWidth1600_SpongeSqueeze")) {
        KeccakWidth1600_SpongeInstance I; memset((void *)&I, 0, sizeof I); OK(KeccakWidth1600_SpongeInitialize(&I, 1344, 256)); OK(KeccakWidth1600_SpongeAbsorbLastFewBits(&I, 0x1F));
        Sponge s(168); s.finish(0x1F); Windows w = windows(s);
        outputs(I, w, [](auto &t, uint8_t *p, size_t k) { OK(KeccakWidth1600_SpongeSqueeze(&t, p, k)); });
    }
    if (begin("Keccak_HashSqueeze (bits)")) {
        Keccak_HashInstance I; memset((void *)&I, 0, sizeof I); OK(Keccak_HashInitialize(&I, 1344, 256, 0, 0x1F)); OK(Keccak_HashFinal(&I, outbuf));
        Sponge s(168); s.finish(0x1F); Windows w = windows(s);
        outputs(I, w, [](auto &t, uint8_t *p, size_t k) { OK(Keccak_HashSqueeze(&t, p, 8 * k)); });
    }
    if (begin("cSHAKE128_Squeeze (bits)")) {
        cSHAKE_Instance I; memset((void *)&I, 0, sizeof I); OK(cSHAKE128_Initialize(&I, 0, (const uint8_t *)"Name", 32, nullptr, 0)); OK(cSHAKE128_Final(&I, outbuf));
        Sponge s = cs_start("Name", Bits()); s.finish(0x04); Windows w = windows(s);
        outputs(I, w, [](auto &t, uint8_t *p, size_t k) { OK(cSHAKE128_Squeeze(&t, p, 8 * k)); });
    }
    if (begin("TurboSHAKE_Squeeze")) {
        TurboSHAKE_Instance I; memset((void *)&I, 0, sizeof I); OK(TurboSHAKE_Initialize(&I, 256)); OK(TurboSHAKE_AbsorbDomainSeparationByte(&I, 0x1F));
        Sponge s(168, 12); s.finish(0x1F); Windows w = windows(s);
        outputs(I, w, [](auto &t, uint8_t *p, size_t k) { OK(TurboSHAKE_Squeeze(&t, p, k)); });
    }
    if (begin("KangarooTwelve_Squeeze")) {
        KangarooTwelve_Instance I; memset((void *)&I, 0, sizeof I); OK(KangarooTwelve_Initialize(&I, 128, 0)); OK(KangarooTwelve_Final(&I, outbuf, nullptr, 0));
        Windows w = windows(k12(128, 0));
        outputs(I, w, [](auto &t, uint8_t *p, size_t k) { OK(KangarooTwelve_Squeeze(&t, p, k)); });
    }
    // outputs of declared length
    auto fixed = [&](Sponge s, size_t n, const char *what) { Windows w; w.make({n}, [&](uint8_t *p, size_t k) { s.squeeze(p, k); }); w.check(n, n, what); g.transitions++; };
    for (size_t n : all) for (int which = 0; which < 6; which++) if ((g.thorough || n == T29 + 1 || (n > T29 + 1 && which % 5 == 0)) && begin("declared output length of %zu bytes, function %d", n, which)) {
        memset(DST + n - WIN, 0xEE, WIN + 64);
        Sponge s(168);
        switch (which) {
        case 0: { cSHAKE_Instance t; OK(cSHAKE128_Initialize(&t, 8 * n, nullptr, 0, (const uint8_t *)"c", 8)); OK(cSHAKE128_Update(&t, SRC, 80)); OK(cSHAKE128_Final(&t, DST)); s = cs_start("", SP::ascii("c")); s.absorb(SRC, 10); s.finish(0x04); fixed(s, n, "cSHAKE128"); break; }
        case 1: OK(KMAC128((const uint8_t *)"Key", 24, SRC, 80, DST, 8 * n, nullptr, 0)); s = SP(128).kmac(SP::ascii("Key"), Bits(SRC, 80), Bits(), 8 * n); fixed(s, n, "KMAC128"); break;
        case 2: { TupleElement e{(BitSequence *)SRC, 80}; OK(TupleHash128(&e, 1, DST, 8 * n, nullptr, 0)); fixed(SP(128).tuple({Bytes(SRC, SRC + 10)}, Bits(), 8 * n), n, "TupleHash128"); break; }
        case 3: OK(ParallelHash128(SRC, 80, 8, DST, 8 * n, nullptr, 0)); fixed(SP(128).parallel(Bytes(SRC, SRC + 10), 8, Bits(), 8 * n), n, "ParallelHash128"); break;
        case 4: { KangarooTwelve_Instance t; OK(KangarooTwelve_Initialize(&t, 256, n)); OK(KangarooTwelve_Final(&t, DST, nullptr, 0)); fixed(k12(256, 0), n, "KT256"); break; }
        case 5: OK(KangarooTwelve(128, SRC, 9000, DST, n, nullptr, 0)); fixed(k12(128, 9000), n, "KangarooTwelve"); break;
        }
    }
    // pseudo-random generator: lengths are unsigned int
    if (begin("SpongePRG_Feed and SpongePRG_Fetch")) {
        struct Prg { KeccakWidth1600_SpongePRG_Instance p; } I; memset((void *)&I, 0, sizeof I); OK(KeccakWidth1600_SpongePRG_Initialize(&I.p, 256)); const size_t rho = (1344 - 2) / 8, M = 0xFFFFFFFFu;
        for (size_t n : g.thorough ? std::vector<size_t>{T29, M - rho, M - 1, M} : std::vector<size_t>{T29, M}) {
            Prg t = I; g.free_path = str("Feed(%zu) Fetch(%zu)", n, n); OK(KeccakWidth1600_SpongePRG_Feed(&t.p, SRC, (unsigned)n)); memset(DST + n - WIN, 0xEE, WIN + 64); OK(KeccakWidth1600_SpongePRG_Fetch(&t.p, DST, (unsigned)n)); g.transitions += 2;
            Sponge s(168); for (size_t o = 0; o + rho <= n; o += rho) { s.absorb(SRC + o, rho); s.finish(0x01); s.pos = 0; if (o % (1 << 20) < rho) tick(); }
            s.absorb(SRC + n / rho * rho, n % rho); s.finish(0x01);
            size_t left = rho; Windows w;
            w.make({n}, [&](uint8_t *p, size_t k) { while (k) { if (!left) { s.pos = 0; s.finish(0x01); left = rho; } size_t m = std::min(k, left); s.squeeze(p, m); p += m; k -= m; left -= m; } });
            w.check(n, n, "fetched bytes");
        }
        g.free_path.clear();
    }
}
int main(int argc, char **argv)
{
    init(argc, argv); bool loops = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "loops")) loops = true;
    SRC = repeating(T32 + (1 << 21), true); DST = repeating(T32 + (1 << 21), false);
    part(loops);
    return finish();
}

#elif defined(XOODYAK)
struct Model {   // Cyclist[Xoodoo], as in C14, on pointers
    uint8_t s[48]; bool down = true, keyed = false;
    Model() { memset(s, 0, 48); down = false; }
    void Down(const uint8_t *x, size_t n, int cd) { for (size_t i = 0; i < n; i++) s[i] ^= x[i]; s[n] ^= 1; s[47] ^= keyed ? cd : cd & 1; down = true; }
    void Up(uint8_t *y, size_t n, int cu) { if (keyed) s[47] ^= cu; ref::xoodoo(s, 12); down = false; if (n) memcpy(y, s, n); }
    void absorbAny(const uint8_t *x, size_t n, size_t r, int cd) { do { size_t k = std::min(n, r); if (down) Up(nullptr, 0, 0); Down(x, k, cd); cd = 0; x += k; n -= k; if ((n & 0xFFF00) == 0) tick(); } while (n); }
    void init(const Bytes &K) { if (K.empty()) return; keyed = true; Bytes b = K; b.push_back(0); absorbAny(b.data(), b.size(), 44, 2); }
    void absorb(const uint8_t *x, size_t n) { absorbAny(x, n, keyed ? 44 : 16, 3); }
    Bytes squeeze(size_t n, int cu) { Bytes y(n); size_t r = keyed ? 24 : 16, o = 0, k = std::min(n, r); Up(y.data(), k, cu); o = k; while (o < n) { Down(nullptr, 0, 0); k = std::min(n - o, r); Up(y.data() + o, k, 0); o += k; } return y; }
};
static void start(Xoodyak_Instance &x, Model &m, bool keyed)
{ memset((void *)&x, 0, sizeof x); Bytes K = keyed ? data(16, 5) : Bytes(); m.init(K); Xoodyak_Initialize(&x, keyed ? K.data() : nullptr, K.size(), nullptr, 0, nullptr, 0); }
static void tag(Xoodyak_Instance &x, Model &m) { uint8_t t[40]; Xoodyak_Squeeze(&x, t, 40); expect(t, m.squeeze(40, 0x40).data(), 40, "squeezed bytes after it"); }
int main(int argc, char **argv)
{
    init(argc, argv);
    SRC = repeating(T32 + (1 << 21), true); DST = repeating(T32 + (1 << 21), false);
    std::vector<size_t> big = {T29 - 1, T29, T29 + 1}, huge = g.thorough ? std::vector<size_t>{T32 - 1, T32, T32 + 1} : std::vector<size_t>{T32 + 1};
    auto lens = [&](bool quickhuge) { std::vector<size_t> v = big; if (quickhuge || g.thorough) v.insert(v.end(), huge.begin(), huge.end()); return v; };
    for (size_t n : lens(true)) if (begin("keyed Absorb of %zu bytes", n)) { Xoodyak_Instance x; Model m; start(x, m, true); Xoodyak_Absorb(&x, SRC, n); m.absorb(SRC, n); g.transitions++; tag(x, m); }
    for (size_t n : lens(false)) if (begin("hash Absorb of %zu bytes", n)) { Xoodyak_Instance x; Model m; start(x, m, false); Xoodyak_Absorb(&x, SRC, n); m.absorb(SRC, n); g.transitions++; tag(x, m); }
    for (size_t n : lens(false)) for (int keyed = 0; keyed < 2; keyed++) for (int key = 0; key <= keyed; key++) if (begin("%s%s of %zu bytes", keyed ? "keyed " : "", key ? "SqueezeKey" : "Squeeze", n)) {
        Xoodyak_Instance x; Model m; start(x, m, keyed); memset(DST + n - WIN, 0xEE, WIN + 64);
        (key ? Xoodyak_SqueezeKey : Xoodyak_Squeeze)(&x, DST, n); g.transitions++;
        size_t r = keyed ? 24 : 16, have = r; bool first = true; uint8_t y[24]; Windows w; int cu = key ? 0x20 : 0x40;
        w.make({n}, [&](uint8_t *p, size_t k) { while (k) { if (have == r) { if (!first) m.Down(nullptr, 0, 0); m.Up(y, r, first ? cu : 0); first = false; have = 0; } size_t j = std::min(k, r - have); memcpy(p, y + have, j); p += j; have += j; k -= j; } });
        w.check(n, n, "last bytes of the output"); tag(x, m);
    }
    for (size_t n : lens(false)) for (int dec = 0; dec < 2; dec++) if (begin("%s of %zu bytes", dec ? "Decrypt" : "Encrypt", n)) {
        Xoodyak_Instance x; Model m; start(x, m, true); Real o(n); (dec ? Xoodyak_Decrypt : Xoodyak_Encrypt)(&x, SRC, o.p, n); g.transitions++;
        int cu = 0x80; uint8_t z[24];
        for (size_t i = 0; i < n;) {
            size_t k = std::min<size_t>(n - i, 24); m.Up(z, k, cu); cu = 0;
            for (size_t j = 0; j < k; j++) z[j] ^= SRC[i + j];
            if (memcmp(z, o.p + i, k)) { g.aux1 = (long)i; expect(o.p + i, z, k, "text at offset %ld"); }
            m.Down(dec ? z : SRC + i, k, 0); i += k; if (i % (24 << 14) == 0) tick();
        }
        g.comparisons++;
        for (size_t i = 0; i < 64; i++) if (o.p[n + i]) fail("byte after the output was written");
        tag(x, m);
    }
    return finish();
}

#else   // Kravatte and Xoofff
#ifdef KRAVATTE
typedef Kravatte_SANE_Instance SANE; typedef Kravatte_SANSE_Instance SANSE;
static const auto sane_init = Kravatte_SANE_Initialize; static const auto sane_wrap = Kravatte_SANE_Wrap; static const auto sane_unwrap = Kravatte_SANE_Unwrap;
static const auto sanse_init = Kravatte_SANSE_Initialize; static const auto sanse_wrap = Kravatte_SANSE_Wrap; static const auto sanse_unwrap = Kravatte_SANSE_Unwrap;
static const auto wbc_enc = Kravatte_WBC_Encipher; static const auto wbc_dec = Kravatte_WBC_Decipher; static const auto wbcae_enc = Kravatte_WBCAE_Encipher; static const auto wbcae_dec = Kravatte_WBCAE_Decipher;
#else
typedef XoofffSANE_Instance SANE; typedef XoofffSANSE_Instance SANSE;
static const auto sane_init = XoofffSANE_Initialize; static const auto sane_wrap = XoofffSANE_Wrap; static const auto sane_unwrap = XoofffSANE_Unwrap;
static const auto sanse_init = XoofffSANSE_Initialize; static const auto sanse_wrap = XoofffSANSE_Wrap; static const auto sanse_unwrap = XoofffSANSE_Unwrap;
static const auto wbc_enc = XoofffWBC_Encipher; static const auto wbc_dec = XoofffWBC_Decipher; static const auto wbcae_enc = XoofffWBCAE_Encipher; static const auto wbcae_dec = XoofffWBCAE_Decipher;
#endif
#define OK(x) expect_rc(x, 0, #x)
/// Reference on huge strings: n bits at p followed by a few more bits.
static void add(Farfalle &f, const uint8_t *p, size_t bits, std::initializer_list<int> more)
{
    size_t c = 0; while (bits >= 8 * BB) { f.block(p); p += BB; bits -= 8 * BB; if (++c % 4096 == 0) tick(); }
    Bits b(p, bits); for (int x : more) b.bit(x);
    f.tail(b.b.data(), b.n);
}
/// c = p XOR output bits from byte offset from (multiple of nothing in particular)
static void crypt(const Farfalle &f, size_t from, const uint8_t *p, uint8_t *c, size_t bits, bool shrt = false)
{
    uint8_t y[BB], t[BB]; memcpy(y, f.x, BB); if (!shrt) Farfalle::p(y);
    size_t n = (bits + 7) / 8, pos = 0, cnt = 0;    // pos: byte of the output stream at the start of the block
    while (pos < from + n) {
        if (pos + BB > from) { memcpy(t, y, BB); Farfalle::p(t); for (size_t i = 0; i < BB; i++) if (pos + i >= from && pos + i < from + n) c[pos + i - from] = p[pos + i - from] ^ t[i] ^ f.kr[i]; }
        Farfalle::rolle(y); pos += BB; if (++cnt % 4096 == 0) tick();
    }
    if (bits % 8) c[n - 1] &= (uint8_t)((1 << bits % 8) - 1);
}
static Bytes tagof(const Farfalle &f, size_t n) { Bytes z(n, 0), t(n); crypt(f, 0, z.data(), t.data(), 8 * n); return t; }
static void same(const uint8_t *got, const uint8_t *want, size_t bits, const char *what)
{
    size_t n = bits / 8, o = 0; while (o < n) { size_t k = std::min<size_t>(n - o, 1 << 24); if (memcmp(got + o, want + o, k)) { g.aux1 = (long)o; expect(got + o, want + o, k, str("%s, from offset %%ld", what).c_str()); } o += k; tick(); }
    if (bits % 8) { uint8_t m = (uint8_t)((1 << bits % 8) - 1); if ((got[n] ^ want[n]) & m) fail("%s: last bits differ", what); }
    for (size_t i = 0; i < 64; i++) if (got[(bits + 7) / 8 + i]) fail("%s: byte after the output was written", what);
    g.comparisons++;
}
static size_t split(size_t n)
{
    size_t b = 8 * BB, l = 8;
    if (n <= 2 * b - (l + 2)) return l * ((n + l) / (2 * l));
    size_t q = (n + l + 2 + b - 1) / b, x = 1; while (((size_t)2 << (x - 1)) < q) x++;
    return (q - ((size_t)1 << (x - 1))) * b - l;
}
static void m_wbc(const Farfalle &f0, uint8_t *buf, size_t n, const uint8_t *W, size_t wn)
{
    size_t nL = split(n), nR = n - nL; uint8_t *L = buf, *R = buf + nL / 8;
    auto H = [&](const uint8_t *m, size_t mn, int bit, uint8_t *io, size_t k) { Farfalle f = f0; add(f, m, mn, {bit}); crypt(f, 0, io, io, k, true); };
    auto G = [&](const uint8_t *m, size_t mn, int bit, uint8_t *io, size_t k) { Farfalle f = f0; add(f, W, wn, {}); add(f, m, mn, {bit}); crypt(f, 0, io, io, k, false); };
    size_t hr = std::min(8 * BB, nR), hl = std::min(8 * BB, nL);
    H(L, nL, 0, R, hr); G(R, nR, 1, L, nL); G(L, nL, 0, R, nR); H(R, nR, 1, L, hl);
}
int main(int argc, char **argv)
{
    init(argc, argv); bool loops = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "loops")) loops = true;
    SRC = repeating(T32 + (1 << 21), true); DST = repeating(T32 + (1 << 21), false);
    auto pts = points(); Bits key = bits_of(190, 1); Bytes kb = key.b; const Farfalle f0(key);
    struct St { FF f; uint32_t fresh, pad; };
    St I; memset((void *)&I, 0, sizeof I); OK(ff_key(&I.f, kb.data(), key.n)); I.fresh = 1;
    if (begin("compression (bits)")) {
        std::map<size_t, Bytes> e; Farfalle f = f0; size_t done = 0;
        for (size_t p : pts) { while (done + BB <= p) { f.block(SRC + done); done += BB; if (done % (BB << 12) == 0) tick(); } Farfalle u = f; add(u, SRC + done, 8 * (p - done), {}); e[p] = tagof(u, 64); }
        explore(I, [](St &t, size_t at, size_t k) { OK(ff_in(&t.f, SRC + at, 8 * k, t.fresh ? INIT : 0)); t.fresh = 0; },
            [&](St &t, size_t at) { uint8_t o[64]; OK(ff_in(&t.f, SRC, 0, LAST)); OK(ff_out(&t.f, o, 512, LAST)); expect(o, e[at].data(), 64, "output after it"); });
    }
    if (begin("expansion (bits)")) {
        St J = I; Farfalle f = f0; add(f, SRC, 80, {}); OK(ff_in(&J.f, SRC, 80, INIT | LAST));
        uint8_t y[BB], blk[BB]; memcpy(y, f.x, BB); Farfalle::p(y); size_t have = BB; Windows w;
        w.make(pts, [&](uint8_t *p, size_t k) { while (k) { if (have == BB) { memcpy(blk, y, BB); Farfalle::p(blk); for (size_t i = 0; i < BB; i++) blk[i] ^= f.kr[i]; Farfalle::rolle(y); have = 0; } size_t m = std::min(k, BB - have); memcpy(p, blk + have, m); p += m; have += m; k -= m; } });
        outputs(J, w, [](St &t, uint8_t *p, size_t k) { OK(ff_out(&t.f, p, 8 * k, 0)); });
    }
    if (loops) return finish();
    std::vector<size_t> bits = {8 * T29 - 3, 8 * T29, 8 * T29 + 3}; if (g.thorough) { bits.push_back(8 * T29 - 8); bits.push_back(8 * T29 + 8); bits.push_back(8 * T29 + 8 * BB); }
    for (size_t n : bits) if (begin("one call of %zu bits in, and %zu bits out", n, n)) {
        FF t = I.f; Real o((n + 7) / 8); OK(ff_all(&t, SRC, n, o.p, n, 0)); g.transitions++;
        Farfalle f = f0; add(f, SRC, n, {}); Real z((n + 7) / 8), want((n + 7) / 8); crypt(f, 0, z.p, want.p, n); if (n % 8) o.p[n / 8] &= (1 << n % 8) - 1; same(o.p, want.p, n, "output");
    }
    // modes: huge data, huge associated data
    Bits nonce = bits_of(128, 9);
    for (int se = 0; se < 2; se++) for (size_t n : bits) for (int ad = 0; ad < 2; ad++) if (begin("%s, %s of %zu bits", se ? "SANSE" : "SANE", ad ? "associated data" : "plaintext", n)) {
        size_t pn = ad ? 83 : n, an = ad ? n : 21, pb = (pn + 7) / 8; size_t T = se ? 32 : 16; Real c(pb), q(pb), want(pb);
        Farfalle m = f0, h; Bytes wt; uint8_t tg[32], it[32];
        union U { SANE a; SANSE b; U() {} } s, r; memset((void *)&s, 0, sizeof s); memset((void *)&r, 0, sizeof r);
        if (se) { OK(sanse_init(&s.b, kb.data(), key.n)); OK(sanse_init(&r.b, kb.data(), key.n)); } else { OK(sane_init(&s.a, kb.data(), key.n, nonce.b.data(), nonce.n, it)); OK(sane_init(&r.a, kb.data(), key.n, nonce.b.data(), nonce.n, it)); m.string(nonce); }
        for (int e = 0; e < 2; e++) {   // the second message is short: the history must be right
            size_t P = e ? 40 : pn, A = e ? 0 : an;
            if (!se) {
                crypt(m, 16, SRC, want.p, P); if (A) add(m, SRC, A, {0, e}); add(m, want.p, P, {1, e}); wt = tagof(m, 16);
            } else {
                if (A) add(m, SRC, A, {0, e}); h = m; add(m, SRC, P, {0, 1, e}); wt = tagof(m, 32);
                add(h, wt.data(), 256, {1, 1, e}); crypt(h, 0, SRC, want.p, P);
            }
            if (e) { memset(c.p, 0, pb); memset(q.p, 0, pb); }
            OK(se ? sanse_wrap(&s.b, SRC, c.p, P, SRC, A, tg) : sane_wrap(&s.a, SRC, c.p, P, SRC, A, tg));
            same(c.p, want.p, P, "ciphertext"); expect(tg, wt.data(), T, "tag");
            OK(se ? sanse_unwrap(&r.b, c.p, q.p, P, SRC, A, tg) : sane_unwrap(&r.a, c.p, q.p, P, SRC, A, tg)); g.transitions += 2;
            same(q.p, SRC, P, "recovered plaintext");
        }
    }
    for (size_t n : bits) for (int w = 0; w < 3; w++) if (begin("WBC of %zu bits, case %d", n, w)) {   // 0 data, 1 tweak, 2 authenticated
        size_t dn = w == 1 ? 700 : n, wn = w == 1 ? n : 37, nb = (dn + 7) / 8 + 16; Real c(nb), q(nb), want(nb); FF t = I.f;
        memcpy(want.p, SRC, (dn + 7) / 8); if (dn % 8) want.p[dn / 8] &= (1 << dn % 8) - 1;
        if (w < 2) {
            m_wbc(f0, want.p, dn, SRC, wn);
            OK(wbc_enc(&t, SRC, c.p, dn, SRC, wn)); same(c.p, want.p, dn, "enciphered"); OK(wbc_dec(&t, c.p, q.p, dn, SRC, wn)); same(q.p, SRC, dn, "deciphered");
        } else {
            Real p2(nb); memcpy(p2.p, SRC, (dn + 7) / 8);
            m_wbc(f0, want.p, dn + 128, SRC, wn);
            OK(wbcae_enc(&t, p2.p, c.p, dn, SRC, wn)); same(c.p, want.p, dn + 128, "enciphered"); OK(wbcae_dec(&t, c.p, q.p, dn, SRC, wn)); for (size_t i = dn / 8 + (dn % 8 != 0); i < nb; i++) q.p[i] = 0; same(q.p, SRC, dn, "deciphered");
        }
        g.transitions += 2;
    }
    return finish();
}
#endif
