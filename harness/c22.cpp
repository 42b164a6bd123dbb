// C22: standalone C and Rust implementations of FIPS 202 and KangarooTwelve; the C++ low-level model.
#include "mc.hpp"
#include "ref.hpp"
using namespace mc;

#ifdef PART_C
typedef unsigned char u8; typedef unsigned long long ull;
extern "C" {
#define SPONGE(P, L, N) \
    void P##Keccak(unsigned, unsigned, const u8 *, ull, u8, u8 *, ull); \
    void P##FIPS202_SHAKE128(const u8 *, L, u8 *, N); void P##FIPS202_SHAKE256(const u8 *, L, u8 *, N); \
    void P##FIPS202_SHA3_224(const u8 *, L, u8 *); void P##FIPS202_SHA3_256(const u8 *, L, u8 *); \
    void P##FIPS202_SHA3_384(const u8 *, L, u8 *); void P##FIPS202_SHA3_512(const u8 *, L, u8 *);
SPONGE(rd_, unsigned, int)
SPONGE(rl_, unsigned, int)
SPONGE(mo_, ull, ull)
#define TWEET(P) \
    int P##crypto_hash_shake128(u8 *, ull, const u8 *, ull); int P##crypto_hash_shake256(u8 *, ull, const u8 *, ull); \
    int P##crypto_hash_sha3224(u8 *, const u8 *, ull); int P##crypto_hash_sha3256(u8 *, const u8 *, ull); \
    int P##crypto_hash_sha3384(u8 *, const u8 *, ull); int P##crypto_hash_sha3512(u8 *, const u8 *, ull);
TWEET(tc_)
TWEET(tw_)
void rs_Keccak(int, int, const u8 *, ull, u8, u8 *, ull);
}
static const struct { const char *name; size_t rate, out; } INST[6] = {{"SHAKE128", 168, 0}, {"SHAKE256", 136, 0}, {"SHA3-224", 144, 28}, {"SHA3-256", 136, 32}, {"SHA3-384", 104, 48}, {"SHA3-512", 72, 64}};
static const char *IMPL[5] = {"readable-and-compact", "readable-and-compact LITTLE_ENDIAN", "more-compact", "Tweetable .c", "Tweetable .tweets"};

static void instance(int impl, int i, const u8 *in, size_t n, u8 *out, size_t m)
{
#define CALL_SPONGE(P) switch (i) { case 0: P##FIPS202_SHAKE128(in, n, out, m); break; case 1: P##FIPS202_SHAKE256(in, n, out, m); break; \
    case 2: P##FIPS202_SHA3_224(in, n, out); break; case 3: P##FIPS202_SHA3_256(in, n, out); break; case 4: P##FIPS202_SHA3_384(in, n, out); break; default: P##FIPS202_SHA3_512(in, n, out); }
#define CALL_TWEET(P) { int rc = 0; switch (i) { case 0: rc = P##crypto_hash_shake128(out, m, in, n); break; case 1: rc = P##crypto_hash_shake256(out, m, in, n); break; \
    case 2: rc = P##crypto_hash_sha3224(out, in, n); break; case 3: rc = P##crypto_hash_sha3256(out, in, n); break; case 4: rc = P##crypto_hash_sha3384(out, in, n); break; default: rc = P##crypto_hash_sha3512(out, in, n); } \
    expect_rc(rc, 0, "crypto_hash"); }
    g.transitions++;
    switch (impl) { case 0: CALL_SPONGE(rd_) break; case 1: CALL_SPONGE(rl_) break; case 2: CALL_SPONGE(mo_) break; case 3: CALL_TWEET(tc_) break; default: CALL_TWEET(tw_) }
}
static void generic(int impl, unsigned r, unsigned c, const u8 *in, size_t n, u8 d, u8 *out, size_t m)
{
    g.transitions++;
    if (impl == 0) rd_Keccak(r, c, in, n, d, out, m); else if (impl == 1) rl_Keccak(r, c, in, n, d, out, m); else mo_Keccak(r, c, in, n, d, out, m);
}
static ref::Bytes sponge(size_t rate, const u8 *in, size_t n, u8 d, size_t m)
{
    ref::Sponge s(rate); s.absorb(in, n); s.finish(d);
    ref::Bytes o(m); s.squeeze(o.data(), m); return o;
}

int main(int argc, char **argv)
{
    init(argc, argv);
    In in(1 << 14), inh(1 << 14, true); Out out(1 << 14), outh(1 << 14, true);
    ref::Bytes src = data(1 << 14, 22);
    for (int i = 0; i < 6; i++) {
        size_t r = INST[i].rate; u8 d = i < 2 ? 0x1F : 0x06; size_t T = g.thorough ? 12 : 5;
        // every message length; every output length; every pair up to two blocks
        for (size_t n = 0; n <= T * r + 2; n++) {
            if (!begin("%s message of %zu bytes", INST[i].name, n)) continue;
            std::vector<size_t> ms = i >= 2 ? std::vector<size_t>{INST[i].out} : n <= 2 * r + 2 ? upto(0, 2 * r + 2) : std::vector<size_t>{0, 1, 32, r - 1, r, r + 1, 3 * r};
            size_t most = ms.back(); g.states++;
            ref::Bytes want = sponge(r, src.data(), n, d, most);
            for (int impl = 0; impl < 5; impl++)
                for (size_t m : ms) {
                    call("%s: %zu output bytes", IMPL[impl], m);
                    bool h = (n + m) & 1;
                    instance(impl, i, (h ? inh : in).put(src.data(), n), n, (h ? outh : out).take(m), m);
                    (h ? outh : out).check(want.data(), INST[i].name);
                }
        }
        if (i < 2) for (size_t m = 0; m <= 3 * T * r + 2; m++) {
            if (!begin("%s output of %zu bytes", INST[i].name, m)) continue;
            for (size_t n : {(size_t)0, (size_t)5, r - 1, r, 3 * r - 1, 3 * r}) {
                ref::Bytes want = sponge(r, src.data(), n, d, m); g.states++;
                for (int impl = 0; impl < 5; impl++) { call("%s: message of %zu bytes", IMPL[impl], n); instance(impl, i, in.put(src.data(), n), n, out.take(m), m); out.check(want.data(), INST[i].name); }
            }
        }
        for (int impl = 0; impl < 5; impl++) {   // messages with any content of single bytes
            if (!begin("%s %s: all one-byte and all-equal messages", INST[i].name, IMPL[impl])) continue;
            for (int b = 0; b < 256; b++) for (size_t n : {(size_t)1, r - 1, r, r + 1}) {
                ref::Bytes msg(n, (u8)b); size_t m = i < 2 ? r + 1 : INST[i].out;
                ref::Bytes want = sponge(r, msg.data(), n, d, m); g.states++;
                call("byte %02x x %zu", b, n);
                instance(impl, i, in.put(msg.data(), n), n, out.take(m), m); out.check(want.data(), INST[i].name);
            }
        }
    }
    // the generic entry points: every rate, every suffix at the block edges, every length for selected rates
    for (size_t r = 1; r <= 200; r++) {
        if (!begin("Keccak[r=%zu] with every suffix", 8 * r)) continue;
        std::vector<size_t> ns; for (long n : {0L, 1L, (long)r - 2, (long)r - 1, (long)r, (long)r + 1, 2 * (long)r - 1, 2 * (long)r}) if (n >= 0 && std::find(ns.begin(), ns.end(), (size_t)n) == ns.end()) ns.push_back(n);
        for (int d = 1; d < 256; d++) for (size_t n : ns) {
            ref::Bytes want = sponge(r, src.data(), n, d, 2 * r + 1); g.states++;
            for (int impl = 0; impl < 3; impl++) {
                call("%s: %zu bytes, suffix %02x", IMPL[impl], n, d);
                size_t m = d == 0x06 || d == 0x80 || d == 1 ? 2 * r + 1 : d % 3 == 0 ? r : d % 3 == 1 ? 1 : r + 1;
                generic(impl, 8 * r, 1600 - 8 * r, in.put(src.data(), n), n, d, out.take(m), m); out.check(want.data(), "Keccak");
            }
        }
        for (size_t n = 0; n <= 2 * r + 2; n++) for (int impl = 0; impl < 3; impl++) {
            size_t m = (n * 7 + 3) % (2 * r + 3);
            ref::Bytes want = sponge(r, src.data(), n, 0x1F, m);
            call("%s: %zu bytes, %zu output bytes", IMPL[impl], n, m);
            generic(impl, 8 * r, 1600 - 8 * r, in.put(src.data(), n), n, 0x1F, out.take(m), m); out.check(want.data(), "Keccak");
        }
    }
    for (int impl = 0; impl < 2; impl++) for (unsigned r = 0; r <= 1700; r++) {   // what readable-and-compact does not accept leaves the output alone
        if (!begin("%s refuses rate %u", IMPL[impl], r)) continue;
        for (long c : {0L, 1L, 256L, 512L, 1599L - r, 1600L - r, 1601L - r, 1608L - r, 1592L - r, 1600L, 2000L}) {
            if (c < 0 || (r + c == 1600 && r % 8 == 0)) continue;
            call("capacity %ld", c); generic(impl, r, c, in.put(src.data(), 10), 10, 0x1F, out.take(40), 40); out.untouched("Keccak"); g.states++;
        }
    }
    // the dispatcher of the tweetable version
    for (int i = 0; i < 6; i++) {
        size_t r = INST[i].rate; u8 d = i < 2 ? 0x1F : 0x06;
        for (size_t n = 0; n <= 2 * r + 2; n++) {
            if (!begin("Tweetable dispatch %s of %zu bytes", INST[i].name, n)) continue;
            for (size_t m : i >= 2 ? std::vector<size_t>{INST[i].out} : std::vector<size_t>{0, 1, r, 2 * r + 1}) {
                ref::Bytes want = sponge(r, src.data(), n, d, m); g.states++; g.transitions++;
                call("%zu output bytes", m); rs_Keccak(8 * r, 1600 - 8 * r, in.put(src.data(), n), n, d, out.take(m), m); out.check(want.data(), "Keccak");
            }
        }
    }
    return finish();
}
#endif

#ifdef PART_RUST
extern "C" void k12_rs(const uint8_t *m, size_t n, const uint8_t *c, size_t cl, uint8_t *out, size_t outlen);
int main(int argc, char **argv)
{
    init(argc, argv);
    const size_t LEAF = 8192, R = 168; size_t MAX = (g.thorough ? 300 : 80) * LEAF;
    In in(MAX + 64), cu(70000); Out out(1 << 16);
    ref::Bytes src = data(MAX + 64, 4), cs = data(70000, 5);
    ref::K12 model(128, src);
    auto check = [&](size_t n, size_t c, size_t m) {
        call("message %zu, customization %zu, output %zu", n, c, m);
        ref::Sponge s = model(n, ref::Bytes(cs.begin(), cs.begin() + c)); ref::Bytes want = s.squeeze(m);
        k12_rs(in.put(src.data(), n), n, cu.put(cs.data(), c), c, out.take(m), m);
        g.states++; g.transitions++; out.check(want.data(), "KangarooTwelve");
    };
    for (size_t n = 0; n <= 5 * R + 2; n++) {   // one block to several: message x customization x output lengths
        if (!begin("short message of %zu bytes", n)) continue;
        for (size_t c = 0; c <= 40; c++) check(n, c, 32);
        for (size_t m : {(size_t)0, (size_t)1, R - 1, R, R + 1, 2 * R, 3 * R + 1}) check(n, n % 7, m);
    }
    for (size_t m = 0; m <= 6 * R + 2; m++) { if (!begin("output of %zu bytes", m)) continue; check(0, 0, m); check(R, 3, m); check(LEAF + 5, 1, m); }
    for (size_t c = 0; c <= 2 * R; c++) { if (!begin("customization of %zu bytes", c)) continue; for (size_t n : {(size_t)0, (size_t)1, R, LEAF - c % LEAF, LEAF}) check(n, c, 32); }
    // around every number of leaves, counting message, customization and its length encoding
    size_t leaves = g.thorough ? 260 : 34;
    for (size_t k = 1; k <= leaves; k++) for (size_t c : {(size_t)0, (size_t)1, (size_t)255, (size_t)256, (size_t)8190, (size_t)65535, (size_t)65536}) {
        if (c > 300 && k > 12) continue;
        if (!begin("%zu leaves, customization of %zu bytes", k, c)) continue;
        for (long dlt = -6; dlt <= 6; dlt++) { long n = (long)(k * LEAF) - (long)c + dlt; if (n >= 0 && n <= (long)MAX) check(n, c, 32); n = (long)(k * LEAF) + dlt; if (n <= (long)MAX) check(n, c, 32); }
    }
    for (size_t k = 0; k < 64 && (k + 1) * R < 2 * LEAF; k++) {   // every block boundary inside the first leaves
        if (!begin("block boundary %zu", k)) continue;
        for (size_t n : {k * R, k * R + 1, k * R + R - 1, LEAF + k * R, LEAF + k * R + R - 1, LEAF + k * R + 1}) check(n, 0, 32);
    }
    return finish();
}
#endif

#ifdef PART_MODEL
#include "SnP.h"
#include "PlSnP.h"
#include "Exception.h"
typedef ref::Bytes Bv;

/// Keccak-p[25 w] bit by bit (FIPS 202, section 3).
static void keccak_bits(Bv &s, unsigned w, int nominal, int nr)
{
    auto at = [&](int x, int y, int z) { return ((5 * y + x) * w + z); };
    std::vector<int> a(25 * w), b(25 * w);
    for (unsigned i = 0; i < 25 * w; i++) a[i] = (s[i / 8] >> (i % 8)) & 1;
    auto rc = [](int t) { int r = 1; for (int i = 0; i < t % 255; i++) { r <<= 1; if (r & 256) r ^= 0x171; } return r & 1; };
    int l = 0; while ((1u << l) < w) l++;
    static std::map<int, int> rct; 
    for (int ir = nominal - nr; ir < nominal; ir++) {
        std::vector<int> C(5 * w);
        for (int x = 0; x < 5; x++) for (unsigned z = 0; z < w; z++) { int v = 0; for (int y = 0; y < 5; y++) v ^= a[at(x, y, z)]; C[x * w + z] = v; }
        for (int x = 0; x < 5; x++) for (unsigned z = 0; z < w; z++) { int d = C[(x + 4) % 5 * w + z] ^ C[(x + 1) % 5 * w + (z + w - 1) % w]; for (int y = 0; y < 5; y++) a[at(x, y, z)] ^= d; }
        b = a; int x = 1, y = 0;
        for (int t = 0; t < 24; t++) { unsigned k = (t + 1) * (t + 2) / 2; for (unsigned z = 0; z < w; z++) b[at(x, y, z)] = a[at(x, y, (z + 64 * w - k % (64 * w)) % w)]; int n = (2 * x + 3 * y) % 5; x = y; y = n; }
        a = b;
        for (int X = 0; X < 5; X++) for (int Y = 0; Y < 5; Y++) for (unsigned z = 0; z < w; z++) b[at(X, Y, z)] = a[at((X + 3 * Y) % 5, X, z)];
        for (int X = 0; X < 5; X++) for (int Y = 0; Y < 5; Y++) for (unsigned z = 0; z < w; z++) a[at(X, Y, z)] = b[at(X, Y, z)] ^ ((b[at((X + 1) % 5, Y, z)] ^ 1) & b[at((X + 2) % 5, Y, z)]);
        for (int j = 0; j <= l; j++) { int t = j + 7 * ir; if (!rct.count(t)) rct[t] = rc(t); a[at(0, 0, (1 << j) - 1)] ^= rct[t]; }
    }
    for (auto &v : s) v = 0;
    for (unsigned i = 0; i < 25 * w; i++) s[i / 8] |= (uint8_t)(a[i] << (i % 8));
}
struct Kind { const char *name; unsigned width, lane, nominal, dflt; };
static const Kind KINDS[] = {{"Keccak-p[25]", 25, 0, 12, 12}, {"Keccak-p[50]", 50, 0, 14, 14}, {"Keccak-p[100]", 100, 0, 16, 16}, {"Keccak-p[200]", 200, 1, 18, 18}, {"Keccak-p[400]", 400, 2, 20, 20}, {"Keccak-p[800]", 800, 4, 22, 22}, {"Keccak-p[1600]", 1600, 8, 24, 24}, {"Xoodoo", 384, 4, 12, 6}};
static void permute(const Kind &k, Bv &s, int nr)
{
    if (k.width == 384) ref::xoodoo(s.data(), nr);
    else if (k.width == 1600 && !getenv("MC_BITS")) ref::keccakp(s.data(), nr);
    else keccak_bits(s, k.width / 25, k.nominal, nr);
}
static std::unique_ptr<SnP> make(const Kind &k) { if (k.width == 384) return std::unique_ptr<SnP>(new SnP_Xoodoo()); return std::unique_ptr<SnP>(new SnP_KeccakP(k.width)); }
template <class F> static bool refused(F f) { try { f(); } catch (const Exception &) { return true; } return false; }
static size_t bytes(const Kind &k) { return (k.width + 7) / 8; }
static Bv content(const Kind &k, const SnP &s) { Bv b(bytes(k)); s.ExtractBytes(b.data(), 0, b.size()); return b; }
static void same(const Kind &k, const SnP &s, const Bv &want, const char *what) { Bv got = content(k, s); expect(got.data(), want.data(), want.size(), what); }
static Bv dense(const Kind &k, int salt) { Bv b = data(bytes(k), salt); if (k.width % 8) b.back() &= (uint8_t)((1 << (k.width % 8)) - 1); return b; }

template <class T> static void set(T &s, const Bv &b) { s.Initialize(); s.AddBytes(b.data(), 0, b.size()); }

int main(int argc, char **argv)
{
    init(argc, argv);
    In in(1 << 13), in2(1 << 13); Out out(1 << 13);
    for (const Kind &k : KINDS) {
        size_t W = bytes(k);
        auto s = make(k);
        if (begin("%s: parameters and refusals", k.name)) {
            expect_rc(s->getWidth(), k.width, "getWidth"); expect_rc(s->getLaneSizeInBytes(), k.lane, "getLaneSizeInBytes"); expect_rc(s->getDefaultRoundCount(), k.dflt, "getDefaultRoundCount");
            Bv d = dense(k, 1), junk = data(1000, 3), o(1000, 0xEE); set(*s, d);
            for (unsigned n : {0u, k.nominal + 1, k.nominal + 2, 255u, 0x80000000u, 0xFFFFFFFFu}) { call("Permute_Nrounds(%u)", n); g.transitions++; if (!refused([&] { s->Permute_Nrounds(n); })) fail("accepted"); same(k, *s, d, "state after a refusal"); }
            for (unsigned off : {(unsigned)W, (unsigned)W + 1, 1000u, 0xFFFFFFFFu}) {
                call("offset %u", off); g.transitions += 5;
                if (!refused([&] { s->AddByte(1, off); }) || !refused([&] { s->AddBytes(junk.data(), off, 0); }) || !refused([&] { s->OverwriteBytes(junk.data(), off, 0); }) || !refused([&] { s->ExtractBytes(o.data(), off, 0); }) || !refused([&] { s->ExtractAndAddBytes(junk.data(), o.data(), off, 0); })) fail("accepted");
                same(k, *s, d, "state after a refusal");
            }
            for (unsigned off = 0; off < W; off++) for (unsigned len = W - off + 1; len <= W + 1; len++) {
                call("range %u+%u", off, len); g.transitions += 4;
                if (!refused([&] { s->AddBytes(junk.data(), off, len); }) || !refused([&] { s->OverwriteBytes(junk.data(), off, len); }) || !refused([&] { s->ExtractBytes(o.data(), off, len); }) || !refused([&] { s->ExtractAndAddBytes(junk.data(), o.data(), off, len); })) fail("accepted");
                same(k, *s, d, "state after a refusal");
            }
            call("OverwriteWithZeroes"); if (!refused([&] { s->OverwriteWithZeroes(W + 1); }) || !refused([&] { s->OverwriteWithZeroes(0xFFFFFFFFu); })) fail("accepted"); same(k, *s, d, "state after a refusal");
            for (uint8_t v : o) if (v != 0xEE) fail("a refused call wrote output");
        }
        // permutation: all round counts on all states of weight 0 and 1, their complements and neighbours of a dense one; weight 2 by one round
        for (unsigned bit = 0; bit <= k.width; bit++) {
            if (!begin("%s: permutation, bit %u", k.name, bit)) continue;
            for (int base = 0; base < 3; base++) {
                Bv b(W, base == 1 ? 0xFF : 0); if (base == 2) b = dense(k, 7); if (k.width % 8) b.back() &= (uint8_t)((1 << (k.width % 8)) - 1);
                if (bit < k.width) b[bit / 8] ^= (uint8_t)(1 << (bit % 8));
                bool all = k.width <= 400 || bit % 16 == 0 || bit == k.width || g.thorough;
                for (unsigned nr = 1; nr <= k.nominal; nr++) {
                    if (!all && nr > 2 && nr != k.nominal) continue;
                    Bv w = b; permute(k, w, nr); set(*s, b); call("base %d, %u rounds", base, nr); s->Permute_Nrounds(nr); g.transitions++; g.states++; same(k, *s, w, "Permute_Nrounds");
                }
                Bv w = b; permute(k, w, k.dflt); set(*s, b); call("base %d, Permute", base); s->Permute(); g.transitions++; same(k, *s, w, "Permute");
                if (base == 0 && bit < k.width && k.width <= 400) for (unsigned c = bit + 1; c < k.width; c++) {
                    if (k.width == 400 && !g.thorough && c % 5 != bit % 5) continue;
                    Bv v = b; v[c / 8] ^= (uint8_t)(1 << (c % 8)); set(*s, v); permute(k, v, 1); call("bits %u and %u", bit, c); s->Permute_Nrounds(1); g.transitions++; g.states++; same(k, *s, v, "Permute_Nrounds");
                }
            }
        }
        // range operations: every offset and length
        for (unsigned off = 0; off < W; off++) {
            if (!begin("%s: ranges from %u", k.name, off)) continue;
            Bv d = dense(k, 9), v = data(W, 10), o(W), x;
            for (unsigned len = 0; off + len <= W; len++) {
                call("length %u", len); g.transitions += 4; g.states++;
                set(*s, d); x = d; for (unsigned i = 0; i < len; i++) x[off + i] ^= v[i]; s->AddBytes(in.put(v.data(), len), off, len); same(k, *s, x, "AddBytes");
                set(*s, d); x = d; for (unsigned i = 0; i < len; i++) x[off + i] = v[i]; s->OverwriteBytes(in.put(v.data(), len), off, len); same(k, *s, x, "OverwriteBytes");
                s->ExtractBytes(out.take(len), off, len); out.check(x.data() + off, "ExtractBytes");
                Bv e(len); for (unsigned i = 0; i < len; i++) e[i] = v[len - 1 - i] ^ x[off + i]; Bv rv(v.begin(), v.begin() + len); std::reverse(rv.begin(), rv.end());
                s->ExtractAndAddBytes(in.put(rv.data(), len), out.take(len), off, len); out.check(e.data(), "ExtractAndAddBytes"); same(k, *s, x, "state after extracting");
            }
            for (int b = 0; b < 256; b++) { set(*s, d); x = d; x[off] ^= b; s->AddByte(b, off); same(k, *s, x, "AddByte"); g.transitions++; }
            set(*s, d); x = d; for (unsigned i = 0; i <= off; i++) x[i] = 0; s->OverwriteWithZeroes(off + 1); same(k, *s, x, "OverwriteWithZeroes");
            set(*s, d); s->OverwriteWithZeroes(0); same(k, *s, d, "OverwriteWithZeroes(0)");
            set(*s, d); s->Initialize(); same(k, *s, Bv(W, 0), "Initialize"); g.transitions += 3;
        }
        // absorbing loop
        if (k.lane) for (unsigned lanes = 1; lanes * k.lane <= W; lanes++) {
            if (!begin("%s: FastLoop_Absorb of %u lanes", k.name, lanes)) continue;
            size_t B = lanes * k.lane; Bv src = data(3 * B + 9, 12);
            for (size_t n = 0; n <= 3 * B + 2; n++) {
                if (k.lane == 8 && n % 8 > 1 && n % 8 < 7 && !g.thorough) continue;
                Bv d = dense(k, 11), x = d; set(*s, d); call("%zu bytes", n);
                size_t done = 0; while (n - done >= B) { for (size_t i = 0; i < B; i++) x[i] ^= src[done + i]; permute(k, x, k.dflt); done += B; }
                size_t r = s->FastLoop_Absorb(lanes, in.put(src.data(), n), n); expect_rc((long)r, (long)done, "FastLoop_Absorb"); same(k, *s, x, "FastLoop_Absorb"); g.transitions++; g.states++;
            }
        }
        // every sequence of operations
        {
            std::vector<unsigned> offs = {0, (unsigned)(W / 2), (unsigned)W - 1}, zc = {0, 1, (unsigned)W};
            struct O { int kind; unsigned a, b; }; std::vector<O> ops;
            for (unsigned o : offs) { ops.push_back({0, o, 0}); ops.push_back({1, o, (unsigned)(W - o)}); ops.push_back({2, o, (unsigned)(W - o + 1) / 2}); }
            for (unsigned z : zc) ops.push_back({3, z, 0});
            ops.push_back({4, 0, 0}); ops.push_back({5, 1, 0}); ops.push_back({5, k.nominal, 0}); ops.push_back({6, 0, 0}); ops.push_back({7, 1, (unsigned)W - 1}); ops.push_back({8, (unsigned)W, 1}); ops.push_back({8, 1, (unsigned)W});
            size_t N = ops.size(), depth = g.thorough ? 4 : 3, total = 1; for (size_t i = 0; i < depth; i++) total *= N;
            for (size_t first = 0; first < N; first++) {
                if (!begin("%s: sequences of %zu operations, first %zu", k.name, depth, first)) continue;
                for (size_t seq = first; seq < total; seq += N) {
                    Bv x(W, 0); s->Initialize(); size_t q = seq;
                    for (size_t i = 0; i < depth; i++, q /= N) {
                        const O &o = ops[q % N]; Bv v = data(W, 40 + i), e; g.transitions++;
                        call("sequence %zu (of %zu operations), step %zu: operation %d(%u,%u)", seq, N, i, o.kind, o.a, o.b);
                        switch (o.kind) {
                        case 0: x[o.a] ^= v[0]; s->AddByte(v[0], o.a); break;
                        case 1: for (unsigned j = 0; j < o.b; j++) x[o.a + j] ^= v[j]; s->AddBytes(in.put(v.data(), o.b), o.a, o.b); break;
                        case 2: for (unsigned j = 0; j < o.b; j++) x[o.a + j] = v[j]; s->OverwriteBytes(in.put(v.data(), o.b), o.a, o.b); break;
                        case 3: for (unsigned j = 0; j < o.a; j++) x[j] = 0; s->OverwriteWithZeroes(o.a); break;
                        case 4: if (k.width % 8) x.back() &= (uint8_t)((1 << (k.width % 8)) - 1); permute(k, x, k.dflt); s->Permute(); break;
                        case 5: if (k.width % 8) x.back() &= (uint8_t)((1 << (k.width % 8)) - 1); permute(k, x, o.a); s->Permute_Nrounds(o.a); break;
                        case 6: std::fill(x.begin(), x.end(), 0); s->Initialize(); break;
                        case 7: e.resize(o.b); for (unsigned j = 0; j < o.b; j++) e[j] = x[o.a + j] ^ v[j]; s->ExtractAndAddBytes(in.put(v.data(), o.b), out.take(o.b), o.a, o.b); out.check(e.data(), "ExtractAndAddBytes"); break;
                        default: if (!refused([&] { s->AddBytes(v.data(), o.a, o.b); })) fail("accepted"); break;
                        }
                        same(k, *s, x, "state");
                    }
                    g.states++;
                }
            }
        }
        // parallel instances
        for (unsigned P : {1u, 2u, 3u, 4u, 8u}) {
            RoundCountParameterizedPermutation *f = k.width == 384 ? (RoundCountParameterizedPermutation *)new Xoodoo() : new KeccakP(k.width);
            std::set<unsigned> rounds; for (unsigned i = 1; i <= k.nominal; i++) rounds.insert(i);
            PlSnP pl(f, P, k.lane, rounds, k.dflt);
            std::vector<Bv> x(P, Bv(W, 0));
            auto all = [&](const char *what) { for (unsigned i = 0; i < P; i++) { Bv o(W); pl.ExtractBytes(i, o.data(), 0, W); expect(o.data(), x[i].data(), W, what); } };
            auto fill = [&]() { pl.InitializeAll(); for (unsigned i = 0; i < P; i++) { x[i] = dense(k, 60 + i); pl.AddBytes(i, x[i].data(), 0, W); } };
            if (begin("%s x %u: parameters, permutation, refusals", k.name, P)) {
                expect_rc(pl.getNumberOfInstances(), P, "getNumberOfInstances"); expect_rc(pl.getWidth(), k.width, "getWidth"); expect_rc(pl.getLaneSizeInBytes(), k.lane, "getLaneSizeInBytes"); expect_rc(pl.getDefaultRoundCount(), k.dflt, "getDefaultRoundCount");
                all("initial state");
                for (unsigned nr = 1; nr <= k.nominal; nr++) { fill(); for (auto &b : x) permute(k, b, nr); call("%u rounds", nr); pl.PermuteAll_Nrounds(nr); g.transitions++; all("PermuteAll_Nrounds"); }
                fill(); for (auto &b : x) permute(k, b, k.dflt); pl.PermuteAll(); g.transitions++; all("PermuteAll");
                Bv j(1000, 1);
                for (unsigned inst : {P, P + 1, 0xFFFFFFFFu}) { call("instance %u", inst); g.transitions += 6; if (!refused([&] { pl.AddByte(inst, 1, 0); }) || !refused([&] { pl.AddBytes(inst, j.data(), 0, 1); }) || !refused([&] { pl.OverwriteBytes(inst, j.data(), 0, 1); }) || !refused([&] { pl.OverwriteWithZeroes(inst, 1); }) || !refused([&] { pl.ExtractBytes(inst, j.data(), 0, 1); }) || !refused([&] { pl.ExtractAndAddBytes(inst, j.data(), j.data(), 0, 1); })) fail("accepted"); }
                for (unsigned nr : {0u, k.nominal + 1}) { call("%u rounds", nr); if (!refused([&] { pl.PermuteAll_Nrounds(nr); })) fail("accepted"); }
                for (unsigned i = 0; i < P; i++) { call("range beyond instance %u", i); g.transitions += 6; if (!refused([&] { pl.AddByte(i, 1, W); }) || !refused([&] { pl.AddBytes(i, j.data(), 1, W); }) || !refused([&] { pl.OverwriteBytes(i, j.data(), 1, W); }) || !refused([&] { pl.OverwriteWithZeroes(i, W + 1); }) || !refused([&] { pl.ExtractBytes(i, j.data(), W - 1, 2); }) || !refused([&] { pl.ExtractAndAddBytes(i, j.data(), j.data(), 0, W + 1); })) fail("accepted"); }
                if (k.lane) { unsigned L = W / k.lane + 1; Bv big(10000); call("%u lanes", L); if (!refused([&] { pl.AddLanesAll(big.data(), L, L); }) || !refused([&] { pl.OverwriteLanesAll(big.data(), L, L); }) || !refused([&] { pl.ExtractLanesAll(big.data(), L, L); }) || !refused([&] { pl.ExtractAndAddLanesAll(big.data(), big.data(), L, L); })) fail("accepted"); }
                all("state after refusals"); g.states++;
            }
            if (k.lane) for (unsigned lanes = 0; lanes * k.lane <= W; lanes++) {
                if (!begin("%s x %u: operations on %u lanes of all instances", k.name, P, lanes)) continue;
                unsigned L = W / k.lane;
                for (unsigned lo : {lanes, lanes + 1, L, L + 3}) {
                    size_t span = (size_t)(P - 1) * lo * k.lane + lanes * k.lane; Bv d = data(span, 70), e(span, 0xC7);
                    call("lane offset %u", lo); g.transitions += 4; g.states++;
                    auto each = [&](auto fn) { for (unsigned i = 0; i < P; i++) for (unsigned b = 0; b < lanes * k.lane; b++) fn(i, b, (size_t)i * lo * k.lane + b); };
                    fill(); each([&](unsigned i, unsigned b, size_t p) { x[i][b] ^= d[p]; }); pl.AddLanesAll(in.put(d.data(), span), lanes, lo); all("AddLanesAll");
                    each([&](unsigned i, unsigned b, size_t p) { x[i][b] = d[p]; }); fill(); for (unsigned i = 0; i < P; i++) for (unsigned b = 0; b < lanes * k.lane; b++) x[i][b] = d[(size_t)i * lo * k.lane + b];
                    pl.OverwriteLanesAll(in.put(d.data(), span), lanes, lo); all("OverwriteLanesAll");
                    fill(); std::fill(e.begin(), e.end(), 0xC7); each([&](unsigned i, unsigned b, size_t p) { e[p] = x[i][b]; }); pl.ExtractLanesAll(out.take(span, 0xC7), lanes, lo); out.check(e.data(), "ExtractLanesAll"); all("state after extracting");
                    std::fill(e.begin(), e.end(), 0xC7); each([&](unsigned i, unsigned b, size_t p) { e[p] = x[i][b] ^ d[p]; }); pl.ExtractAndAddLanesAll(in.put(d.data(), span), out.take(span, 0xC7), lanes, lo); out.check(e.data(), "ExtractAndAddLanesAll"); all("state after extracting");
                }
            }
            for (unsigned i = 0; i < P; i++) {
                if (!begin("%s x %u: ranges of instance %u", k.name, P, i)) continue;
                unsigned step = k.width == 1600 && !g.thorough ? 7 : 1;
                for (unsigned off = 0; off < W; off += step) for (unsigned len = 0; off + len <= W; len += step) {
                    Bv v = data(len, 80), e(len); call("range %u+%u", off, len); g.transitions += 5; g.states++;
                    fill(); for (unsigned j = 0; j < len; j++) x[i][off + j] ^= v[j]; pl.AddBytes(i, in.put(v.data(), len), off, len); all("AddBytes");
                    for (unsigned j = 0; j < len; j++) x[i][off + j] = (uint8_t)(v[j] + 1); for (auto &b : v) b++; pl.OverwriteBytes(i, in.put(v.data(), len), off, len); all("OverwriteBytes");
                    pl.ExtractBytes(i, out.take(len), off, len); out.check(x[i].data() + off, "ExtractBytes");
                    for (auto &b : v) b ^= 0x35; for (unsigned j = 0; j < len; j++) e[j] = x[i][off + j] ^ v[j]; pl.ExtractAndAddBytes(i, in.put(v.data(), len), out.take(len), off, len); out.check(e.data(), "ExtractAndAddBytes");
                    x[i][off] ^= (uint8_t)(len + 1); pl.AddByte(i, (uint8_t)(len + 1), off); all("AddByte");
                    if (len == 0) { for (unsigned j = 0; j <= off; j++) x[i][j] = 0; pl.OverwriteWithZeroes(i, off + 1); all("OverwriteWithZeroes"); pl.OverwriteWithZeroes(i, 0); all("OverwriteWithZeroes(0)"); }
                }
            }
        }
    }
    for (unsigned w = 0; w <= 2000; w++) {   // widths that do not exist
        bool ok = false; for (const Kind &k : KINDS) if (k.width == w && w != 384) ok = true;
        if (ok || !begin("Keccak-p[%u] does not exist", w)) continue;
        if (!refused([&] { KeccakP p(w); })) fail("accepted"); g.transitions++; g.states++;
    }
    // the step maps of Xoodoo: inverses, coordinates, and the round made of them
    Xoodoo xo; 
    for (unsigned bit = 0; bit <= 384; bit++) {
        if (!begin("Xoodoo step maps, bit %u", bit)) continue;
        for (int base = 0; base < 2; base++) {
            XoodooState a(xo), b(xo); for (unsigned i = 0; i < 12; i++) a.getLanes()[i] = base ? (uint32_t)(dat(i, 90) * 0x01234567u ^ dat(i, 91)) : 0;
            auto flip = [&](XoodooState &s) { if (bit < 384) s.setBit(bit, !s.getBit(bit)); };
            flip(a); b = a; auto eq = [&](const char *what) { g.transitions++; expect(b.getLanes().data(), a.getLanes().data(), 12 * sizeof(LaneValue), what); };
            xo.theta(b); xo.inverseTheta(b); eq("inverseTheta after theta"); xo.inverseTheta(b); xo.theta(b); eq("theta after inverseTheta");
            xo.thetaTransposed(b); xo.inverseThetaTransposed(b); eq("inverseThetaTransposed"); xo.rhoEast(b); xo.inverseRhoEast(b); eq("inverseRhoEast"); xo.rhoWest(b); xo.inverseRhoWest(b); eq("inverseRhoWest");
            xo.chi(b); xo.inverseChi(b); eq("inverseChi"); g.states++;
            if (bit < 384 && !base) {   // bit transpositions follow the coordinate maps
                int z = bit % 32, x = bit / 32 % 4, y = bit / 128, X, Y, Z, x2, y2, z2;
                if (a.getBit(x, y, z) != 1 || a.getBit(bit) != 1) fail("getBit");
                b = a; xo.rhoEast(b); xo.rhoEast(x, y, z, X, Y, Z); expect_rc(b.getBit(X, Y, Z), 1, "rhoEast coordinates"); xo.inverseRhoEast(X, Y, Z, x2, y2, z2); if (x2 != x || y2 != y || z2 != z) fail("inverseRhoEast coordinates");
                b = a; xo.rhoWest(b); xo.rhoWest(x, y, z, X, Y, Z); expect_rc(b.getBit(X, Y, Z), 1, "rhoWest coordinates"); xo.inverseRhoWest(X, Y, Z, x2, y2, z2); if (x2 != x || y2 != y || z2 != z) fail("inverseRhoWest coordinates");
                for (int dx = -5; dx <= 5; dx++) for (int dz : {-33, -32, -1, 0, 1, 31, 40}) { b = a; b.translateXZ(dx, dz); int u = x, v = z; xo.translateXZ(u, v, dx, dz); expect_rc(b.getBit(u, y, v), 1, "translateXZ"); g.transitions++; }
                // theta and its transpose: <theta a, e> = <a, thetaT e>
                b = a; xo.theta(b); for (unsigned e = 0; e < 384; e++) { XoodooState t(xo); t.setBit(e, 1); xo.thetaTransposed(t); expect_rc(t.getBit(bit), b.getBit(e), "thetaTransposed"); }
            }
        }
    }
    return finish();
}
#endif
