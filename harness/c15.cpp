// C15: KeccakP1600_* of every implementation against a plain array of 200 bytes.
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "KeccakP-1600-SnP.h"
}
using namespace mc;
typedef KeccakP1600_state S;
enum { W = 200 };
static In in(1 << 15), inh(1 << 15, true); static Out out(4096), outh(4096, true);
struct World { S s; uint8_t m[W]; };

static void full(const World &w, const char *what) { S t = w.s; KeccakP1600_ExtractBytes(&t, out.take(W), 0, W); out.check(w.m, what); }
static void load(World &w, const uint8_t *v)
{
    memset((void *)&w, 0x5A, sizeof w); KeccakP1600_Initialize(&w.s); memset(w.m, 0, W); full(w, "state after Initialize");
    KeccakP1600_AddBytes(&w.s, in.put(v, W), 0, W); memcpy(w.m, v, W);
}
static Bytes base(int b)
{
    if (b == 0) return Bytes(W, 0); if (b == 1) return Bytes(W, 0xFF); if (b == 2) { Bytes x(W); for (int i = 0; i < W; i++) x[i] = (uint8_t)(i + 1); return x; }
    Bytes x = data(W, b); return x;
}
/// All range operations on one state.
static void ranges(int b, unsigned off, bool T)
{
    World w0; Bytes v = base(b); load(w0, v.data()); KeccakP1600_Permute_Nrounds(&w0.s, 2); ref::keccakp(w0.m, 2);
    if (b < 2) load(w0, v.data());
    std::unique_ptr<World> wp(new World); World &w = *wp;
    Bytes d = data(W, 77 + b), x(W);
    for (unsigned len = 0; off + len <= W; len++) {
        unsigned variants = T || len <= 40 ? 16 : 3;
        for (unsigned a = 0; a < variants; a++) {
            // source data: at the end of readable memory (a == 0), at its start (a == 1), then every misalignment
            auto src = [&]() { return a == 0 ? in.put(d.data(), len) : a == 1 ? inh.put(d.data(), len) : in.put_at(d.data(), len, 1024 + a * 3); };
            g.step_size = -1; g.aux1 = off; g.aux2 = len;
            snprintf(g.call, sizeof g.call, "offset %u length %u placement %u", off, len, a); g.progress++;
            w = w0; KeccakP1600_AddBytes(&w.s, src(), off, len); for (unsigned i = 0; i < len; i++) w.m[off + i] ^= d[i]; full(w, "state after AddBytes(%ld, %ld)");
            w = w0; KeccakP1600_OverwriteBytes(&w.s, src(), off, len); if (len) memcpy(w.m + off, d.data(), len); full(w, "state after OverwriteBytes(%ld, %ld)");
            Out &o = a == 1 ? outh : out;
            size_t on = a >= 2 ? len + a - 1 : len; uint8_t *p = o.take(on);   // shifted from the end of the area for every misalignment
            w = w0; KeccakP1600_ExtractBytes(&w.s, p, off, len); Bytes e(w.m + off, w.m + off + len); e.resize(on, o.fill); o.check(e.data(), "ExtractBytes(%ld, %ld)"); full(w, "state after ExtractBytes(%ld, %ld)");
            for (unsigned i = 0; i < len; i++) e[i] ^= d[i];
            p = o.take(on); KeccakP1600_ExtractAndAddBytes(&w.s, src(), p, off, len); o.check(e.data(), "ExtractAndAddBytes(%ld, %ld)"); full(w, "state after ExtractAndAddBytes(%ld, %ld)");
            p = o.take(on); if (len) memcpy(p, d.data(), len); KeccakP1600_ExtractAndAddBytes(&w.s, p, p, off, len); o.check(e.data(), "ExtractAndAddBytes(%ld, %ld) in place"); full(w, "state after ExtractAndAddBytes in place");
            g.transitions += 5;
        }
        g.states++;
    }
    for (int c = 0; c < 256; c++) { w = w0; KeccakP1600_AddByte(&w.s, (unsigned char)c, off); w.m[off] ^= c; full(w, "state after AddByte"); g.transitions++; }
    { w = w0; KeccakP1600_OverwriteWithZeroes(&w.s, off); memset(w.m, 0, off); full(w, "state after OverwriteWithZeroes"); }
    if (off == W - 1) { w = w0; KeccakP1600_OverwriteWithZeroes(&w.s, W); memset(w.m, 0, W); full(w, "state after OverwriteWithZeroes(200)"); }
    g.call[0] = 0;
}
static void perm(const uint8_t *v, unsigned n)
{   // n 1..24; 112: Permute_12rounds, 124: Permute_24rounds
    World w; load(w, v);
    if (n == 112) KeccakP1600_Permute_12rounds(&w.s); else if (n == 124) KeccakP1600_Permute_24rounds(&w.s); else KeccakP1600_Permute_Nrounds(&w.s, n);
    ref::keccakp(w.m, n > 100 ? n - 100 : n); g.transitions++; g.states++; full(w, "permuted state");
}
static size_t fast(World &w, unsigned lanes, const uint8_t *d, size_t n, int which)
{
    size_t got = 0;
#ifdef KeccakF1600_FastLoop_supported
    if (which == 24) got = KeccakF1600_FastLoop_Absorb(&w.s, lanes, d, n);
#endif
#ifdef KeccakP1600_12rounds_FastLoop_supported
    if (which == 12) got = KeccakP1600_12rounds_FastLoop_Absorb(&w.s, lanes, d, n);
#endif
    return got;
}
static void loop(unsigned lanes, int rounds, bool T)
{
    size_t blk = 8 * lanes; std::vector<size_t> L;
    for (size_t n = 0; n <= 2 * blk + 9; n++) L.push_back(n);
    for (size_t k = 3; k <= (T ? 13 : 7); k++) for (long d : {-8, -1, 0, 1, 8}) L.push_back(k * blk + d);
    for (size_t n : L) for (int a = 0; a < 10; a++) {
        if (a > 2 && n > blk + 3 && n % 5 && !T) continue;
        call("fast loop of %d rounds, %u lanes, %zu bytes, placement %d", rounds, lanes, n, a);
        Bytes d = data(n, 5 + lanes), v = base(3 + (n & 1)); World w; load(w, v.data());
        const uint8_t *p = a == 0 ? in.put(d.data(), n) : a == 1 ? inh.put(d.data(), n) : in.put_at(d.data(), n, 511 + a);
        size_t r = fast(w, lanes, p, n, rounds), k = n / blk;
        expect_rc((long)r, (long)(k * blk), "fast loop: number of bytes consumed");
        for (size_t i = 0; i < k; i++) { for (size_t j = 0; j < blk; j++) w.m[j] ^= d[i * blk + j]; ref::keccakp(w.m, rounds); }
        full(w, "state after the fast loop"); g.transitions++; g.states++;
    }
}
// ---- sequences of operations
struct Op { uint8_t k = 0; uint16_t a = 0, b = 0; };
static const char *kind[] = {"AddByte", "AddBytes", "OverwriteBytes", "OverwriteWithZeroes", "Permute_Nrounds", "Permute_12rounds", "Permute_24rounds", "ExtractAndAddBytes", "FastLoop(12 rounds)", "FastLoop(24 rounds)", "Initialize"};
static std::string show(const Op &o) { return str("%s(%u,%u)", kind[o.k], o.a, o.b); }
static std::vector<Op> OPS; static size_t curd, maxd;
static bool apply(World &w, const Op &o)
{
    Bytes d = data(512, 11 + 100 * curd);
    switch (o.k) {
    case 0: KeccakP1600_AddByte(&w.s, (unsigned char)o.b, o.a); w.m[o.a] ^= o.b; break;
    case 1: KeccakP1600_AddBytes(&w.s, in.put(d.data(), o.b), o.a, o.b); for (int i = 0; i < o.b; i++) w.m[o.a + i] ^= d[i]; break;
    case 2: KeccakP1600_OverwriteBytes(&w.s, in.put(d.data(), o.b), o.a, o.b); if (o.b) memcpy(w.m + o.a, d.data(), o.b); break;
    case 3: KeccakP1600_OverwriteWithZeroes(&w.s, o.a); memset(w.m, 0, o.a); break;
    case 4: KeccakP1600_Permute_Nrounds(&w.s, o.a); ref::keccakp(w.m, o.a); break;
    case 5: KeccakP1600_Permute_12rounds(&w.s); ref::keccakp(w.m, 12); break;
    case 6: KeccakP1600_Permute_24rounds(&w.s); ref::keccakp(w.m, 24); break;
    case 7: { out.take(o.b); KeccakP1600_ExtractAndAddBytes(&w.s, in.put(d.data(), o.b), out.p, o.a, o.b); for (int i = 0; i < o.b; i++) d[i] ^= w.m[o.a + i]; out.check(d.data(), "ExtractAndAddBytes"); break; }
    case 8: case 9: { fast(w, o.a, in.put(d.data(), o.b), o.b, o.k == 8 ? 12 : 24); for (size_t i = 0, B = 8 * o.a; (i + 1) * B <= o.b; i++) { for (size_t j = 0; j < B; j++) w.m[j] ^= d[i * B + j]; ref::keccakp(w.m, o.k == 8 ? 12 : 24); } break; }
    case 10: KeccakP1600_Initialize(&w.s); memset(w.m, 0, W); break;
    }
    full(w, "state");
    return curd < maxd;
}
static bool has12 =
#ifdef KeccakP1600_12rounds_FastLoop_supported
    true;
#else
    false;
#endif
static bool has24 =
#ifdef KeccakF1600_FastLoop_supported
    true;
#else
    false;
#endif

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool T = g.thorough;
#ifdef KeccakReference
    KeccakP1600_StaticInitialize();
#endif
    for (unsigned off = 0; off < W; off++) for (int b = 0; b < (T ? 6 : 4); b += 1) if (T || b < 3 || off % 8 == 3) if (begin("all range operations at offset %u, base state %d", off, b)) ranges(b, off, T);
    for (unsigned n = 1; n <= 24; n++) if (begin("%u rounds on all states of weight 0 and 1 and their complements, 16 other states", n)) {
        std::vector<unsigned> which = {n}; if (n == 12) which.push_back(112); if (n == 24) which.push_back(124);
        for (unsigned k : which) {
            for (int b = 0; b < 16; b++) perm(base(b).data(), k);
            for (int i = 0; i < 1600; i++) { Bytes v(W, 0); v[i / 8] ^= 1 << i % 8; perm(v.data(), k); for (auto &c : v) c ^= 0xFF; perm(v.data(), k); Bytes u = base(3); u[i / 8] ^= 1 << i % 8; perm(u.data(), k); }
        }
    }
    for (int i = 0; i < 1600; i += 1) if (T || i % 8 == 0) if (begin("1 round on all states of weight 2 with bit %d set", i)) for (int j = i + 1; j < 1600; j++) { Bytes v(W, 0); v[i / 8] ^= 1 << i % 8; v[j / 8] ^= 1 << j % 8; perm(v.data(), 1); }
    for (int r : {12, 24}) if (r == 12 ? has12 : has24) for (unsigned l = 1; l < 25; l++) if (begin("fast loop, %d rounds, %u lanes", r, l)) loop(l, r, T);
    // operation sequences
    std::vector<Op> all, few;
    for (auto p : std::initializer_list<std::pair<int, int>>{{0, 0}, {0, 1}, {0, 7}, {0, 8}, {0, 64}, {0, 168}, {0, 200}, {3, 4}, {3, 5}, {3, 6}, {7, 2}, {8, 8}, {5, 30}, {16, 72}, {71, 90}, {136, 64}, {161, 39}, {192, 8}, {199, 1}, {190, 10}})
        for (uint8_t k : {1, 2, 7}) { Op o{k, (uint16_t)p.first, (uint16_t)p.second}; all.push_back(o); if (p.first == 3 || p.first == 71 || (p.first == 0 && p.second >= 168) || p.first == 190) few.push_back(o); }
    for (int a : {0, 7, 100, 167, 199}) all.push_back(Op{0, (uint16_t)a, 0x81});
    few.push_back(Op{0, 135, 0x80}); few.push_back(Op{0, 9, 0x1F});
    for (int a : {0, 1, 8, 71, 136, 168, 199, 200}) { all.push_back(Op{3, (uint16_t)a, 0}); if (a == 71 || a == 200 || a == 136) few.push_back(Op{3, (uint16_t)a, 0}); }
    for (int a : {1, 2, 3, 5, 6, 12, 23, 24}) { all.push_back(Op{4, (uint16_t)a, 0}); if (a == 1 || a == 6) few.push_back(Op{4, (uint16_t)a, 0}); }
    for (uint8_t k : {5, 6, 10}) { all.push_back(Op{k, 0, 0}); few.push_back(Op{k, 0, 0}); }
    for (uint8_t k : {8, 9}) if (k == 8 ? has12 : has24) for (auto p : std::initializer_list<std::pair<int, int>>{{1, 23}, {9, 160}, {17, 300}, {21, 400}, {24, 192}}) { Op o{k, (uint16_t)p.first, (uint16_t)p.second}; all.push_back(o); if (p.first == 17 || p.first == 21) few.push_back(o); }
    auto tree = [&](const std::vector<Op> &ops, size_t depth) {
        for (auto &f : ops) if (begin("all sequences of %zu operations starting with %s", depth, show(f).c_str())) {
            std::unique_ptr<World> w(new World); memset((void *)w.get(), 0, sizeof(World)); Bytes v = base(4); load(*w, v.data()); maxd = depth; curd = 1; apply(*w, f);
            OPS = ops; maxd = depth - 1; Search<World, Op> q; q.show = show; std::string h = show(f);
            q.run(*w, depth - 1, h, [](const World &, size_t d) { curd = d; return OPS; }, apply, [](World &, size_t) {});
        }
    };
    tree(all, T ? 4 : 3); tree(few, T ? 5 : 4);
    return mc::finish();
}
