// C17, serial part: Xoodoo_* of every implementation, its Xoofff loops and its Xoodyak full-block loops.
#define XOOFFF
#include "farfalle.hpp"
extern "C" {
#include "Xoodoo-SnP.h"
}
using namespace mc;
enum { W = 48 };
static In in(1 << 15), inh(1 << 15, true); static Out out(1 << 14), outh(1 << 14, true), outw(W);
struct World { alignas(64) Xoodoo_state s; uint8_t m[W]; };
static void full(const World &w, const char *what) { World t = w; Xoodoo_ExtractBytes(&t.s, outw.take(W), 0, W); outw.check(w.m, what); }
static void load(World &w, const uint8_t *v)
{
    memset((void *)&w, 0x5A, sizeof w); Xoodoo_Initialize(&w.s); memset(w.m, 0, W); full(w, "state after Initialize");
    Xoodoo_AddBytes(&w.s, in.put(v, W), 0, W); memcpy(w.m, v, W);
}
static Bytes base(int b) { if (b == 0) return Bytes(W, 0); if (b == 1) return Bytes(W, 0xFF); return data(W, b); }

static void ranges(int b, unsigned off)
{
    World w0, w; load(w0, base(b).data()); Bytes d = data(W, 70 + b);
    for (unsigned len = 0; off + len <= W; len++) for (unsigned a = 0; a < 18; a++) {
        auto src = [&]() { return a == 0 ? in.put(d.data(), len) : a == 1 ? inh.put(d.data(), len) : in.put_at(d.data(), len, 1024 + a * 3); };
        snprintf(g.call, sizeof g.call, "offset %u length %u placement %u", off, len, a); g.progress++; uint8_t *m = w.m + off;
        w = w0; Xoodoo_AddBytes(&w.s, src(), off, len); for (unsigned i = 0; i < len; i++) m[i] ^= d[i]; full(w, "state after AddBytes");
        w = w0; Xoodoo_OverwriteBytes(&w.s, src(), off, len); if (len) memcpy(m, d.data(), len); full(w, "state after OverwriteBytes");
        Out &o = a == 1 ? outh : out; size_t on = a >= 2 ? len + a - 1 : len; uint8_t *p = o.take(on);
        w = w0; Xoodoo_ExtractBytes(&w.s, p, off, len); Bytes e(m, m + len); e.resize(on, o.fill); o.check(e.data(), "ExtractBytes");
        for (unsigned i = 0; i < len; i++) e[i] ^= d[i];
        p = o.take(on); Xoodoo_ExtractAndAddBytes(&w.s, src(), p, off, len); o.check(e.data(), "ExtractAndAddBytes");
        p = o.take(on); if (len) memcpy(p, d.data(), len); Xoodoo_ExtractAndAddBytes(&w.s, p, p, off, len); o.check(e.data(), "ExtractAndAddBytes in place"); full(w, "state after extraction");
        g.transitions += 5; g.states++;
    }
    for (int c = 0; c < 256; c++) { w = w0; Xoodoo_AddByte(&w.s, (unsigned char)c, off); w.m[off] ^= c; full(w, "state after AddByte"); g.transitions++; }
    for (unsigned z : {off, off == W - 1 ? (unsigned)W : off}) { w = w0; Xoodoo_OverwriteWithZeroes(&w.s, z); memset(w.m, 0, z); full(w, "state after OverwriteWithZeroes"); g.transitions++; }
    g.call[0] = 0;
}
static void run(Xoodoo_state *s, unsigned n)
{   // 6, 12: the fixed numbers; 100 + n: Permute_Nrounds(n)
    if (n == 6) Xoodoo_Permute_6rounds(s); else if (n == 12) Xoodoo_Permute_12rounds(s);
#ifdef Xoodoo_HasNround
    else Xoodoo_Permute_Nrounds(s, n - 100);
#endif
}
static void perm(const uint8_t *v, unsigned n) { World w; load(w, v); run(&w.s, n); ref::xoodoo(w.m, n > 100 ? n - 100 : n); g.transitions++; g.states++; full(w, "permuted state"); }

#ifdef CyclistFullBlocks_supported
extern "C" {
#include "Xoodyak-parameters.h"
}
static void cyclist(int op, bool T)
{   // 0 absorb keyed, 1 absorb hash, 2 squeeze keyed, 3 squeeze hash, 4 encrypt, 5 decrypt
    static const unsigned R[] = {44, 16, 24, 16, 24, 24}; unsigned r = R[op];
    for (size_t n = r; n <= (T ? 14 : 6) * r + r - 1; n++) for (int b = 0; b < 4; b++) for (int a = 0; a < 6; a++) {
        call("operation %d on %zu bytes, base state %d, placement %d", op, n, b, a);
        World w; load(w, base(b).data()); Bytes d = data(n, 3 + b); size_t k = n / r, got = 0; bool has_out = op >= 2, has_in = op < 2 || op >= 4;
        const uint8_t *p = !has_in ? nullptr : a == 0 ? in.put(d.data(), n) : a == 1 ? inh.put(d.data(), n) : in.put_at(d.data(), n, 512 + 5 * a);
        Out &o = a == 1 ? outh : out; size_t on = has_out ? n + (a > 1 ? a : 0) : 0; uint8_t *q = o.take(on);
        if (has_in && has_out && a == 5) { memcpy(q, d.data(), n); p = q; }   // in place
        switch (op) {
        case 0: got = Xoodyak_AbsorbKeyedFullBlocks(&w.s, p, n); break; case 1: got = Xoodyak_AbsorbHashFullBlocks(&w.s, p, n); break;
        case 2: got = Xoodyak_SqueezeKeyedFullBlocks(&w.s, q, n); break; case 3: got = Xoodyak_SqueezeHashFullBlocks(&w.s, q, n); break;
        case 4: got = Xoodyak_EncryptFullBlocks(&w.s, p, q, n); break; case 5: got = Xoodyak_DecryptFullBlocks(&w.s, p, q, n); break;
        }
        expect_rc((long)got, (long)(k * r), "full-block loop: bytes processed");
        Bytes e(on, o.fill); if (a == 5 && has_in && has_out) memcpy(e.data(), d.data(), n);
        for (size_t i = 0; i < k; i++) {
            const uint8_t *x = d.data() + i * r;
            switch (op) {
            case 0: case 1: ref::xoodoo(w.m, 12); for (unsigned j = 0; j < r; j++) w.m[j] ^= x[j]; w.m[r] ^= 1; break;
            case 2: case 3: w.m[0] ^= 1; ref::xoodoo(w.m, 12); memcpy(&e[i * r], w.m, r); break;
            default: ref::xoodoo(w.m, 12); for (unsigned j = 0; j < r; j++) { uint8_t c = x[j] ^ w.m[j]; e[i * r + j] = c; w.m[j] = op == 4 ? c : x[j]; } w.m[r] ^= 1; break;
            }
        }
        o.check(e.data(), "output of the full-block loop"); full(w, "state after the full-block loop"); g.transitions++; g.states++;
    }
}
#endif
#ifdef Xoodoo_FastXoofff_supported
static void loops(bool T)
{
    for (unsigned nb = 1; nb <= (T ? 40 : 12); nb++) for (int extra : {0, 1, (int)BB - 1}) for (int pat = 0; pat < 3; pat++) for (int a = 0; a < 3; a++) {
        size_t n = nb * BB + extra, k = nb; call("%u blocks and %d bytes, pattern %d, placement %d", nb, extra, pat, a);
        alignas(64) uint8_t key[BB], acc[BB], mk[BB], ma[BB];
        for (size_t i = 0; i < BB; i++) { key[i] = pat == 1 ? 0 : pat == 2 ? 0xFF : dat(i, 5); acc[i] = pat == 1 ? 0 : pat == 2 ? 0xFF : dat(i, 6); }
        memcpy(mk, key, BB); memcpy(ma, acc, BB); Bytes d = data(n, 7);
        const uint8_t *p = a == 0 ? in.put(d.data(), n) : a == 1 ? inh.put(d.data(), n) : in.put_at(d.data(), n, 1021);
        size_t r = Xoofff_CompressFastLoop(key, acc, p, n);
        for (size_t b = 0; b < k; b++) { uint8_t t[BB]; for (size_t i = 0; i < BB; i++) t[i] = d[b * BB + i] ^ mk[i]; Farfalle::p(t); for (size_t i = 0; i < BB; i++) ma[i] ^= t[i]; Farfalle::rollc(mk); }
        expect_rc((long)r, (long)(k * BB), "compress loop: bytes consumed"); expect(acc, ma, BB, "accumulator"); expect(key, mk, BB, "rolled key");
        alignas(64) uint8_t y[BB], kr[BB], my[BB]; for (size_t i = 0; i < BB; i++) { y[i] = pat == 1 ? 0 : pat == 2 ? 0xFF : dat(i, 8); kr[i] = pat == 1 ? 0 : dat(i, 9); } memcpy(my, y, BB);
        Out &o = a == 1 ? outh : out; size_t on = a == 2 ? n + 3 : n; r = Xoofff_ExpandFastLoop(y, kr, o.take(on), n);
        Bytes e(on, o.fill); for (size_t b = 0; b < k; b++) { uint8_t t[BB]; memcpy(t, my, BB); Farfalle::p(t); for (size_t i = 0; i < BB; i++) e[b * BB + i] = t[i] ^ kr[i]; Farfalle::rolle(my); }
        expect_rc((long)r, (long)(k * BB), "expand loop: bytes produced"); o.check(e.data(), "expanded blocks"); expect(y, my, BB, "rolled state");
        g.transitions += 2; g.states++;
    }
}
#endif
extern "C" void Xoofff_AddIs(unsigned char *, const unsigned char *, size_t);
static void addis()
{
    for (size_t n = 0; n <= 2100; n++) for (int a = 0; a < 4; a++) {
        size_t b = (n + 7) / 8; call("AddIs of %zu bits, placement %d", n, a); Bytes d = data(b, 1), e = data(b, 2);
        const uint8_t *p = a == 0 ? in.put(d.data(), b) : a == 1 ? inh.put(d.data(), b) : in.put_at(d.data(), b, 33 + a);
        Out &o = a == 1 ? outh : out; size_t on = a >= 2 ? b + a - 1 : b; o.take(on); if (b) memcpy(o.p, e.data(), b);
        Xoofff_AddIs(o.p, p, n); for (size_t i = 0; i < b; i++) e[i] ^= d[i]; if (n % 8) e[b - 1] &= (1 << n % 8) - 1; e.resize(on, o.fill); o.check(e.data(), "AddIs"); g.transitions++;
    }
}
// ---- sequences of operations
struct Op { uint8_t k = 0; uint16_t a = 0, b = 0; };
static const char *kind[] = {"AddByte", "AddBytes", "OverwriteBytes", "OverwriteWithZeroes", "Permute", "ExtractAndAddBytes", "Initialize"};
static std::string show(const Op &o) { return str("%s(%u,%u)", kind[o.k], o.a, o.b); }
static std::vector<Op> OPS; static size_t curd, maxd;
static bool apply(World &w, const Op &o)
{
    Bytes d = data(64, 11 + 100 * curd); uint8_t *m = w.m + (o.k == 4 ? 0 : o.a);
    switch (o.k) {
    case 0: Xoodoo_AddByte(&w.s, (unsigned char)o.b, o.a); *m ^= o.b; break;
    case 1: Xoodoo_AddBytes(&w.s, in.put(d.data(), o.b), o.a, o.b); for (int i = 0; i < o.b; i++) m[i] ^= d[i]; break;
    case 2: Xoodoo_OverwriteBytes(&w.s, in.put(d.data(), o.b), o.a, o.b); if (o.b) memcpy(m, d.data(), o.b); break;
    case 3: Xoodoo_OverwriteWithZeroes(&w.s, o.a); memset(w.m, 0, o.a); break;
    case 4: run(&w.s, o.a); ref::xoodoo(w.m, o.a > 100 ? o.a - 100 : o.a); break;
    case 5: out.take(o.b); Xoodoo_ExtractAndAddBytes(&w.s, in.put(d.data(), o.b), out.p, o.a, o.b); for (int i = 0; i < o.b; i++) d[i] ^= m[i]; out.check(d.data(), "ExtractAndAddBytes"); break;
    case 6: Xoodoo_Initialize(&w.s); memset(w.m, 0, W); break;
    }
    full(w, "state");
    return curd < maxd;
}
int main(int argc, char **argv)
{
    mc::init(argc, argv); bool T = g.thorough;
    Xoodoo_StaticInitialize();
    for (unsigned off = 0; off < W; off++) for (int b = 0; b < 5; b++) if (begin("all range operations at offset %u, base state %d", off, b)) ranges(b, off);
    std::vector<unsigned> rounds = {6, 12};
#ifdef Xoodoo_HasNround
    for (unsigned n = 1; n <= 12; n++) rounds.push_back(100 + n);
#endif
    for (unsigned n : rounds) if (begin("%u rounds (%s) on states of weight 0 and 1, complements and neighbours", n % 100, n > 100 ? "Permute_Nrounds" : "fixed number")) {
        for (int b = 0; b < 30; b++) perm(base(b).data(), n);
        for (int i = 0; i < 384; i++) { Bytes v(W, 0); v[i / 8] ^= 1 << i % 8; perm(v.data(), n); for (auto &c : v) c ^= 0xFF; perm(v.data(), n); for (int s = 2; s < 6; s++) { Bytes u = base(s); u[i / 8] ^= 1 << i % 8; perm(u.data(), n); } }
    }
    for (unsigned n : rounds) if (n == 6 || n == 101 || n == 102 || T) for (int i = 0; i < 384; i++) if (begin("%u rounds on states of weight 2 with bit %d", n % 100, i)) for (int j = i + 1; j < 384; j++) { Bytes v(W, 0); v[i / 8] ^= 1 << i % 8; v[j / 8] ^= 1 << j % 8; perm(v.data(), n); }
#ifdef CyclistFullBlocks_supported
    for (int op = 0; op < 6; op++) if (begin("Xoodyak full-block loop %d", op)) cyclist(op, T);
#endif
#ifdef Xoodoo_FastXoofff_supported
    if (begin("Xoofff compress and expand loops")) loops(T);
#endif
    if (begin("Xoofff bit string addition")) addis();
    std::vector<Op> all;
    for (auto p : std::initializer_list<std::pair<int, int>>{{0, 0}, {0, 1}, {0, 4}, {0, 16}, {0, 24}, {0, 44}, {0, 48}, {1, 2}, {1, 3}, {2, 9}, {3, 1}, {3, 14}, {5, 30}, {7, 41}, {15, 2}, {12, 36}, {44, 4}, {47, 1}})
        for (uint8_t k : {1, 2, 5}) all.push_back(Op{k, (uint16_t)p.first, (uint16_t)p.second});
    for (int a : {0, 3, 16, 24, 44, 47}) all.push_back(Op{0, (uint16_t)a, 0x81});
    for (int a : {0, 1, 4, 16, 23, 24, 44, 48}) all.push_back(Op{3, (uint16_t)a, 0});
    for (unsigned a : rounds) if (a < 103 || a == 111) all.push_back(Op{4, (uint16_t)a, 0});
    all.push_back(Op{6, 0, 0});
    size_t depth = T ? 4 : 3;
    for (auto &f : all) if (begin("all sequences of %zu operations starting with %s", depth, show(f).c_str())) {
        std::unique_ptr<World> w(new World); load(*w, base(4).data()); maxd = depth; curd = 1; apply(*w, f);
        OPS = all; maxd = depth - 1; Search<World, Op> q; q.show = show; std::string h = show(f);
        q.run(*w, depth - 1, h, [](const World &, size_t d) { curd = d; return OPS; }, apply, [](World &, size_t) {});
    }
    return mc::finish();
}
