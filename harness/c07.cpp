// C07: SpongePRG over Keccak-f[1600].
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "KeccakPRG.h"
}
using namespace mc;
typedef KeccakWidth1600_SpongePRG_Instance P;
enum Kind { FEED, FETCH, FORGET };
struct Op { int kind = 0; unsigned len = 0; };
/// SpongePRG[f, pad10*1, r, rho]: buffered input, buffered output (offset in the last squeezed block).
struct World {
    P p;
    uint8_t s[200], in[200]; unsigned rate, rho, nin, nout /* bytes left */; unsigned total;
};
static In in(4096); static Out out(4096); static Bytes src;
static std::string show(const Op &o) { return o.kind == FORGET ? "Forget" : str(o.kind == FEED ? "Feed(%u)" : "Fetch(%u)", o.len); }
static void duplexing(World &w, const uint8_t *p, unsigned n)
{
    ref::Bits b(p, 8 * n); b.bit(1); while (b.n < w.rate - 1) b.bit(0); b.bit(1);
    for (size_t i = 0; i < b.b.size(); i++) w.s[i] ^= b.b[i];
    ref::keccakp(w.s, 24);
}
static bool apply(World &w, const Op &o)
{
    if (o.kind == FEED) {
        expect_rc(KeccakWidth1600_SpongePRG_Feed(&w.p, in.put(src.data() + w.total, o.len), o.len), 0, "Feed");
        for (unsigned i = 0; i < o.len; i++) {
            w.in[w.nin++] = src[w.total++];
            if (w.nin == w.rho) { duplexing(w, w.in, w.nin); w.nin = 0; memset(w.in, 0, sizeof w.in); }
        }
        w.nout = 0;
    } else if (o.kind == FETCH) {
        static uint8_t want[4096];
        for (unsigned i = 0; i < o.len; i++) {
            if (w.nout == 0) { duplexing(w, w.in, w.nin); w.nin = 0; memset(w.in, 0, sizeof w.in); w.nout = w.rho; }
            want[i] = w.s[w.rho - w.nout]; w.nout--;
        }
        if (o.len) w.total = 0;
        expect_rc(KeccakWidth1600_SpongePRG_Fetch(&w.p, out.take(o.len), o.len), 0, "Fetch");
        out.check(want, "fetched bytes");
    } else {
        int rc = KeccakWidth1600_SpongePRG_Forget(&w.p);
        if (8 * w.rho < 1600 - w.rate) { expect_err(rc, "Forget with rho < c"); return true; }
        expect_rc(rc, 0, "Forget");
        duplexing(w, w.in, w.nin);
        uint8_t z[200]; memcpy(z, w.s, 200);
        duplexing(w, z, w.rho);       // feeding its own output back: the outer part becomes zero
        w.nin = 0; memset(w.in, 0, sizeof w.in); w.nout = 0; w.total = 0;
    }
    return true;
}
static void observe(World w, size_t) { Op o; o.kind = FETCH; o.len = w.rho + 1; apply(w, o); }
static std::vector<Op> ops(const World &w, bool wide)
{
    std::vector<unsigned> L = {0, 1, w.rho - w.nin, w.rho, w.rho + 1, 2 * w.rho - w.nin};
    if (w.rho > w.nin + 1) L.push_back(w.rho - w.nin - 1);
    std::vector<unsigned> F = {0, 1, w.nout, w.nout + 1, w.rho};
    if (wide) for (unsigned x : {2u, 7u, 8u, 9u, 2 * w.rho, 2 * w.rho + 1, 3 * w.rho + 2}) { L.push_back(x); F.push_back(x); }
    for (auto *v : {&L, &F}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
    std::vector<Op> v; Op o;
    o.kind = FEED; for (unsigned l : L) { o.len = l; v.push_back(o); }
    o.kind = FETCH; for (unsigned l : F) { o.len = l; v.push_back(o); }
    o.kind = FORGET; o.len = 0; v.push_back(o);
    return v;
}
static void fresh(World &w, unsigned capacity, uint8_t fill)
{
    memset((void *)&w, 0, sizeof w); memset((void *)&w.p, fill, sizeof w.p);
    expect_rc(KeccakWidth1600_SpongePRG_Initialize(&w.p, capacity), 0, "Initialize");
    w.rate = 1600 - capacity; w.rho = (w.rate - 2) / 8;
}
int main(int argc, char **argv)
{
    mc::init(argc, argv);
    src = data(8192, 7);
    bool all = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "all")) all = true;
    if (begin("initialization with every capacity 0..1700")) for (unsigned c = 0; c <= 1700; c++) {
        P p; memset((void *)&p, 0x3C, sizeof p); int rc = KeccakWidth1600_SpongePRG_Initialize(&p, c); g.transitions++;
        if (c <= 1590) expect_rc(rc, 0, str("Initialize(%u)", c).c_str()); else expect_err(rc, str("Initialize(%u)", c).c_str());
    }
    for (unsigned c = 0; c <= 1590; c++) {
        bool special = !all && !g.thorough ? (c <= 8 || c >= 1583 || c == 254 || c == 256 || c == 796 || c == 801) : c <= 18 || c >= 1570 || (c >= 790 && c <= 812) || c == 254 || c == 256;
        if (!all && !special && c % 31) continue;
        size_t depth = special ? 3 : 2;
        if (g.thorough) depth++;
        if (begin("capacity %u: all sequences of %zu calls", c, depth)) {
            std::unique_ptr<World> w(new World); fresh(*w, c, 0x6E); Search<World, Op> S; S.show = show;
            S.run(*w, depth, str("Initialize(capacity %u)", c), [&](const World &w, size_t d) { return ops(w, d == 1 || g.thorough); }, apply, observe);
        }
        if ((special || (g.thorough && c % 8 < 3)) && begin("capacity %u: all partitions of feeds and fetches", c)) {
            std::unique_ptr<World> w(new World); fresh(*w, c, 0); unsigned N = 2 * w->rho + 2;
            chunk_graph(*w, str("capacity %u, feed", c), N, upto(0, N), 2,
                [&](World &w, size_t n, size_t k) { Op o; o.kind = FEED; o.len = k; apply(w, o); },
                [&](World &w, size_t n) { World u; memcpy((void *)&u, (void *)&w, sizeof u); Op o; o.kind = FETCH; o.len = w.rho > 1 ? 2 : 1; apply(u, o); if (n % 5 == 0) { o.kind = FORGET; apply(w, o); observe(w, 0); } });
            for (unsigned fed : {0u, w->rho / 2 + 1}) {
                fresh(*w, c, 0xFF); Op o; o.kind = FEED; o.len = fed; apply(*w, o);
                chunk_graph(*w, str("capacity %u, fed %u, fetch", c, fed), N, upto(0, N), 2,
                    [&](World &w, size_t n, size_t k) { Op o; o.kind = FETCH; o.len = k; apply(w, o); },
                    [&](World &w, size_t n) { Op o; o.kind = FEED; o.len = 1; apply(w, o); observe(w, 0); });
            }
        }
    }
    return mc::finish();
}
