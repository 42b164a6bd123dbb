// C06: duplex object over Keccak-f[1600].
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "KeccakDuplex.h"
}
using namespace mc;
typedef KeccakWidth1600_DuplexInstance D;

enum Kind { DUPLEX, FEED, ZEROES, OVER, OVER0, GET, ADD, ADDIN };
struct Op { int kind = 0; unsigned len = 0, zlen = 0; unsigned delim = 0; };
/// The duplex construction: state after the last call, bits of sigma queued for the next one, number of output bytes taken.
struct World {
    D d;
    uint8_t s[200], q[200]; unsigned rate, nq, nout;
};
static In in(256); static Out out(256); static Bytes src; static bool head_used;
static In inH(256, true); static Out outH(256, true);

static std::string show(const Op &o)
{
    static const char *n[] = {"Duplexing", "FeedPartialInput", "FeedZeroes", "OverwritePartialInput", "OverwriteWithZeroes", "GetFurtherOutput", "GetFurtherOutputAndAdd", "GetFurtherOutputAndAdd(in place)"};
    return o.kind == DUPLEX ? str("Duplexing(%u bytes, Z %u bytes, 0x%02X)", o.len, o.zlen, o.delim) : str("%s(%u)", n[o.kind], o.len);
}
static unsigned M(const World &w) { return (w.rate - 2) / 8; }
static unsigned C(const World &w) { return (w.rate + 7) / 8; }
static void masked(const World &w, uint8_t *z, unsigned from, unsigned n)
{ memcpy(z, w.s + from, n); if ((from + n) * 8 > w.rate && n) z[n - 1] &= (uint8_t)((1 << w.rate % 8) - 1); }

static bool apply(World &w, const Op &o)
{
    In &I = head_used ? inH : in; Out &O = head_used ? outH : out; head_used = !head_used;
    unsigned safe = o.len > 220 ? 220 : o.len;
    int n = 0; while (n < 8 && (o.delim >> n) > 1) n++;
    switch (o.kind) {
    case DUPLEX: {
        bool ok = o.delim != 0 && (uint64_t)8 * (w.nq + (uint64_t)o.len) + n <= w.rate - 2 && o.zlen <= C(w);
        unsigned zs = o.zlen > 220 ? 220 : o.zlen;
        uint8_t *z = O.take(zs);
        int rc = KeccakWidth1600_Duplexing(&w.d, I.put(src.data() + w.nq, safe), o.len, z, o.zlen, o.delim);
        if (!ok) { expect_err(rc, "Duplexing beyond what the rate allows"); O.untouched("Duplexing"); return true; }
        expect_rc(rc, 0, "Duplexing");
        ref::Bits b(w.q, 8 * w.nq); b.append(src.data() + w.nq, 8 * o.len); uint8_t e = (uint8_t)o.delim; b.append(&e, n);
        b.bit(1); while (b.n < w.rate - 1) b.bit(0); b.bit(1);
        for (size_t i = 0; i < b.b.size(); i++) w.s[i] ^= b.b[i];
        ref::keccakp(w.s, 24);
        memset(w.q, 0, sizeof w.q); w.nq = 0; w.nout = o.zlen;
        uint8_t want[200]; masked(w, want, 0, o.zlen); O.check(want, "Z");
        return true;
    }
    case FEED: case ZEROES: case OVER: case OVER0: {
        bool ok = (uint64_t)w.nq + o.len <= M(w) && (o.kind != OVER0 || w.nq == 0);
        int rc;
        if (o.kind == FEED) rc = KeccakWidth1600_DuplexingFeedPartialInput(&w.d, I.put(src.data() + w.nq, safe), o.len);
        else if (o.kind == ZEROES) rc = KeccakWidth1600_DuplexingFeedZeroes(&w.d, o.len);
        else if (o.kind == OVER) rc = KeccakWidth1600_DuplexingOverwritePartialInput(&w.d, I.put(src.data() + w.nq, safe), o.len);
        else rc = KeccakWidth1600_DuplexingOverwriteWithZeroes(&w.d, o.len);
        if (!ok) { expect_err(rc, "input beyond what the rate allows"); return true; }
        expect_rc(rc, 0, "queueing input");
        for (unsigned i = 0; i < o.len; i++) {
            uint8_t z = w.s[w.nq + i];
            w.q[w.nq + i] = o.kind == FEED ? src[w.nq + i] : o.kind == ZEROES ? 0 : o.kind == OVER ? src[w.nq + i] ^ z : z;
        }
        w.nq += o.len;
        return true;
    }
    default: {
        bool ok = (uint64_t)w.nout + o.len <= C(w);
        uint8_t *z = O.take(safe); int rc;
        if (o.kind == GET) rc = KeccakWidth1600_DuplexingGetFurtherOutput(&w.d, z, o.len);
        else if (o.kind == ADD) rc = KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(&w.d, I.put(src.data() + 300, safe), z, o.len);
        else {
            if (ok) memcpy(z, src.data() + 300, safe);
            rc = KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(&w.d, z, z, o.len);
        }
        if (!ok) { expect_err(rc, "output beyond the rate"); O.untouched("GetFurtherOutput"); return true; }
        expect_rc(rc, 0, "fetching output");
        uint8_t want[200]; memcpy(want, w.s + w.nout, o.len);
        if (o.kind != GET) for (unsigned i = 0; i < o.len; i++) want[i] ^= src[300 + i];
        if ((w.nout + o.len) * 8 > w.rate && o.len) want[o.len - 1] &= (uint8_t)((1 << w.rate % 8) - 1);
        O.check(want, "further output");
        w.nout += o.len;
        return true;
    }
    }
}
static void observe(World w, size_t)
{   // what the next block gives, over the whole rate
    Op o; o.kind = DUPLEX; o.len = 0; o.zlen = C(w); o.delim = 1;
    apply(w, o);
}
static void uniq(std::vector<unsigned> &v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
/// fetching is specified as long as the bytes to be fetched have not been overlaid by newly queued input
static bool may_get(const World &w, unsigned len) { return w.nout >= w.nq || len == 0 || (uint64_t)w.nout + len > C(w); }

static std::vector<Op> ops(const World &w, bool wide, bool duplex)
{
    std::vector<Op> v; unsigned m = M(w), c = C(w);
    auto add = [&](int k, unsigned l, unsigned z = 0, unsigned d = 0) { Op o; o.kind = k; o.len = l; o.zlen = z; o.delim = d; v.push_back(o); };
    std::vector<unsigned> L = {0, 1, m - w.nq, m - w.nq + 1};
    if (m > w.nq) L.push_back(m - w.nq - 1);
    if (wide) for (unsigned x : {3u, 8u, 9u, 13u, m + 1, 200u, 0x20000000u, 0x1FFFFFFFu, 0xFFFFFFFFu - w.nq + 1u, 0xFFFFFFFFu}) L.push_back(x);
    uniq(L);
    for (unsigned l : L) {
        add(FEED, l); add(OVER, l);
        if (wide || l > 1) { add(ZEROES, l); add(OVER0, l); }
        else if (l == 1) add(OVER0, l);
    }
    std::vector<unsigned> G = {0, 1, c - w.nout, c - w.nout + 1};
    if (c > w.nout) G.push_back(c - w.nout - 1);
    if (wide) for (unsigned x : {7u, 8u, 9u, c + 1, 0xFFFFFFFFu, 0xFFFFFFFFu - w.nout + 1u, 0x20000000u}) G.push_back(x);
    uniq(G);
    for (unsigned l : G) if (may_get(w, l)) { add(GET, l); add(ADD, l); if (wide || l > 1) add(ADDIN, l); }
    if (duplex) {
        std::vector<unsigned> Z = {0, 1, c - 1, c, c + 1}, E = {0, 1, 2, 3, 0x7F, 0x80, 0xFF};
        unsigned last = w.rate - 2 - 8 * (w.nq <= m ? m : 0);     // bits left after m bytes
        for (unsigned l : L) {
            // delimiters around the largest acceptable one
            std::vector<unsigned> D2 = {1, 0};
            if (w.nq + l == m || w.nq + l + 1 == m) for (unsigned b : {last, last + 1}) if (b <= 7) { D2.push_back(1u << b); D2.push_back((2u << b) - 1); }
            if (wide) { D2.insert(D2.end(), E.begin(), E.end()); for (unsigned b = 0; b < 8; b++) D2.push_back(1u << b); }
            uniq(D2);
            for (unsigned d : D2) add(DUPLEX, l, wide ? c : 0, d);
        }
        uniq(Z);
        for (unsigned z : Z) add(DUPLEX, w.nq < m, z, 1);
        if (wide) for (unsigned z : Z) for (unsigned d : E) { add(DUPLEX, 0, z, d); add(DUPLEX, m - w.nq, z, d); }
        if (wide) add(DUPLEX, 0, 0xFFFFFFFFu, 1);
    }
    return v;
}
static void fresh(World &w, unsigned rate, uint8_t fill)
{
    memset((void *)&w, 0, sizeof w); memset((void *)&w.d, fill, sizeof w.d);
    expect_rc(KeccakWidth1600_DuplexInitialize(&w.d, rate, 1600 - rate), 0, "DuplexInitialize");
    w.rate = rate; w.nout = C(w);
}
static void explore(unsigned rate, size_t depth, size_t blocks, bool wide)
{
    std::unique_ptr<World> w(new World); fresh(*w, rate, 0xB4);
    std::vector<Op> starts(1);
    Op o; o.kind = DUPLEX; o.delim = 1;
    for (size_t b = 0; b < blocks; b++) {
        Search<World, Op> S; S.show = show;
        S.run(*w, depth, str("DuplexInitialize(rate %u)%s", rate, b ? b > 1 ? "; Duplexing(1 byte, Z 0, 1); Duplexing(0 bytes, Z 1, 1)" : "; Duplexing(1 byte, Z 0, 1)" : ""), [&](const World &w, size_t d) { return ops(w, wide, true); }, apply, observe);
        o.len = b == 0 && M(*w) ? 1 : 0; o.zlen = b; if (b + 1 < blocks) apply(*w, o);
    }
}
/// every way of cutting the whole block: queueing, then fetching
static void graphs(unsigned rate)
{
    for (int kind : {FEED, ZEROES, OVER}) {
        std::unique_ptr<World> w(new World); fresh(*w, rate, 0); Op o; o.kind = DUPLEX; o.delim = 1; apply(*w, o);
        unsigned m = M(*w);
        chunk_graph(*w, str("rate %u, one block, then queue by calls of kind %d", rate, kind), m, upto(0, m), 2,
            [&](World &w, size_t n, size_t k) { Op o; o.kind = kind; o.len = k; apply(w, o); },
            [&](World &w, size_t n) { if (n % 8 < 2 || n + 3 > m) observe(w, 0); });
    }
    for (int kind : {GET, ADD, ADDIN}) {
        std::unique_ptr<World> w(new World); fresh(*w, rate, 0); Op o; o.kind = DUPLEX; o.delim = 1; apply(*w, o);
        unsigned c = C(*w);
        chunk_graph(*w, str("rate %u, one block, then fetch by calls of kind %d", rate, kind), c, upto(0, c), 2,
            [&](World &w, size_t n, size_t k) { Op o; o.kind = kind; o.len = k; apply(w, o); },
            [&](World &w, size_t n) { if (n % 64 == 0 || n == c) observe(w, 0); });
    }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    src = data(600, 6);
    bool all = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "all")) all = true;
    if (begin("initialization with every rate 0..1700 and capacity complement")) {
        for (unsigned r = 0; r <= 1700; r++) for (int dc = -8; dc <= 8; dc++) {
            D d; memset((void *)&d, 0x3C, sizeof d); long c = 1600 - (long)r + dc; if (c < 0 && r <= 1600) continue;
            int rc = KeccakWidth1600_DuplexInitialize(&d, r, (unsigned)c);
            bool ok = dc == 0 && r >= 3 && r <= 1600;
            if (ok) expect_rc(rc, 0, "DuplexInitialize"); else expect_err(rc, str("DuplexInitialize(%u,%ld)", r, c).c_str());
            g.transitions++;
        }
    }
    auto special = [](unsigned r) { return r <= 34 || r >= 1584 || (r >= 1080 && r <= 1096) || (r >= 510 && r <= 530); };
    for (unsigned r = 3; r <= 1600; r++) {
        if (!all && !special(r) && r % 27) continue;
        if (begin("rate %u: sequences of 2 calls after 0..2 blocks", r)) explore(r, 2, 3, false);
        if (special(r) && begin("rate %u: sequences of calls, wide arguments", r)) explore(r, g.thorough ? 2 : 1, 3, true);
        if (special(r) && (all || g.thorough) && begin("rate %u: sequences of 3 calls", r)) explore(r, 3, 1, false);
        if ((special(r) || (all && (g.thorough || r % 8 == 1))) && begin("rate %u: all partitions of a block", r)) graphs(r);
    }
    return mc::finish();
}
