// C08 (Kravatte), C11 (Xoofff): Farfalle.
#include "farfalle.hpp"
using namespace mc;
using ref::Bits;
static In in(1 << 20), ink(512); static Out out(1 << 20);
static const uint8_t *put(const Bytes &b) { return in.put(b.data(), b.size()); }

static void keyed(FF &t, const Bits &key, uint8_t fill) { memset((void *)&t, fill, sizeof t); Bytes d = dirty(key); expect_rc(ff_key(&t, ink.put(d.data(), d.size()), key.n), 0, "MaskDerivation"); }
static void one(size_t kb, size_t mb, size_t ob, bool s, uint32_t salt = 0)
{
    call(NAME "%s(key %zu bits, message %zu bits, output %zu bits)", s ? " short" : "", kb, mb, ob);
    Bits key = bits_of(kb, 1 + salt), m = bits_of(mb, 2 + salt);
    FF t; keyed(t, key, 0xC3); Farfalle f(key); f.string(m);
    expect_rc(ff_all(&t, put(dirty(m)), mb, out.take(by(ob)), ob, INIT | (s ? SHORT : 0)), 0, "one call");
    out.check(f.out(0, ob, s).data(), "output");
    // again on the same object: same result, and continued as a second string without INIT
    expect_rc(ff_all(&t, put(dirty(m)), mb, out.take(by(ob)), ob, (s ? SHORT : 0)), 0, "second string");
    f.string(m); out.check(f.out(0, ob, s).data(), "output of two strings");
    g.states++; g.transitions += 2;
}
static std::vector<size_t> edges(size_t blocks, size_t dense, const std::vector<int> &d)
{
    std::vector<size_t> v; for (size_t i = 0; i <= dense; i++) v.push_back(i);
    for (size_t b = 1; b <= blocks; b++) for (int x : d) v.push_back(BB * b + x);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
/// reference of prefixes: accumulators after whole blocks are kept
struct Prefixes {
    Bytes m; std::vector<Farfalle> whole;
    Prefixes(const Farfalle &f, size_t n) : m(data(n + 2, 5)) { whole.push_back(f); while ((whole.size()) * BB <= n) { Farfalle g = whole.back(); g.block(m.data() + BB * (whole.size() - 1)); whole.push_back(g); } }
    Farfalle at(size_t n, int bits) { size_t b = n / BB; Farfalle f = whole[b]; f.tail(m.data() + BB * b, 8 * (n - BB * b) + bits); return f; }
};
static void compress(const std::vector<size_t> &pts, int before, bool allbits)
{
    std::unique_ptr<FF> t(new FF); Bits key = bits_of(128, 1); keyed(*t, key, 0x2A); Farfalle f(key);
    std::string pre = NAME " with 128-bit key";
    if (before) {    // an earlier string (and output), then the explored one without INIT
        Bits e = bits_of(before, 9); Bytes d = dirty(e); expect_rc(ff_in(t.get(), put(d), before, LAST), 0, "first string"); f.string(e);
        expect_rc(ff_out(t.get(), out.take(5), 40, 0), 0, "output"); pre += str(", string of %d bits, 40 bits of output", before);
    }
    Prefixes P(f, pts.back());
    point_graph(*t, pre, pts, 2,
        [&](FF &t, size_t o, size_t k) { expect_rc(ff_in(&t, in.put(P.m.data() + o, k), 8 * k, 0), 0, "compress"); },
        [&](FF &t, size_t o) {
            for (int b = 0; b < 8; b++) {
                if (!allbits && b != (int)(o % 8)) continue;
                std::unique_ptr<FF> u(new FF); memcpy((void *)u.get(), (const void *)&t, sizeof(FF));
                uint8_t l = P.m[o] | (uint8_t)(0xFF << b); if (o & 1) l = P.m[o] & (uint8_t)~(0xFF << b);
                expect_rc(ff_in(u.get(), in.put(&l, b != 0), b, LAST), 0, "last part");
                bool s = (o + b) & 1;
                expect_rc(ff_out(u.get(), out.take(16), 128, s ? SHORT : 0), 0, "expand");
                g.aux1 = 8 * o + b; out.check(P.at(o, b).out(0, 128, s).data(), "output for %ld bits of message");
            }
        });
}
static void last_parts(size_t N)
{   // the last part given together with every number of bytes, after every fill of the queue
    std::unique_ptr<FF> t(new FF), u(new FF), v(new FF); Bits key = bits_of(100, 1); keyed(*t, key, 0); Prefixes P(Farfalle(key), 2 * N);
    for (size_t q = 0; q <= N; q++) {
        memcpy((void *)u.get(), (void *)t.get(), sizeof(FF)); expect_rc(ff_in(u.get(), in.put(P.m.data(), q), 8 * q, 0), 0, "compress"); g.states++;
        for (size_t l = 0; l <= N; l++) for (int b : {0, (int)((q + l) % 7 + 1)}) {
            call("compress(%zu bytes), last part of %zu bytes %d bits", q, l, b);
            memcpy((void *)v.get(), (void *)u.get(), sizeof(FF));
            Bytes d(P.m.begin() + q, P.m.begin() + q + l + (b != 0)); if (b && (q & 1)) d.back() |= (uint8_t)(0xFF << b);
            expect_rc(ff_in(v.get(), put(d), 8 * l + b, LAST), 0, "last part"); g.transitions++;
            expect_rc(ff_out(v.get(), out.take(8), 64, LAST), 0, "expand");
            out.check(P.at(q + l, b).out(0, 64).data(), "output");
        }
    }
}
static void expand(const std::vector<size_t> &pts, bool s, bool allbits)
{
    std::unique_ptr<FF> t(new FF); Bits key = bits_of(99, 1), m = bits_of(77, 2); keyed(*t, key, 0x99); Farfalle f(key); f.string(m);
    expect_rc(ff_in(t.get(), put(dirty(m)), m.n, LAST), 0, "compress");
    size_t N = pts.back(); Bytes want = f.out(0, 8 * (N + 3 * BB), s); int fl = s ? SHORT : 0;
    point_graph(*t, str(NAME "%s: key and message", s ? " short" : ""), pts, 2,
        [&](FF &t, size_t o, size_t k) { expect_rc(ff_out(&t, out.take(k), 8 * k, fl), 0, "expand"); out.check(want.data() + o, "expanded"); },
        [&](FF &t, size_t o) {
            for (int b = 0; b < 8; b++) for (size_t k : {(size_t)0, (size_t)1, BB - 1, 2 * BB}) {
                if (!allbits && (b != (int)(o % 8) || k > 1)) continue;
                std::unique_ptr<FF> u(new FF); memcpy((void *)u.get(), (const void *)&t, sizeof(FF));
                size_t n = k + (b != 0); expect_rc(ff_out(u.get(), out.take(n), 8 * k + b, fl | LAST), 0, "last expand");
                Bytes v(want.begin() + o, want.begin() + o + n); if (b) v[k] &= (1 << b) - 1;
                g.aux1 = 8 * (o + k) + b; out.check(v.data(), "last output up to bit %ld");
                // a next string on the same object is unaffected by how the output was taken
                if (k == 0 || allbits) { uint8_t one = 0x3F; expect_rc(ff_all(u.get(), in.put(&one, 1), 6, out.take(9), 70, 0), 0, "next string"); Farfalle h = f; h.tail(&one, 6); out.check(h.out(0, 70).data(), "output after next string"); }
            }
        });
}

// sequences of strings and outputs
struct Op { int kind = 0; size_t bits = 0; int flags = 0; };
struct World { FF t; Farfalle f; uint64_t q; uint64_t taken; int mode, nstr; };   // mode 0 compressing, 1 expanding, 2 expanded; q: bytes queued of the open string
static Bytes msg;
static std::string show(const Op &o) { return str("%s(%zu bits%s%s%s)", o.kind ? "expand" : "compress", o.bits, o.flags & INIT ? ", init" : "", o.flags & LAST ? ", last" : "", o.flags & SHORT ? ", short" : ""); }
static bool apply(World &w, const Op &o)
{
    if (o.kind == 0) {
        // the open string is msg[0..q) (salted by nothing); it is compressed in the model when it ends
        bool fresh = (o.flags & INIT) || w.mode != 0;
        if (fresh) w.q = 0;
        Bytes d(msg.begin() + w.q, msg.begin() + w.q + by(o.bits)); if (o.bits % 8) d.back() |= (uint8_t)(0xFF << o.bits % 8);
        expect_rc(ff_in(&w.t, put(d), o.bits, o.flags), 0, "compress");
        if (o.flags & INIT) { w.f.restart(); w.nstr = 0; }
        w.mode = 0; w.taken = 0;
        if (o.flags & LAST) { Bits b(msg.data(), 8 * w.q + o.bits); w.f.string(b); w.q = 0; w.nstr++; }
        else w.q += o.bits / 8;
    } else {
        bool s = o.flags & SHORT;
        if (w.mode == 0) { w.taken = 0; w.mode = s ? 3 : 1; }
        Bytes want = w.f.out(w.taken, o.bits, w.mode == 3);
        expect_rc(ff_out(&w.t, out.take(by(o.bits)), o.bits, o.flags), 0, "expand");
        out.check(want.data(), "output");
        w.taken += o.bits / 8;
        if (o.flags & LAST) { w.mode = 2; w.taken = 0; }
    }
    return true;
}
static std::vector<Op> ops(const World &w)
{
    std::vector<Op> v; auto add = [&](int k, size_t b, int f) { Op o; o.kind = k; o.bits = b; o.flags = f; v.push_back(o); };
    for (size_t b : {(size_t)0, (size_t)8, 8 * BB - 8, 8 * BB, 8 * BB + 8, 8 * (MAXPAR / 2 + 1) * BB}) { add(0, b, 0); add(0, b, INIT); }
    for (size_t b : {(size_t)0, (size_t)5, 8 * BB - 1, 8 * BB, 8 * BB * 2 + 3}) { add(0, b, LAST); add(0, b, LAST | INIT); }
    if (w.mode == 0 && (w.q || w.nstr == 0)) return v;      // output only after a complete string
    if (w.mode == 2) return v;
    for (size_t b : {(size_t)0, (size_t)8, 8 * BB - 8, 8 * BB, 8 * BB + 16}) { add(1, b, 0); if (w.mode == 0) add(1, b, SHORT); }
    for (size_t b : {(size_t)0, (size_t)3, 8 * BB, 8 * BB + 1}) { add(1, b, LAST); if (w.mode == 0) add(1, b, LAST | SHORT); }
    return v;
}
static void sequences(size_t depth)
{
    std::unique_ptr<World> w(new World); memset((void *)w.get(), 0, sizeof(World)); Bits key = bits_of(200, 7); keyed(w->t, key, 0x51); w->f = Farfalle(key);
    msg = data(64 * BB, 5);
    Search<World, Op> S; S.show = show;
    S.run(*w, depth, "key of 200 bits", [&](const World &w, size_t) { return ops(w); }, apply, [&](World &t, size_t) {
        std::unique_ptr<World> u(new World); memcpy((void *)u.get(), (void *)&t, sizeof(World)); Op o; o.bits = 13; o.flags = LAST; apply(*u, o); o.kind = 1; o.bits = 101; o.flags = LAST; apply(*u, o); });
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool T = g.thorough, light = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "light")) light = true;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "mix")) {
#ifdef ROOMY
        mc::mix_scenario();
#endif
        if (begin("messages of every number of blocks")) for (size_t b = 0; b <= 2 * MAXPAR + 2; b++) for (int d : {0, 1, 9}) one(128, 8 * BB * b + d, 64, d & 1, b);
        if (begin("outputs of every number of blocks")) for (size_t b = 0; b <= 2 * MAXPAR + 2; b++) for (int d : {0, 1, 9}) one(128, 5, 8 * BB * b + d, d & 1, b);
        if (begin("partitions of messages at block boundaries up to %zu", 2 * MAXPAR + 1)) compress(edges(2 * MAXPAR + 1, 1, {0}), 0, false);
        for (bool s : {false, true}) if (begin("partitions of outputs at block boundaries%s", s ? ", short" : "")) expand(edges(2 * MAXPAR + 1, 1, {0}), s, false);
        return mc::finish();
    }
    if (begin("every key bit length")) for (size_t k = 0; k < 8 * BB; k++) one(k, 20, 100, k & 1);
    if (begin("every message bit length up to 3 blocks")) for (size_t m = 0; m <= 8 * (3 * BB + 1); m++) one(128, m, 64, m & 1);
    if (begin("every output bit length up to 3 blocks")) for (size_t o = 0; o <= 8 * (3 * BB + 1); o++) one(128, 9, o, o & 1);
    if (begin("messages around every number of blocks")) for (size_t b = 1; b <= 4 * MAXPAR + 3; b++) for (int d = -9; d <= 9; d++) one(128, 8 * BB * b + d, 64, d & 1, b);
    if (begin("outputs around every number of blocks")) for (size_t b = 1; b <= 4 * MAXPAR + 3; b++) for (int d = -9; d <= 9; d++) one(128, 5, 8 * BB * b + d, d & 1, b);
    std::vector<size_t> dense = upto(0, (T ? 4 : 2) * BB + 3);
    for (int before : {0, 1603}) if (begin("every partition of messages up to %zu bytes%s", dense.back(), before ? " as a second string" : "")) compress(dense, before, BB < 100 || T);
    if (begin("partitions of messages around every number of blocks up to %zu", 2 * MAXPAR + 3)) compress(edges(2 * MAXPAR + 3, 0, light ? std::vector<int>{0} : std::vector<int>{-1, 0, 1}), 0, true);
    if (begin("partitions of long messages after odd starts")) for (size_t st : {1, 7, 8, 9}) { std::vector<size_t> p = {0, st, BB - 1, BB}; for (size_t b = 1; b <= 2 * MAXPAR + 2; b += (b == 4 ? 3 : 1)) p.push_back(BB * b + st); std::sort(p.begin(), p.end()); compress(p, 0, false); }
    if (begin("every last part after every queue fill")) last_parts(2 * BB + 2);
    for (bool s : {false, true}) {
        if (begin("every partition of outputs up to %zu bytes%s", dense.back(), s ? ", short" : "")) expand(dense, s, false);
        if (begin("partitions of outputs around every number of blocks%s", s ? ", short" : "")) expand(edges(2 * MAXPAR + 3, 1, light ? std::vector<int>{0} : std::vector<int>{-1, 0, 1}), s, true);
    }
    if (begin("all sequences of %d calls on strings and outputs", T ? 4 : 3)) sequences(T ? 4 : 3);
    return mc::finish();
}
