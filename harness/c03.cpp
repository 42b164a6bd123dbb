// C03: SP 800-185.
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "SP800-185.h"
}
using namespace mc;
using ref::Bits;

#define LEVEL(S) {S, cSHAKE##S, cSHAKE##S##_Initialize, cSHAKE##S##_Update, cSHAKE##S##_Final, cSHAKE##S##_Squeeze, \
    KMAC##S, KMAC##S##_Initialize, KMAC##S##_Update, KMAC##S##_Final, KMAC##S##_Squeeze, \
    ParallelHash##S, ParallelHash##S##_Initialize, ParallelHash##S##_Update, ParallelHash##S##_Final, ParallelHash##S##_Squeeze, \
    TupleHash##S, TupleHash##S##_Initialize, TupleHash##S##_Update, TupleHash##S##_Final, TupleHash##S##_Squeeze}
struct API {
    int level;
    decltype(&cSHAKE128) cshake; decltype(&cSHAKE128_Initialize) cs_init; decltype(&cSHAKE128_Update) cs_up; decltype(&cSHAKE128_Final) cs_fin; decltype(&cSHAKE128_Squeeze) cs_sq;
    decltype(&KMAC128) kmac; decltype(&KMAC128_Initialize) km_init; decltype(&KMAC128_Update) km_up; decltype(&KMAC128_Final) km_fin; decltype(&KMAC128_Squeeze) km_sq;
    decltype(&ParallelHash128) ph; decltype(&ParallelHash128_Initialize) ph_init; decltype(&ParallelHash128_Update) ph_up; decltype(&ParallelHash128_Final) ph_fin; decltype(&ParallelHash128_Squeeze) ph_sq;
    decltype(&TupleHash128) th; decltype(&TupleHash128_Initialize) th_init; decltype(&TupleHash128_Update) th_up; decltype(&TupleHash128_Final) th_fin; decltype(&TupleHash128_Squeeze) th_sq;
};
static const API APIS[] = {LEVEL(128), LEVEL(256)};

static In in1(1 << 18), in2(1 << 17), in3(1 << 17); static Out out(1 << 16);
static size_t by(size_t bits) { return (bits + 7) / 8; }
/// bits with unused bits of the last byte zero
static Bits bits_of(size_t n, uint32_t salt) { Bytes d = data(by(n), salt); return Bits(d.data(), n); }
/// same bits; unused bits of the last byte set
static Bytes dirty(const Bits &b) { Bytes r = b.b; if (b.n % 8) r.back() |= (uint8_t)(0xFF << (b.n % 8)); return r; }
static const uint8_t *p1(const Bytes &b) { return in1.put(b.data(), b.size()); }
static const uint8_t *p2(const Bytes &b) { return in2.put(b.data(), b.size()); }
static const uint8_t *p3(const Bytes &b) { return in3.put(b.data(), b.size()); }

template <class I> static void blank(I &t, uint8_t f) { memset((void *)&t, f, sizeof t); }

// ------------------------------------------------------------------------------------------------ cSHAKE
static void cshake_case(const API &A, size_t xb, size_t nb, size_t sb, size_t ob)
{
    ref::SP185 R(A.level); Bits x = bits_of(xb, 1), n = bits_of(nb, 2), s = bits_of(sb, 3);
    call("cSHAKE%d(%zu bits, name %zu, customization %zu, output %zu bits)", A.level, xb, nb, sb, ob);
    ref::Sponge w = R.cshake(x, n, s);
    expect_rc(A.cshake(p1(dirty(x)), xb, out.take(by(ob)), ob, p2(n.b), nb, p3(s.b), sb), 0, "cSHAKE");
    out.check(ref::squeeze_bits(w, ob).data(), "cSHAKE output");
    cSHAKE_Instance t; blank(t, 0xDD);
    expect_rc(A.cs_init(&t, ob % 3 ? ob : 0, p2(n.b), nb, p3(s.b), sb), 0, "cSHAKE_Initialize");
    expect_rc(A.cs_up(&t, p1(dirty(x)), xb), 0, "cSHAKE_Update");
    expect_rc(A.cs_fin(&t, out.take(ob % 3 ? by(ob) : 0)), 0, "cSHAKE_Final");
    if (ob % 3 == 0) expect_rc(A.cs_sq(&t, out.take(by(ob)), ob), 0, "cSHAKE_Squeeze");
    out.check(ref::squeeze_bits(w, ob).data(), "cSHAKE incremental output");
    g.states++; g.transitions += 4;
}
static void cshake_partition(const API &A, size_t nb, size_t sb, size_t N, const std::vector<size_t> &sizes)
{
    ref::SP185 R(A.level); Bits n = bits_of(nb, 2), s = bits_of(sb, 3); Bytes m = data(N + 2, 1); size_t ob = 8 * 40 + 5;
    std::unique_ptr<cSHAKE_Instance> t(new cSHAKE_Instance); blank(*t, 0x11);
    expect_rc(A.cs_init(t.get(), ob, p2(n.b), nb, p3(s.b), sb), 0, "cSHAKE_Initialize");
    chunk_graph(*t, str("cSHAKE%d_Initialize(name %zu, customization %zu)", A.level, nb, sb), N, sizes, 2,
        [&](cSHAKE_Instance &t, size_t o, size_t k) { expect_rc(A.cs_up(&t, in1.put(m.data() + o, k), 8 * k), 0, "cSHAKE_Update"); },
        [&](cSHAKE_Instance &t, size_t o) {
            for (int b = 0; b < 8; b++) {
                cSHAKE_Instance u = t; Bits x(m.data(), 8 * o + b);
                uint8_t last = m[o] | (uint8_t)(0xFF << b); if (o & 1) last = m[o] & ~(uint8_t)(0xFF << b);
                if (b) expect_rc(A.cs_up(&u, in1.put(&last, 1), b), 0, "cSHAKE_Update");
                expect_rc(A.cs_fin(&u, out.take(by(ob))), 0, "cSHAKE_Final");
                g.aux1 = x.n; out.check(ref::squeeze_bits(R.cshake(x, n, s), ob).data(), "output for %ld bits");
            }
        });
}
template <class I, class Sq> static void squeeze_graph(const I &t, const char *what, ref::Sponge w, size_t N, Sq sq)
{
    Bytes want = w.squeeze(N + 1);
    chunk_graph(t, str("%s squeeze", what), N, upto(0, N), 2,
        [&](I &t, size_t n, size_t k) { expect_rc(sq(&t, out.take(k), 8 * k), 0, "Squeeze"); out.check(want.data() + n, "squeezed"); },
        [&](I &t, size_t n) {   // a last squeeze of a partial byte
            for (int b = 1; b < 8; b++) for (size_t k = 0; k < 2 && n + k <= N; k++) {
                I u = t; expect_rc(sq(&u, out.take(k + 1), 8 * k + b), 0, "Squeeze of a partial byte");
                Bytes v(want.begin() + n, want.begin() + n + k + 1); v[k] &= (1 << b) - 1; out.check(v.data(), "partial byte squeezed");
            }
        });
}

// ------------------------------------------------------------------------------------------------ KMAC
static void kmac_case(const API &A, size_t kb, size_t xn, size_t sb, size_t ob)
{
    ref::SP185 R(A.level); Bits k = bits_of(kb, 4), s = bits_of(sb, 5); Bytes x = data(xn, 6);
    call("KMAC%d(key %zu bits, %zu bytes, customization %zu, output %zu bits)", A.level, kb, xn, sb, ob);
    expect_rc(A.kmac(p1(k.b), kb, p2(x), 8 * xn, out.take(by(ob)), ob, p3(s.b), sb), 0, "KMAC");
    out.check(ref::squeeze_bits(R.kmac(k, Bits(x), s, ob), ob).data(), "KMAC output");
    KMAC_Instance t; blank(t, 0x77);
    bool xof = ob % 2;
    expect_rc(A.km_init(&t, p1(k.b), kb, xof ? 0 : ob, p3(s.b), sb), 0, "KMAC_Initialize");
    expect_rc(A.km_up(&t, p2(x), 8 * xn), 0, "KMAC_Update");
    expect_rc(A.km_fin(&t, out.take(xof ? 0 : by(ob))), 0, "KMAC_Final");
    if (xof) expect_rc(A.km_sq(&t, out.take(by(ob)), ob), 0, "KMAC_Squeeze");
    out.check(ref::squeeze_bits(R.kmac(k, Bits(x), s, xof ? 0 : ob), ob).data(), "KMAC incremental output");
    g.states++; g.transitions += 4;
}
static void kmac_partition(const API &A, size_t kb, size_t ob, size_t N)
{
    ref::SP185 R(A.level); Bits k = bits_of(kb, 4), s = bits_of(13, 5); Bytes m = data(N, 6);
    std::unique_ptr<KMAC_Instance> t(new KMAC_Instance); blank(*t, 0);
    expect_rc(A.km_init(t.get(), p1(k.b), kb, ob, p3(s.b), 13), 0, "KMAC_Initialize");
    chunk_graph(*t, str("KMAC%d_Initialize(key %zu bits, output %zu)", A.level, kb, ob), N, upto(0, N), 2,
        [&](KMAC_Instance &t, size_t o, size_t k) { expect_rc(A.km_up(&t, in1.put(m.data() + o, k), 8 * k), 0, "KMAC_Update"); },
        [&](KMAC_Instance &t, size_t o) {
            ref::Sponge w = R.kmac(k, Bits(m.data(), 8 * o), s, ob);
            expect_rc(A.km_fin(&t, out.take(by(ob))), 0, "KMAC_Final");
            if (!ob) expect_rc(A.km_sq(&t, out.take(50), 400), 0, "KMAC_Squeeze");
            g.aux1 = o; out.check(ref::squeeze_bits(w, ob ? ob : 400).data(), "MAC of %ld bytes");
        });
}

// ------------------------------------------------------------------------------------------------ ParallelHash
struct PH {   // reference with block digests remembered
    const API &A; size_t B; Bytes m; std::vector<Bytes> dig; size_t cvl, rate; ref::SP185 R;
    PH(const API &A, size_t B, size_t N) : A(A), B(B), m(data(N, 8)), cvl(A.level / 4), rate((1600 - 2 * A.level) / 8), R(A.level) {}
    ref::Sponge at(size_t n, const Bits &s, size_t ob)
    {
        while ((dig.size() + 1) * B <= n) { size_t o = dig.size() * B; dig.push_back(ref::sponge(rate, 24, Bytes(m.begin() + o, m.begin() + o + B), 0x1F, cvl)); }
        Bits b = R.left_encode(B); size_t c = 0;
        for (; (c + 1) * B <= n; c++) b.append(dig[c]);
        if (n % B) { b.append(ref::sponge(rate, 24, Bytes(m.begin() + c * B, m.begin() + n), 0x1F, cvl)); c++; }
        b.append(R.right_encode(c)); b.append(R.right_encode(ob));
        return R.cshake(b, R.ascii("ParallelHash"), s);
    }
};
static void ph_case(PH &P, size_t n, size_t sb, size_t ob)
{
    const API &A = P.A; Bits s = bits_of(sb, 5);
    call("ParallelHash%d(%zu bytes, block %zu, output %zu bits, customization %zu)", A.level, n, P.B, ob, sb);
    expect_rc(A.ph(in1.put(P.m.data(), n), 8 * n, P.B, out.take(by(ob)), ob, p3(s.b), sb), 0, "ParallelHash");
    out.check(ref::squeeze_bits(P.at(n, s, ob), ob).data(), "ParallelHash output");
    g.states++; g.transitions++;
}
typedef ROOM(ParallelHash_Instance) PI;
static void ph_partition(const API &A, size_t B, size_t ob, const std::vector<size_t> &pts)
{
    PH P(A, B, pts.back() + 1); Bits s = bits_of(11, 5);
    std::unique_ptr<PI> t(new PI); blank(*t, 0xF0);
    expect_rc(A.ph_init(t.get(), B, ob, p3(s.b), s.n), 0, "ParallelHash_Initialize");
    point_graph(*t, str("ParallelHash%d_Initialize(block %zu, output %zu)", A.level, B, ob), pts, 2,
        [&](PI &t, size_t o, size_t k) { expect_rc(A.ph_up(&t, in1.put(P.m.data() + o, k), 8 * k), 0, "ParallelHash_Update"); },
        [&](PI &t, size_t o) {
            ref::Sponge w = P.at(o, s, ob);
            expect_rc(A.ph_fin(&t, out.take(by(ob))), 0, "ParallelHash_Final");
            if (!ob) expect_rc(A.ph_sq(&t, out.take(50), 400), 0, "ParallelHash_Squeeze");
            g.aux1 = o; out.check(ref::squeeze_bits(w, ob ? ob : 400).data(), "ParallelHash of %ld bytes");
        });
}

// ------------------------------------------------------------------------------------------------ TupleHash
static void tuples(const API &A, const std::vector<size_t> &lens, size_t maxel, size_t ob)
{
    ref::SP185 R(A.level); Bits s = bits_of(9, 5);
    std::vector<size_t> idx;
    std::function<void()> rec = [&]() {
        std::vector<Bytes> x; for (size_t i = 0; i < idx.size(); i++) x.push_back(data(lens[idx[i]], 20 + i));
        size_t n = x.size();
        ref::Sponge w = R.tuple(x, s, ob);
        std::vector<std::unique_ptr<uint8_t[]>> store; std::vector<TupleElement> el(n);
        for (size_t i = 0; i < n; i++) { store.emplace_back(new uint8_t[x[i].size() + 1]); memcpy(store[i].get(), x[i].data(), x[i].size()); el[i].input = store[i].get(); el[i].inputBitLen = 8 * x[i].size(); }
        std::string d; for (auto &e : x) d += str(" %zu", e.size());
        if (ob) {
            call("TupleHash%d(%s bytes, output %zu bits)", A.level, d.c_str(), ob);
            expect_rc(A.th(el.data(), n, out.take(by(ob)), ob, p3(s.b), s.n), 0, "TupleHash");
            out.check(ref::squeeze_bits(w, ob).data(), "TupleHash output");
            g.transitions++;
        }
        for (unsigned cuts = 0; cuts < (n ? 1u << (n - 1) : 1u); cuts++) {   // every grouping of the elements in updates
            TupleHash_Instance t; blank(t, 0x31);
            call("TupleHash%d incremental (%s bytes, output %zu bits, cuts %x)", A.level, d.c_str(), ob, cuts);
            expect_rc(A.th_init(&t, ob, p3(s.b), s.n), 0, "TupleHash_Initialize");
            size_t from = 0;
            for (size_t i = 0; i < n; i++) if (i + 1 == n || (cuts >> i & 1)) { expect_rc(A.th_up(&t, el.data() + from, i + 1 - from), 0, "TupleHash_Update"); from = i + 1; g.transitions++; }
            if (cuts & 1) expect_rc(A.th_up(&t, el.data(), 0), 0, "TupleHash_Update of no element");
            expect_rc(A.th_fin(&t, out.take(by(ob))), 0, "TupleHash_Final");
            if (!ob) { expect_rc(A.th_sq(&t, out.take(50), 400), 0, "TupleHash_Squeeze"); }
            out.check(ref::squeeze_bits(w, ob ? ob : 400).data(), "TupleHash incremental output");
        }
        g.states++;
        if (n < maxel) for (size_t i = 0; i < lens.size(); i++) { idx.push_back(i); rec(); idx.pop_back(); }
    };
    rec();
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool T = g.thorough, light = false;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "light")) light = true;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "mix")) {
#ifdef ROOMY
        mc::mix_scenario();
#endif
        for (const API &A : APIS) for (size_t B : {8, 64, 256, 1024}) {
            if (begin("ParallelHash%d block %zu: lengths of every number of blocks up to 18", A.level, B)) { PH P(A, B, 19 * B + 4); for (size_t n = 0; n <= 18; n++) for (size_t d : {0, 1}) ph_case(P, n * B + d, 0, 256); }
            if (begin("ParallelHash%d block %zu: every update partition with cuts at block boundaries, up to 17 blocks", A.level, B)) {
                std::vector<size_t> p = {0, 1}; for (size_t j = 1; j <= 17; j++) p.push_back(j * B); p.push_back(17 * B + 3); ph_partition(A, B, 0, p);
            }
        }
        return finish();
    }
    for (const API &A : APIS) {
        size_t r = (1600 - 2 * A.level) / 8, L = A.level;
        size_t step = light ? 7 : 1;
        if (begin("cSHAKE%zu: every message bit length up to 2 blocks", L)) for (size_t x = 0; x <= 8 * (2 * r + 2); x += step) { cshake_case(A, x, 0, 0, 256); cshake_case(A, x, 24, 8 + x % 9, 255); }
        if (begin("cSHAKE%zu: every output bit length up to 2 blocks", L)) for (size_t o = 1; o <= 8 * (2 * r + 2); o += step) { cshake_case(A, 11, 0, 16, o); if (o % 4 == 0) cshake_case(A, 11, 0, 0, o); }
        if (begin("cSHAKE%zu: every name and customization length", L)) {
            for (size_t s = 0; s <= 8 * (r + 5); s += step) { cshake_case(A, 13, 0, s, 100); cshake_case(A, 13, 40, s, 100); }
            for (size_t n = 0; n <= 2 * r + 5; n++) { cshake_case(A, 13, 8 * n, 0, 100); cshake_case(A, 13, 8 * n, 1, 100); cshake_case(A, 13, 8 * n, 8 * (2 * r - n % r), 100); }
            for (size_t n : {(size_t)255, (size_t)256, (size_t)65528, (size_t)65536, (size_t)65535 * 8, (size_t)65536 * 8}) for (int d = -1; d <= 1; d++) { cshake_case(A, 5, 0, n + d, 64); if ((n + d) % 8 == 0) cshake_case(A, 5, n + d, 3, 64); }
        }
        size_t N = (T ? 3 : 1) * r + 6;
        if (begin("cSHAKE%zu: every update partition up to %zu bytes and 0..7 bits", L, N)) cshake_partition(A, 16, 3, N, upto(0, N));
        if (begin("cSHAKE%zu without name and customization: every update partition up to %zu bytes and 0..7 bits", L, N)) cshake_partition(A, 0, 0, N, upto(0, N));
        if (begin("cSHAKE%zu: every squeeze partition", L)) {
            for (size_t sb : {0, 5}) {
                ref::SP185 R(A.level); Bits x = bits_of(77, 1), s = bits_of(sb, 3); cSHAKE_Instance t; blank(t, 0);
                A.cs_init(&t, 0, p2(s.b), 0, p3(s.b), sb); A.cs_up(&t, p1(x.b), x.n); expect_rc(A.cs_fin(&t, nullptr), 0, "Final");
                squeeze_graph(t, "cSHAKE", R.cshake(x, Bits(), s), 2 * r + 3, A.cs_sq);
            }
        }
        if (begin("KMAC%zu: every key bit length", L)) { for (size_t k = 0; k <= 8 * (r + 9); k += step) kmac_case(A, k, 20, k % 3 ? 0 : 15, 256 + k % 2); for (size_t k : {(size_t)65535, (size_t)65536, 8 * (size_t)65536}) kmac_case(A, k, 3, 8, 256); }
        if (begin("KMAC%zu: every message length", L)) for (size_t x = 0; x <= 2 * r + 3; x++) { kmac_case(A, 256, x, 0, 256); kmac_case(A, 129, x, 20, 129); }
        if (begin("KMAC%zu: every output bit length", L)) for (size_t o = 1; o <= 8 * (2 * r + 2); o += step) kmac_case(A, 128, 5, 12, o);
        if (begin("KMAC%zu: every customization bit length", L)) for (size_t s = 0; s <= 8 * (r + 5); s += step) kmac_case(A, 128, 5, s, 250 + s % 2);
        if (begin("KMAC%zu: long outputs", L)) for (size_t o : {(size_t)65535, (size_t)65536, (size_t)65537}) kmac_case(A, 128, 5, 0, o);
        for (size_t ob : {(size_t)0, (size_t)256, (size_t)77}) if (begin("KMAC%zu: every update partition, output %zu bits", L, ob)) kmac_partition(A, 100, ob, N);
        if (begin("KMAC%zu: every squeeze partition", L)) {
            ref::SP185 R(A.level); Bits x = bits_of(80, 1), s = bits_of(5, 3), k = bits_of(33, 7); KMAC_Instance t; blank(t, 0);
            A.km_init(&t, p2(k.b), 33, 0, p3(s.b), 5); A.km_up(&t, p1(x.b), x.n); expect_rc(A.km_fin(&t, nullptr), 0, "Final");
            squeeze_graph(t, "KMAC", R.kmac(k, x, s, 0), 2 * r + 3, A.km_sq);
        }
        for (size_t B : {8, 16, 32, 64, 128, 256, 512, 1024, 8192}) {
            size_t G = B <= 256 ? 20 : light ? 5 : 19;    // number of blocks
            if (begin("ParallelHash%zu block %zu: every length up to %zu blocks near block boundaries", L, B, G)) {
                PH P(A, B, (G + 1) * B + 4);
                for (size_t n = 0; n <= G * B + 2; n++) if (B <= 32 || n % B <= 1 || n % B == B - 1 || (n < 2 * B && B <= 256)) ph_case(P, n, n % 5 ? 0 : 21, 256);
            }
            for (size_t ob : {(size_t)0, (size_t)256}) if (begin("ParallelHash%zu block %zu output %zu: every update partition with cuts near block boundaries, up to %zu blocks", L, B, ob, G)) {
                std::vector<size_t> p;
                if (B == 8) p = upto(0, 20 * 8 + 3);
                else { p = {0}; for (size_t j = 0; j <= G; j++) for (long d = -1; d <= 1; d++) if ((long)(j * B) + d > 0) p.push_back(j * B + d); }
                if (B >= 128 && B <= 256) for (size_t x : {r - 1, r, r + 1, B + r - 1, B + r, B + r + 1}) if (x < 2 * B) p.push_back(x);
                std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
                ph_partition(A, B, ob, p);
            }
        }
        if (begin("ParallelHash%zu block 8: many blocks", L)) { PH P(A, 8, 8 * 300); for (size_t c = 250; c <= 260; c++) for (int d = -1; d <= 1; d++) ph_case(P, 8 * c + d, 0, 256); }
        if (begin("ParallelHash%zu: every output and customization bit length", L)) { PH P(A, 64, 800); for (size_t o = 1; o <= 8 * (r + 2); o += step) ph_case(P, 130, 3, o); for (size_t s = 0; s <= 8 * (r + 5); s += step) ph_case(P, 70, s, 128); }
        if (begin("ParallelHash%zu: every squeeze partition", L)) {
            PH P(A, 16, 200); ParallelHash_Instance t; blank(t, 0);
            A.ph_init(&t, 16, 0, nullptr, 0); A.ph_up(&t, in1.put(P.m.data(), 100), 800); expect_rc(A.ph_fin(&t, nullptr), 0, "Final");
            squeeze_graph(t, "ParallelHash", P.at(100, Bits(), 0), 2 * r + 3, A.ph_sq);
        }
        // more than one group of huge blocks never fits in memory, but the parameter itself is legal
        if (begin("ParallelHash%zu: huge block sizes", L)) for (int e = 20; e < (int)(8 * sizeof(size_t)); e++) { PH P(A, (size_t)1 << e, 4096); for (size_t n : {(size_t)0, (size_t)1, (size_t)4000}) ph_case(P, n, 0, 256); }
        for (size_t ob : {(size_t)0, (size_t)256, (size_t)9}) {
            if (begin("TupleHash%zu output %zu: every tuple up to 4 elements of lengths 0,1,2", L, ob)) tuples(A, {0, 1, 2}, 4, ob);
            if (begin("TupleHash%zu output %zu: every tuple up to 3 elements of block-edge lengths", L, ob)) tuples(A, {0, 31, 32, r - 3, r - 2, r - 1, r, 2 * r + 1}, 3, ob);
            if (begin("TupleHash%zu output %zu: long elements", L, ob)) tuples(A, {8191, 8192}, 2, ob);
        }
        if (begin("TupleHash%zu: every element length up to 2 blocks", L)) for (size_t n = 0; n <= 2 * r; n++) tuples(A, {n}, 1, 256);
        if (begin("TupleHash%zu: every squeeze partition", L)) {
            ref::SP185 R(A.level); TupleHash_Instance t; blank(t, 0); Bytes e = data(5, 1); TupleElement te; te.input = e.data(); te.inputBitLen = 40;
            A.th_init(&t, 0, nullptr, 0); A.th_up(&t, &te, 1); expect_rc(A.th_fin(&t, nullptr), 0, "Final");
            squeeze_graph(t, "TupleHash", R.tuple({e}, Bits(), 0), 2 * r + 3, A.th_sq);
        }
    }
    return finish();
}
