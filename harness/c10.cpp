// C10 (Kravatte), C13 (Xoofff): wide block cipher and its authenticated variant.
#include "farfalle.hpp"
using namespace mc;
using ref::Bits;
#ifdef KRAVATTE
static const auto enc = Kravatte_WBC_Encipher; static const auto dec = Kravatte_WBC_Decipher; static const auto aenc = Kravatte_WBCAE_Encipher; static const auto adec = Kravatte_WBCAE_Decipher;
#else
static const auto enc = XoofffWBC_Encipher; static const auto dec = XoofffWBC_Decipher; static const auto aenc = XoofffWBCAE_Encipher; static const auto adec = XoofffWBCAE_Decipher;
#endif
static In in1(1 << 16), in2(1 << 16); static Out out(1 << 16), out2(1 << 16);
enum { TT = 128 };

static size_t split(size_t n)
{   // Algorithm "split" with b and l = 8
    size_t b = 8 * BB, l = 8;
    if (n <= 2 * b - (l + 2)) return l * ((n + l) / (2 * l));
    size_t q = (n + l + 2 + b - 1) / b, x = 1; while (((size_t)2 << (x - 1)) < q) x++; // smallest x with 2^x >= q
    return (q - ((size_t)1 << (x - 1))) * b - l;
}
static void add0(Bits &t, const Bits &s) { for (size_t i = 0; i < s.b.size(); i++) t.b[i] ^= s.b[i]; }
static Bits ext(Bits m, int bit) { m.bit(bit); return m; }
/// WBC of the specification: Feistel with short Farfalle H on the first block and Farfalle G with the tweak.
static Bits m_enc(const Farfalle &f0, const Bits &P, const Bits &W)
{
    size_t nL = split(P.n), nR = P.n - nL; Bits L = P.sub(0, nL), R = P.sub(nL, nR);
    auto H = [&](const Bits &m, size_t n) { Farfalle f = f0; f.string(m); return f.outbits(0, n, true); };
    auto G = [&](const Bits &m, size_t n) { Farfalle f = f0; f.string(W); f.string(m); return f.outbits(0, n, false); };
    add0(R, H(ext(L, 0), std::min(8 * BB, nR)));
    add0(L, G(ext(R, 1), nL));
    add0(R, G(ext(L, 0), nR));
    add0(L, H(ext(R, 1), std::min(8 * BB, nL)));
    Bits c = L; c.append(R); return c;
}
static void keyed(FF &t, const Bits &key, uint8_t fill) { memset((void *)&t, fill, sizeof t); Bytes d = dirty(key); expect_rc(ff_key(&t, in1.put(d.data(), d.size()), key.n), 0, "Initialize"); }
static void check_bits(Out &o, const Bits &want, const char *what)
{ if (want.n % 8) o.p[want.n / 8] &= (uint8_t)((1 << want.n % 8) - 1); o.check(want.b.data(), what); }

static void wbc(size_t kb, size_t n, size_t w, uint32_t salt = 0)
{
    call("WBC key %zu, data %zu, tweak %zu bits", kb, n, w);
    Bits key = bits_of(kb, 1), P = bits_of(n, 2 + salt), W = bits_of(w, 3); FF t; keyed(t, key, 0x4E);
    Bits C = m_enc(Farfalle(key), P, W);
    Bytes dp = dirty(P), dw = dirty(W), dc = dirty(C);
    expect_rc(enc(&t, in1.put(dp.data(), dp.size()), out.take(by(n)), n, in2.put(dw.data(), dw.size()), w), 0, "Encipher");
    check_bits(out, C, "enciphered block");
    expect_rc(dec(&t, in1.put(dc.data(), dc.size()), out.take(by(n)), n, in2.put(dw.data(), dw.size()), w), 0, "Decipher");
    check_bits(out, P, "deciphered block");
    g.states++; g.transitions += 2;
}
static void refuse(const FF &t, const Bits &C, size_t n, const Bits &A, const char *what)
{
    FF u = t; Bytes dc = C.b, da = dirty(A);
    expect_err(adec(&u, in1.put(dc.data(), dc.size()), out.take(by(n + TT)), n, in2.put(da.data(), da.size()), A.n), what);
    Bytes zero(by(n + TT), 0); out.check(zero.data(), "plaintext buffer after a rejected message (to be zeroes)"); g.transitions++;
}
static void ae(size_t n, size_t a, bool tamper)
{
    call("WBC-AE data %zu, AD %zu bits", n, a);
    Bits key = bits_of(190, 1), P = bits_of(n, 2), A = bits_of(a, 3); FF t; keyed(t, key, 0xA1);
    Bits PT = P; for (int i = 0; i < TT; i++) PT.bit(0);
    Bits C = m_enc(Farfalle(key), PT, A);
    Bytes dp = dirty(P), da = dirty(A);
    uint8_t *p = out2.take(by(n + TT)); memcpy(p, dp.data(), dp.size());        // the plaintext buffer is extended in place
    expect_rc(aenc(&t, p, out.take(by(n + TT)), n, in2.put(da.data(), da.size()), a), 0, "WBCAE Encipher");
    check_bits(out, C, "ciphertext"); out2.check_margin();
    Bytes cc = dirty(C);
    expect_rc(adec(&t, in1.put(cc.data(), cc.size()), out.take(by(n + TT)), n, in2.put(da.data(), da.size()), a), 0, "WBCAE Decipher of an authentic message");
    Bytes got(out.p, out.p + by(n)); if (n % 8) got.back() &= (uint8_t)((1 << n % 8) - 1); expect(got.data(), P.b.data(), by(n), "recovered plaintext"); out.check_margin();
    g.states++; g.transitions += 2;
    if (!tamper) return;
    auto flip = [](Bits b, size_t i) { b.b[i / 8] ^= (uint8_t)(1 << i % 8); return b; };
    for (size_t i = 0; i < C.n; i++) refuse(t, flip(C, i), n, A, str("message with bit %zu of the ciphertext flipped", i).c_str());
    for (size_t i = 0; i < a; i++) refuse(t, C, n, flip(A, i), str("message with bit %zu of the metadata flipped", i).c_str());
    refuse(t, C, n, ext(A, 0), "longer metadata"); refuse(t, C, n, ext(A, 1), "longer metadata");
    if (a) refuse(t, C, n, A.sub(0, a - 1), "shorter metadata");
    refuse(t, ext(C, 0), n + 1, A, "longer ciphertext"); refuse(t, ext(C, 1), n + 1, A, "longer ciphertext");
    if (n) refuse(t, C.sub(0, C.n - 1), n - 1, A, "shorter ciphertext");
    // a plaintext whose redundancy is wrong in exactly one bit, enciphered correctly
    for (size_t i = n; i < n + TT; i++) refuse(t, m_enc(Farfalle(key), flip(PT, i), A), n, A, str("message with bit %zu of the redundancy set", i - n).c_str());
    for (size_t i = 0; i < key.n; i++) { FF o; keyed(o, flip(key, i), 0); refuse(o, C, n, A, "message under another key"); }
}
int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool T = g.thorough, light = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "light")) light = true;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "mix")) {
#ifdef ROOMY
        mc::mix_scenario();
#endif
        if (begin("data around every number of blocks")) for (size_t b = 1; b <= 4 * MAXPAR + 2; b++) for (int d : {-9, 0, 8}) wbc(128, 8 * BB * b + d, 5, b);
        return mc::finish();
    }
    size_t step = light ? 5 : 1;
    if (begin("every key bit length")) for (size_t k = 0; k < 8 * BB; k += step) wbc(k, 100 + k % 9, k % 7);
    for (size_t w : {(size_t)0, (size_t)13, 8 * BB}) for (int part = 0; part < 4; part++) if (begin("data bit lengths = %d mod 4 up to 5 blocks, tweak %zu bits", part, w)) for (size_t n = part * (light ? 3 : 1); n <= 8 * (5 * BB + 1); n += 4 * step) wbc(128, n, w);
    for (size_t n : {(size_t)0, (size_t)9, 8 * BB, 8 * BB * 2 + 7}) if (begin("every tweak bit length, data %zu bits", n)) for (size_t w = 0; w <= 8 * (2 * BB + 1); w += step) wbc(128, n, w);
    for (int part = 0; part < 4; part++) if (begin("data around numbers of blocks = %d mod 4", part)) for (size_t b = 1 + part; b <= (T ? 6 : 3) * MAXPAR + 3; b += 4) for (int d : {-18, -17, -16, -11, -10, -9, -8, -7, -1, 0, 1, 7, 8}) wbc(128, 8 * BB * b + d, b % 3 * 9, b);
    if (begin("data around powers of two of blocks")) for (size_t b : {2, 4, 8, 16, 32, 64}) for (int d = -20; d <= 20; d++) wbc(128, 8 * BB * b + d, 5, b);
    for (int part = 0; part < 4; part++) if (begin("AE: data bit lengths = %d mod 4 up to 3 blocks", part)) for (size_t n = part; n <= 8 * (3 * BB + 1); n += 4 * step) ae(n, n % 29, false);
    if (begin("AE: every metadata bit length")) for (size_t a = 0; a <= 8 * (2 * BB + 1); a += step) ae(50, a, false);
    std::vector<size_t> L = {0, 1, 7, 8, 9, 64, 8 * BB - TT, 16 * BB - TT - 10, 16 * BB - TT - 9, 24 * BB - TT + 5}; if (light) L = {0, 7, 24 * BB - TT + 5};
    if (T) for (size_t x : {2, 3, 4, 5, 6, 15, 16, 120, 121}) L.push_back(x);
    for (size_t n : L) for (size_t a : {(size_t)0, (size_t)5, (size_t)64, 8 * BB + 1}) if (begin("AE: tampering, data %zu bits, metadata %zu bits", n, a)) ae(n, a, true);
    return mc::finish();
}
