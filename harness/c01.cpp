// C01: Keccak sponge, every byte rate, every way of cutting input and output.
#include "mc.hpp"
#include "ref.hpp"
#ifdef TURBO    // C05: the same exploration for TurboSHAKE
extern "C" {
#include "TurboSHAKE.h"
}
typedef TurboSHAKE_Instance I;
#define INITIALIZE(t, rate, cap) TurboSHAKE_Initialize(t, cap)
#define ABSORB      TurboSHAKE_Absorb
#define LASTBITS    TurboSHAKE_AbsorbDomainSeparationByte
#define SQUEEZE     TurboSHAKE_Squeeze
#define ONESHOT(rate, cap, in, len, suf, out, olen) TurboSHAKE(cap, in, len, suf, out, olen)
static const int NR = 12;
#else
extern "C" {
#include "KeccakSponge.h"
}
typedef KeccakWidth1600_SpongeInstance I;
#define INITIALIZE  KeccakWidth1600_SpongeInitialize
#define ABSORB      KeccakWidth1600_SpongeAbsorb
#define LASTBITS    KeccakWidth1600_SpongeAbsorbLastFewBits
#define SQUEEZE     KeccakWidth1600_SpongeSqueeze
#define ONESHOT     KeccakWidth1600_Sponge
static const int NR = 24;
#endif
using namespace mc;

static const uint8_t SUF[] = {0x00, 0x01, 0x06, 0x1F, 0x80, 0x81, 0xFF};   // 0: squeeze without trailing bits

static void init(I &t, size_t r, uint8_t fill)
{
    memset((void *)&t, fill, sizeof t);
    call(" Initialize(%zu,%zu)", 8 * r, 1600 - 8 * r);
    expect_rc(INITIALIZE(&t, 8 * r, 1600 - 8 * r), 0, "SpongeInitialize");
}

static void absorb_graph(size_t r, uint8_t fill, size_t N, const std::vector<size_t> &sizes, bool few = false)
{
    Bytes m = data(N, r);
    In in(N + 1); Out out(3 * r + 16);
    std::vector<ref::Sponge> pre(N + 1, ref::Sponge(r, NR));
    for (size_t n = 1; n <= N; n++) { pre[n] = pre[n - 1]; pre[n].absorb(&m[n - 1], 1); }
    std::unique_ptr<I> t(new I); init(*t, r, fill);
    chunk_graph(*t, str("Initialize(%zu)", r), N, sizes, 3,
        [&](I &t, size_t n, size_t k) { expect_rc(ABSORB(&t, in.put(m.data() + n, k), k), 0, "SpongeAbsorb"); },
        [&](I &t, size_t n) {
            for (uint8_t suf : SUF) {
                if (few && suf != 0x06) continue;
                I u = t; ref::Sponge s = pre[n]; s.finish(suf ? suf : 1);
                size_t o = r + 1 + (n + suf) % 3 * (r / 2);
                if (suf) expect_rc(LASTBITS(&u, suf), 0, "SpongeAbsorbLastFewBits");
                expect_rc(SQUEEZE(&u, out.take(o), o), 0, "SpongeSqueeze");
                g.aux1 = n; g.aux2 = suf; out.check(s.squeeze(o).data(), "output after %ld bytes and delimited suffix %02lx");
            }
        });
}

static void squeeze_graph(size_t r, uint8_t fill, size_t len, uint8_t suf, size_t N, const std::vector<size_t> &sizes)
{
    Bytes m = data(len, r + 1);
    In in(len + 1); Out out(N + 1);
    std::unique_ptr<I> t(new I); init(*t, r, fill);
    expect_rc(ABSORB(t.get(), in.put(m.data(), len), len), 0, "SpongeAbsorb");
    if (suf) expect_rc(LASTBITS(t.get(), suf), 0, "SpongeAbsorbLastFewBits");
    Bytes want = ref::sponge(r, NR, m, suf ? suf : 1, N);
    chunk_graph(*t, str("Initialize(%zu) Absorb %zu bytes, suffix %02x, squeeze", r, len, suf), N, sizes, 3,
        [&](I &t, size_t n, size_t k) {
            expect_rc(SQUEEZE(&t, out.take(k), k), 0, "SpongeSqueeze");
            out.check(want.data() + n, "squeezed");
        },
        [&](I &, size_t) {});
}

static void oneshot(size_t r, const std::vector<size_t> &lens, const std::vector<size_t> &outs, bool allsuf)
{
    size_t L = 0, O = 0; for (size_t l : lens) L = std::max(L, l); for (size_t o : outs) O = std::max(O, o);
    Bytes m = data(L, r + 2); In in(L + 1); Out out(O + 1);
    for (size_t l : lens)
        for (int suf = 1; suf < 256; suf++) {
            if (!allsuf && suf != 1 && suf != 0x1F && suf != 0x80 && suf != 0xFF) continue;
            Bytes want; { Bytes a(m.begin(), m.begin() + l); want = ref::sponge(r, NR, a, suf, O); }
            for (size_t o : outs) {
                if (allsuf && o != outs.back()) continue;
                call("Sponge(%zu,%zu, %zu bytes, suffix %02x, %zu out)", 8 * r, 1600 - 8 * r, l, suf, o);
                expect_rc(ONESHOT(8 * r, 1600 - 8 * r, in.put(m.data(), l), l, suf, out.take(o), o), 0, "Sponge");
                out.check(want.data(), "one-shot output");
                g.transitions++;
                if (allsuf) {
                    I t; init(t, r, 0x3C);
                    ABSORB(&t, in.put(m.data(), l), l);
                    expect_rc(LASTBITS(&t, suf), 0, "SpongeAbsorbLastFewBits");
                    expect_rc(SQUEEZE(&t, out.take(o), o), 0, "SpongeSqueeze");
                    out.check(want.data(), "output");
                    g.transitions += 4;
                }
            }
            g.states++;
        }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool T = g.thorough, light = false, few = false;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "light")) light = true; else if (!strcmp(argv[i], "few")) light = few = true;   // the slowest builds
    // the rates used by standard instances first, then all the others
    std::vector<size_t> rates = {136, 168, 144, 104, 72};
    for (size_t r = 200; r >= 1; r--) if (r != 136 && r != 168 && r != 144 && r != 104 && r != 72) rates.push_back(r);
#ifdef TURBO
    rates = {168, 136}; for (size_t r = 200; r > 136; r--) if (r != 168) rates.push_back(r);
#endif
    for (size_t r : rates) {
        if (few && r != 136 && r != 168 && r != 72 && r != 200 && r != 8 && r > 2 && r != 67 && r != 199) continue;
        size_t N = (T ? 3 : 2) * r + 3;
        std::vector<size_t> all = upto(0, N);
        if (light && r % 8) { all.clear(); for (size_t k : {(size_t)0, (size_t)1, (size_t)5, (size_t)8, (size_t)13, r / 2, r - 1, r, r + 1, r + 8, 2 * r, 2 * r + 1}) if (k <= N) all.push_back(k); }
        if (begin("rate %zu: every absorb partition of up to %zu bytes", r, N)) absorb_graph(r, 0xA5, N, all);
        if (begin("rate %zu: every squeeze partition of up to %zu bytes", r, N)) squeeze_graph(r, 0x5A, r - 1, 0x06, N, all);
        if (T && begin("rate %zu: every squeeze partition, no explicit suffix", r)) squeeze_graph(r, 0x00, 0, 0, N, all);
        if (begin("rate %zu: one-shot lengths", r))
            oneshot(r, upto(0, 2 * r + 2), {0, 1, r - 1, r, r + 1, 2 * r, 2 * r + 1}, false);
        if (begin("rate %zu: all delimited suffixes at block edges", r)) {
            std::vector<size_t> l = {0, r - 1, r, 2 * r - 1}; if (r >= 2) l.push_back(r - 2);
            oneshot(r, l, {r + 1}, true);
        }
        if (begin("rate %zu: many blocks", r)) {
            // long runs of whole blocks: every pair of cut points around block multiples
            std::vector<size_t> k; for (size_t b : {0u, 1u, 2u, 5u, 8u, 13u}) for (int d = -1; d <= 1; d++) if ((long)(b * r) + d >= 1) k.push_back(b * r + d);
            absorb_graph(r, 0xFF, (T ? 26 : r % 8 == 0 ? 15 : 7) * r + 3, r >= 2 ? k : std::vector<size_t>{1, 2, 13, 25}, true);
            squeeze_graph(r, 0xFF, 1, 0x1F, (T ? 14 : 7) * r, r >= 2 ? k : std::vector<size_t>{1, 2, 13});
        }
    }
    return finish();
}
