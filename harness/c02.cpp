// C02: FIPS 202 instances at bit granularity.
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "KeccakHash.h"
#include "SimpleFIPS202.h"
}
using namespace mc;
typedef Keccak_HashInstance I;
struct Inst { const char *name; unsigned rate, hash; uint8_t suf; };
static const Inst STD[] = {{"SHA3-256", 1088, 256, 6}, {"SHAKE128", 1344, 0, 0x1F}, {"SHA3-224", 1152, 224, 6}, {"SHA3-384", 832, 384, 6}, {"SHA3-512", 576, 512, 6}, {"SHAKE256", 1088, 0, 0x1F}};
// other parameters of the same interface: every suffix length, odd rates, long fixed outputs
static const Inst OTHER[] = {{"raw", 1024, 512, 1}, {"7-bit suffix", 1344, 0, 0xFF}, {"6-bit suffix", 1088, 2048, 0x55}, {"rate 8", 8, 0, 0x1F}, {"rate 24", 24, 160, 0x06}, {"rate 1600", 1600, 1608, 0x80}, {"rate 1592", 1592, 8, 0x0B}};

static void init(I &t, const Inst &p, uint8_t fill)
{
    memset((void *)&t, fill, sizeof t);
    int rc;
    if (!strcmp(p.name, "SHA3-224")) rc = Keccak_HashInitialize_SHA3_224(&t);
    else if (!strcmp(p.name, "SHA3-256")) rc = Keccak_HashInitialize_SHA3_256(&t);
    else if (!strcmp(p.name, "SHA3-384")) rc = Keccak_HashInitialize_SHA3_384(&t);
    else if (!strcmp(p.name, "SHA3-512")) rc = Keccak_HashInitialize_SHA3_512(&t);
    else if (!strcmp(p.name, "SHAKE128")) rc = Keccak_HashInitialize_SHAKE128(&t);
    else if (!strcmp(p.name, "SHAKE256")) rc = Keccak_HashInitialize_SHAKE256(&t);
    else rc = Keccak_HashInitialize(&t, p.rate, 1600 - p.rate, p.hash, p.suf);
    expect_rc(rc, 0, "HashInitialize");
}

struct Want {   // reference digests by bit length, computed once
    const Inst &p; const Bytes &m; size_t out; std::map<size_t, Bytes> w;
    const Bytes &at(size_t bits)
    {
        auto it = w.find(bits); if (it != w.end()) return it->second;
        ref::Bits b(m.data(), bits);
        return w[bits] = ref::sponge_bits(p.rate / 8, 24, ref::with_suffix(b, p.suf)).squeeze(out);
    }
};

static void updates(const Inst &p, size_t N, const std::vector<size_t> &sizes, const std::vector<size_t> &tails)
{
    size_t r = p.rate / 8, O = p.hash ? p.hash / 8 : r + 5;
    Bytes m = data(N + 2, p.rate + p.hash);
    In in(N + 2); Out out(O + 1);
    Want want{p, m, O};
    auto finish = [&](I &u, size_t bits) {
        if (p.hash) { expect_rc(Keccak_HashFinal(&u, out.take(O)), 0, "HashFinal"); }
        else {
            expect_rc(Keccak_HashFinal(&u, out.take(0)), 0, "HashFinal"); out.check_margin();
            expect_rc(Keccak_HashSqueeze(&u, out.take(O), 8 * O), 0, "HashSqueeze");
        }
        g.aux1 = bits; out.check(want.at(bits).data(), "digest of %ld bits");
    };
    std::unique_ptr<I> t(new I); init(*t, p, 0x6B);
    chunk_graph(*t, p.name, N, sizes, 3,
        [&](I &t, size_t n, size_t k) { expect_rc(Keccak_HashUpdate(&t, in.put(m.data() + n, k), 8 * k), 0, "HashUpdate"); },
        [&](I &t, size_t n) {
            { I u = t; finish(u, 8 * n); }
            for (size_t k : tails) if (n + k < N)   // last update: k bytes and b bits, unused bits all equal to v
                for (int b = 1; b < 8; b++) for (int v = 0; v < 2; v++) {
                    Bytes last(m.begin() + n, m.begin() + n + k + 1);
                    uint8_t mask = (uint8_t)(0xFF << b);
                    last[k] = v ? last[k] | mask : last[k] & ~mask;
                    I u = t;
                    g.progress++; snprintf(g.call, sizeof g.call, " +%zu bits", 8 * k + b);
                    expect_rc(Keccak_HashUpdate(&u, in.put(last.data(), k + 1), 8 * k + b), 0, "HashUpdate");
                    g.transitions++;
                    finish(u, 8 * (n + k) + b);
                    g.call[0] = 0;
                }
        });
}

static void squeezes(const Inst &p, size_t len, size_t N, const std::vector<size_t> &sizes)
{
    Bytes m = data(len + 1, 77), want = ref::sponge_bits(p.rate / 8, 24, ref::with_suffix(ref::Bits(m.data(), 8 * len + 3), p.suf)).squeeze(N);
    In in(len + 1); Out out(N + 1);
    std::unique_ptr<I> t(new I); init(*t, p, 0);
    expect_rc(Keccak_HashUpdate(t.get(), in.put(m.data(), len + 1), 8 * len + 3), 0, "HashUpdate");
    expect_rc(Keccak_HashFinal(t.get(), out.take(0)), 0, "HashFinal");
    chunk_graph(*t, str("%s %zu bits, squeeze", p.name, 8 * len + 3), N, sizes, 3,
        [&](I &t, size_t n, size_t k) { expect_rc(Keccak_HashSqueeze(&t, out.take(k), 8 * k), 0, "HashSqueeze"); out.check(want.data() + n, "squeezed"); },
        [](I &, size_t) {});
}

static void oneshot(const Inst &p, size_t N)
{
    Bytes m = data(N, 5); In in(N + 1); size_t r = p.rate / 8, O = p.hash ? p.hash / 8 : 3 * r + 2; Out out(O + 1);
    for (size_t n = 0; n <= N; n++) {
        Bytes want = ref::sponge(r, 24, Bytes(m.begin(), m.begin() + n), p.suf, O);
        const uint8_t *i = in.put(m.data(), n);
        for (size_t o : p.hash ? std::vector<size_t>{O} : n % 50 == 0 ? upto(0, O) : std::vector<size_t>{0, 1, 32, r, O}) {
            call("%s(%zu bytes, %zu out)", p.name, n, o);
            uint8_t *q = out.take(o); int rc = -1;
            if (!strcmp(p.name, "SHA3-224")) rc = SHA3_224(q, i, n);
            else if (!strcmp(p.name, "SHA3-256")) rc = SHA3_256(q, i, n);
            else if (!strcmp(p.name, "SHA3-384")) rc = SHA3_384(q, i, n);
            else if (!strcmp(p.name, "SHA3-512")) rc = SHA3_512(q, i, n);
            else if (!strcmp(p.name, "SHAKE128")) rc = SHAKE128(q, o, i, n);
            else if (!strcmp(p.name, "SHAKE256")) rc = SHAKE256(q, o, i, n);
            expect_rc(rc, 0, "one-shot function"); out.check(want.data(), "one-shot digest");
            g.transitions++;
        }
        g.states++;
    }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool T = g.thorough;
    auto bounds = [&](const Inst &p, const char *kind) {
        size_t r = p.rate / 8, N = (T ? 3 : 2) * r + 3;
        std::vector<size_t> edge; for (size_t k : {(size_t)0, (size_t)1, (size_t)2, (size_t)7, (size_t)8, r - 1, r, r + 1, 2 * r, 3 * r}) if (k <= N && (edge.empty() || k > edge.back())) edge.push_back(k);
        if (begin("%s: every update partition up to %zu bytes, then a last update of 1..7 bits", p.name, N)) updates(p, N, upto(0, N), {0});
        if (begin("%s: last update of every byte length plus 1..7 bits", p.name)) updates(p, N, {1, r}, upto(0, T ? N : r + 2));
        if (begin("%s: long inputs", p.name)) updates(p, 20 * r, {r - 1 ? r - 1 : 1, r, 5 * r, 7 * r + 1, 11 * r}, {0, r});
        if (!p.hash && begin("%s: every squeeze partition up to %zu bytes", p.name, N)) squeezes(p, r, N, upto(0, N));
        if (!p.hash && begin("%s: long outputs", p.name)) squeezes(p, 0, 20 * r, edge);
    };
    for (const Inst &p : STD) {
        if (begin("%s: one-shot, every length up to %u bytes", p.name, 4 * p.rate / 8 + 2)) oneshot(p, 4 * p.rate / 8 + 2);
        bounds(p, "std");
    }
    for (const Inst &p : OTHER) bounds(p, "other");
    return finish();
}
