// C18: misuse is refused and has no effect.  Two objects take the same valid calls; one of them takes invalid ones too.
// (-DKRAVATTE or -DXOOFFF selects the Farfalle part; the Keccak interfaces come with -DKECCAK.)
#if defined(KRAVATTE) || defined(XOOFFF)
#include "farfalle.hpp"
#else
#include <array>
#include "mc.hpp"
extern "C" {
#include "KeccakSponge.h"
#include "KeccakHash.h"
#include "SP800-185.h"
#include "KangarooTwelve.h"
#include "TurboSHAKE.h"
#include "KeccakDuplex.h"
#include "KeccakPRG.h"
}
#endif
using namespace mc;
static In in(1 << 16), in2(1 << 12); static Out outa(1 << 14), outb(1 << 14);
static Bytes src;

struct Op { uint8_t k = 0; uint32_t a = 0, b = 0, c = 0; };
/// Two objects and where the caller stands.
template <class I> struct World { alignas(64) I a, b; int phase, part; uint32_t fixed; uint32_t pos; };
enum { DEAD, ABS, SQ, FIN };   // not initialised, absorbing, squeezing, no more output

/// One call on both objects (valid) or on the first only (invalid).  f(object, output pointer) makes the call.
template <class I, class F> static void both(World<I> &w, bool valid, size_t outlen, F f, const char *what)
{
    uint8_t *p = outa.take(outlen); long r = f(w.a, p);
    if (!valid) { expect_err(r, what); outa.untouched(what); return; }
    uint8_t *q = outb.take(outlen); long s = f(w.b, q);
    if (s != 0) fail("%s: a valid call returned %ld", what, s);
    if (r != 0) fail("%s: a valid call returned %ld after refused calls", what, r);
    outa.check(q, what); outb.check_margin();
}
static const uint8_t *inp(size_t pos, size_t n) { return in.put(src.data() + pos, n); }

static const char *const *NAMES;
static std::string show(const Op &o) { return str("%s(%u,%u,%u)", NAMES[o.k], o.a, o.b, o.c); }
static Op op(int k, uint32_t a = 0, uint32_t b = 0, uint32_t c = 0) { Op o; o.k = k; o.a = a; o.b = b; o.c = c; return o; }

template <class I> static void explore(const char *const *names, const std::string &title, const std::vector<Op> &ops, size_t depth,
    std::function<bool(World<I> &, const Op &)> apply, std::function<void(World<I> &)> probe)
{
    NAMES = names;
    for (auto &f : ops) if (begin("%s: all sequences of %zu valid and invalid calls starting with %s", title.c_str(), depth, show(f).c_str())) {
        std::unique_ptr<World<I>> w((World<I> *)aligned_alloc(64, sizeof(World<I>)));
        memset((void *)w.get(), 0, sizeof *w); memset((void *)&w->a, 0xE7, sizeof w->a); memcpy((void *)&w->b, (const void *)&w->a, sizeof w->a); w->phase = DEAD;
        g.free_path = show(f);
        if (f.k != 0 || !apply(*w, f) || w->phase == DEAD) continue;
        World<I> *t = (World<I> *)aligned_alloc(64, sizeof(World<I>)); memcpy((void *)t, (const void *)w.get(), sizeof *w); probe(*t); free(t);
        Search<World<I>, Op> q; q.show = show;
        q.run(*w, depth - 1, show(f), [&](const World<I> &, size_t) { return ops; }, apply, [&](World<I> &x, size_t) {
            World<I> *t = (World<I> *)aligned_alloc(64, sizeof(World<I>)); memcpy((void *)t, (const void *)&x, sizeof x); probe(*t); free(t); });
    }
}

#if !defined(KRAVATTE) && !defined(XOOFFF)
// ------------------------------------------------------------------------------------------------ sponge
typedef KeccakWidth1600_SpongeInstance Sp;
static void sponge(bool T)
{
    static const char *N[] = {"Initialize", "Absorb", "AbsorbLastFewBits", "Squeeze"};
    for (unsigned rate : {8u, 72u, 1088u, 1344u, 1600u}) {
        unsigned rb = rate / 8; std::vector<Op> ops = {op(0, rate, 1600 - rate)};
        std::vector<std::pair<uint32_t, uint32_t>> bad = {{0, 1600}, {rate, 1600 - rate + 8}, {rate + 8, 1600 - rate}, {1604, 0xFFFFFFFCu}, {1608, 0xFFFFFFF8u}, {1087, 513}, {1084, 516}, {4, 1596}, {0xFFFFFFF8u, 1608}};
        for (auto p : bad) ops.push_back(op(0, p.first, p.second));
        for (unsigned l : {0u, 1u, rb - 1, rb, rb + 1}) { ops.push_back(op(1, l)); }
        for (unsigned d : {0u, 1u, 0x06u, 0x80u}) ops.push_back(op(2, d));
        for (unsigned l : {0u, 1u, rb, rb + 1}) ops.push_back(op(3, l));
        explore<Sp>(N, str("KeccakWidth1600_Sponge at rate %u", rate), ops, T ? 6 : 5, [=](World<Sp> &w, const Op &o) {
            if (w.phase == DEAD && o.k != 0) return false;
            switch (o.k) {
            case 0: { bool ok = o.a + (uint64_t)o.b == 1600 && o.a % 8 == 0 && o.a > 0; both(w, ok, 0, [&](Sp &s, uint8_t *) { return KeccakWidth1600_SpongeInitialize(&s, o.a, o.b); }, "SpongeInitialize"); if (ok) { w.phase = ABS; w.pos = 0; } break; }
            case 1: both(w, w.phase == ABS, 0, [&](Sp &s, uint8_t *) { return KeccakWidth1600_SpongeAbsorb(&s, inp(w.pos, o.a), o.a); }, "SpongeAbsorb"); if (w.phase == ABS) w.pos += o.a; break;
            case 2: { bool ok = w.phase == ABS && o.a; both(w, ok, 0, [&](Sp &s, uint8_t *) { return KeccakWidth1600_SpongeAbsorbLastFewBits(&s, o.a); }, "SpongeAbsorbLastFewBits"); if (ok) { w.phase = SQ; w.pos = 0; } break; }
            case 3: both(w, true, o.a, [&](Sp &s, uint8_t *p) { return KeccakWidth1600_SpongeSqueeze(&s, p, o.a); }, "SpongeSqueeze"); if (w.phase == ABS) { w.phase = SQ; } break;
            }
            return true;
        }, [=](World<Sp> &w) {
            if (w.phase == ABS) both(w, true, 0, [&](Sp &s, uint8_t *) { return KeccakWidth1600_SpongeAbsorb(&s, inp(w.pos, 3), 3); }, "SpongeAbsorb");
            both(w, true, 2 * rb + 1, [&](Sp &s, uint8_t *p) { return KeccakWidth1600_SpongeSqueeze(&s, p, 2 * rb + 1); }, "SpongeSqueeze");
        });
    }
    if (begin("one-shot sponge and initializations with every rate 0..1700 and capacities around the complement, wrapped sums, suffix 0"))
        for (unsigned r = 0; r <= 1700; r++) for (int d = -17; d <= 17; d++) for (unsigned sfx : {0u, 1u}) {
            unsigned c = 1600u - r + d; bool ok = d == 0 && r % 8 == 0 && r > 0 && r <= 1600 && sfx;
            call("KeccakWidth1600_Sponge(rate %u, capacity %u, suffix %u)", r, c, sfx);
            int rc = KeccakWidth1600_Sponge(r, c, inp(0, 9), 9, sfx, outa.take(40), 40);
            if (ok) expect_rc(rc, 0, "KeccakWidth1600_Sponge"); else { expect_err(rc, "KeccakWidth1600_Sponge"); outa.untouched("KeccakWidth1600_Sponge"); }
            Keccak_HashInstance h, h0; memset(&h, 0x77, sizeof h); memcpy(&h0, &h, sizeof h); rc = Keccak_HashInitialize(&h, r, c, 64, sfx);
            if (ok) expect_rc(rc, KECCAK_SUCCESS, "Keccak_HashInitialize"); else if (rc != KECCAK_FAIL) fail("Keccak_HashInitialize returned %d instead of KECCAK_FAIL", rc);
            g.transitions += 2; g.states++;
        }
}
// ------------------------------------------------------------------------------------------------ TurboSHAKE
static void turbo(bool T)
{
    typedef TurboSHAKE_Instance I;
    static const char *N[] = {"Initialize", "Absorb", "AbsorbDomainSeparationByte", "Squeeze"};
    for (unsigned cap : {256u, 512u, 0u, 8u}) {
        unsigned rb = (1600 - cap) / 8; std::vector<Op> ops = {op(0, cap)};
        for (unsigned c : {1u, 255u, 513u, 520u, 1600u, 1344u, 0xFFFFFFF8u, 0xFFFFFE00u}) ops.push_back(op(0, c));
        for (unsigned l : {0u, 1u, rb - 1, rb, rb + 1}) ops.push_back(op(1, l));
        for (unsigned d : {0u, 1u, 0x1Fu, 0x80u}) ops.push_back(op(2, d));
        for (unsigned l : {0u, 1u, rb, rb + 1}) ops.push_back(op(3, l));
        explore<I>(N, str("TurboSHAKE with capacity %u", cap), ops, T ? 6 : 5, [=](World<I> &w, const Op &o) {
            if (w.phase == DEAD && o.k != 0) return false;
            switch (o.k) {
            case 0: { bool ok = o.a <= 512 && o.a % 8 == 0; both(w, ok, 0, [&](I &s, uint8_t *) { return TurboSHAKE_Initialize(&s, o.a); }, "TurboSHAKE_Initialize"); if (ok) { w.phase = ABS; w.pos = 0; } break; }
            case 1: both(w, w.phase == ABS, 0, [&](I &s, uint8_t *) { return TurboSHAKE_Absorb(&s, inp(w.pos, o.a), o.a); }, "TurboSHAKE_Absorb"); if (w.phase == ABS) w.pos += o.a; break;
            case 2: { bool ok = w.phase == ABS && o.a; both(w, ok, 0, [&](I &s, uint8_t *) { return TurboSHAKE_AbsorbDomainSeparationByte(&s, o.a); }, "TurboSHAKE_AbsorbDomainSeparationByte"); if (ok) w.phase = SQ; break; }
            case 3: both(w, true, o.a, [&](I &s, uint8_t *p) { return TurboSHAKE_Squeeze(&s, p, o.a); }, "TurboSHAKE_Squeeze"); w.phase = SQ; break;
            }
            return true;
        }, [=](World<I> &w) {
            if (w.phase == ABS) both(w, true, 0, [&](I &s, uint8_t *) { return TurboSHAKE_Absorb(&s, inp(w.pos, 3), 3); }, "TurboSHAKE_Absorb");
            both(w, true, 2 * rb + 1, [&](I &s, uint8_t *p) { return TurboSHAKE_Squeeze(&s, p, 2 * rb + 1); }, "TurboSHAKE_Squeeze");
        });
    }
    if (begin("one-shot TurboSHAKE and initialization with every capacity 0..1700 and domain 0"))
        for (unsigned c = 0; c <= 1700; c++) for (unsigned d : {0u, 1u, 0xFFu}) {
            call("TurboSHAKE(capacity %u, domain %u)", c, d); bool okc = c <= 512 && c % 8 == 0;
            int rc = TurboSHAKE(c, inp(0, 9), 9, d, outa.take(40), 40);
            if (okc && d) expect_rc(rc, 0, "TurboSHAKE"); else { expect_err(rc, "TurboSHAKE"); outa.untouched("TurboSHAKE"); }
            I t; memset((void *)&t, 1, sizeof t); rc = TurboSHAKE_Initialize(&t, c); if (okc) expect_rc(rc, 0, "TurboSHAKE_Initialize"); else expect_err(rc, "TurboSHAKE_Initialize");
            g.transitions += 2; g.states++;
        }
}
// ------------------------------------------------------------------------------------------------ FIPS 202 object
static void hash(bool T)
{
    typedef Keccak_HashInstance I;
    static const char *N[] = {"HashInitialize", "HashUpdate", "HashFinal", "HashSqueeze"};
    for (unsigned cap : {256u, 512u, 1024u}) for (unsigned len : {0u, 256u}) {
        unsigned rate = 1600 - cap, rb = rate / 8; std::vector<Op> ops;
        for (unsigned d : {0x06u, 0x1Fu, 0x80u}) ops.push_back(op(0, rate, cap, d));
        ops.push_back(op(0, rate, cap, 0)); ops.push_back(op(0, rate, cap + 8, 6)); ops.push_back(op(0, rate - 1, cap + 1, 6)); ops.push_back(op(0, 0, 1600, 6)); ops.push_back(op(0, 1608, 0xFFFFFFF8u, 6));
        for (unsigned l : {0u, 8u, 8 * rb, 8 * rb + 8, 1u, 7u, 8 * rb - 1, 8 * rb + 3}) ops.push_back(op(1, l));
        ops.push_back(op(2));
        for (unsigned l : {0u, 8u, 8 * rb, 1u, 7u, 8 * rb + 4}) ops.push_back(op(3, l));
        explore<I>(N, str("Keccak_Hash, capacity %u, %u output bits", cap, len), ops, T ? 6 : 5, [=](World<I> &w, const Op &o) {
            if (w.phase == DEAD && o.k != 0) return false;
            auto rc = [](HashReturn r) { return (long)r; };
            switch (o.k) {
            case 0: { bool ok = o.a + (uint64_t)o.b == 1600 && o.a % 8 == 0 && o.a > 0 && o.c; both(w, ok, 0, [&](I &s, uint8_t *) { return rc(Keccak_HashInitialize(&s, o.a, o.b, len, o.c)); }, "Keccak_HashInitialize"); if (ok) { w.phase = ABS; w.pos = 0; w.part = 0; } break; }
            case 1: if (w.phase == ABS && w.part) return false; // precondition, not checked by the interface
                both(w, w.phase == ABS, 0, [&](I &s, uint8_t *) { return rc(Keccak_HashUpdate(&s, inp(w.pos, (o.a + 7) / 8), o.a)); }, "Keccak_HashUpdate"); if (w.phase == ABS) { w.pos += o.a / 8; w.part = o.a % 8; } break;
            case 2: both(w, w.phase == ABS, len / 8, [&](I &s, uint8_t *p) { return rc(Keccak_HashFinal(&s, p)); }, "Keccak_HashFinal"); if (w.phase == ABS) w.phase = SQ; break;
            case 3: { if (w.phase == ABS && o.a % 8 == 0) return false; // precondition
                bool ok = o.a % 8 == 0; both(w, ok, (o.a + 7) / 8, [&](I &s, uint8_t *p) { return rc(Keccak_HashSqueeze(&s, p, o.a)); }, "Keccak_HashSqueeze"); break; }
            }
            return true;
        }, [=](World<I> &w) {
            auto rc = [](HashReturn r) { return (long)r; };
            if (w.phase == ABS) { if (!w.part) both(w, true, 0, [&](I &s, uint8_t *) { return rc(Keccak_HashUpdate(&s, inp(w.pos, 3), 21)); }, "Keccak_HashUpdate"); both(w, true, len / 8, [&](I &s, uint8_t *p) { return rc(Keccak_HashFinal(&s, p)); }, "Keccak_HashFinal"); }
            both(w, true, 2 * rb, [&](I &s, uint8_t *p) { return rc(Keccak_HashSqueeze(&s, p, 16 * rb)); }, "Keccak_HashSqueeze");
        });
    }
}
// ------------------------------------------------------------------------------------------------ KangarooTwelve
static void k12(bool T)
{
    typedef KangarooTwelve_Instance I;
    static const char *N[] = {"Initialize", "Update", "Final", "Squeeze"};
    for (int lv : {128, 256}) {
        unsigned rb = 200 - lv / 4; std::vector<Op> ops;
        for (unsigned l : {0u, 32u}) ops.push_back(op(0, lv, l));
        for (unsigned l : {0u, 1u, 127u, 129u, 255u, 512u, 0xFFFFFF80u}) ops.push_back(op(0, l, 32));
        for (unsigned l : {0u, 1u, 8191u, 8192u, 8193u}) ops.push_back(op(1, l));
        for (unsigned c : {0u, 5u, 8192u}) ops.push_back(op(2, c));
        for (unsigned l : {0u, 1u, rb + 1}) ops.push_back(op(3, l));
        explore<I>(N, str("KT%d", lv), ops, T ? 6 : 5, [=](World<I> &w, const Op &o) {
            if (w.phase == DEAD && o.k != 0) return false;
            switch (o.k) {
            case 0: { bool ok = o.a == 128 || o.a == 256; both(w, ok, 0, [&](I &s, uint8_t *) { return KangarooTwelve_Initialize(&s, (int)o.a, o.b); }, "KangarooTwelve_Initialize"); if (ok) { w.phase = ABS; w.pos = 0; w.fixed = o.b; } break; }
            case 1: both(w, w.phase == ABS, 0, [&](I &s, uint8_t *) { return KangarooTwelve_Update(&s, inp(w.pos % 1000, o.a), o.a); }, "KangarooTwelve_Update"); if (w.phase == ABS) w.pos += o.a; break;
            case 2: both(w, w.phase == ABS, w.fixed, [&](I &s, uint8_t *p) { return KangarooTwelve_Final(&s, p, inp(500, o.a), o.a); }, "KangarooTwelve_Final"); if (w.phase == ABS) w.phase = w.fixed ? FIN : SQ; break;
            case 3: both(w, w.phase == SQ, o.a, [&](I &s, uint8_t *p) { return KangarooTwelve_Squeeze(&s, p, o.a); }, "KangarooTwelve_Squeeze"); break;
            }
            return true;
        }, [=](World<I> &w) {
            if (w.phase == ABS) { both(w, true, 0, [&](I &s, uint8_t *) { return KangarooTwelve_Update(&s, inp(1, 3), 3); }, "KangarooTwelve_Update"); both(w, true, w.fixed, [&](I &s, uint8_t *p) { return KangarooTwelve_Final(&s, p, inp(0, 2), 2); }, "KangarooTwelve_Final"); w.phase = w.fixed ? FIN : SQ; }
            both(w, w.phase == SQ, rb + 2, [&](I &s, uint8_t *p) { return KangarooTwelve_Squeeze(&s, p, rb + 2); }, "KangarooTwelve_Squeeze");
        });
    }
    if (begin("one-shot KangarooTwelve: every security level 0..600 and output length 0"))
        for (int lv = -3; lv <= 600; lv++) for (size_t on : {(size_t)0, (size_t)1, (size_t)33}) {
            call("KangarooTwelve(%d, output %zu)", lv, on); bool ok = (lv == 128 || lv == 256) && on;
            int rc = KangarooTwelve(lv, inp(0, 9), 9, outa.take(on), on, in2.put(src.data(), 3), 3);
            if (ok) expect_rc(rc, 0, "KangarooTwelve"); else { expect_err(rc, "KangarooTwelve"); outa.untouched("KangarooTwelve"); }
            if (!on) { expect_err(KT128(inp(0, 9), 9, outa.take(0), 0, in2.put(src.data(), 3), 3), "KT128"); expect_err(KT256(inp(0, 9), 9, outa.take(0), 0, in2.put(src.data(), 3), 3), "KT256"); outa.untouched("KT"); }
            g.transitions++; g.states++;
        }
}
// ------------------------------------------------------------------------------------------------ SP 800-185
#define LEVEL(S) {S, cSHAKE##S, cSHAKE##S##_Initialize, cSHAKE##S##_Update, cSHAKE##S##_Final, cSHAKE##S##_Squeeze, \
    KMAC##S, KMAC##S##_Initialize, KMAC##S##_Update, KMAC##S##_Final, KMAC##S##_Squeeze, \
    ParallelHash##S, ParallelHash##S##_Initialize, ParallelHash##S##_Update, ParallelHash##S##_Final, ParallelHash##S##_Squeeze, \
    TupleHash##S, TupleHash##S##_Initialize, TupleHash##S##_Update, TupleHash##S##_Final, TupleHash##S##_Squeeze}
struct API {
    int level;
    decltype(&cSHAKE128) cshake; decltype(&cSHAKE128_Initialize) cs_init; decltype(&cSHAKE128_Update) cs_up; decltype(&cSHAKE128_Final) cs_fin; decltype(&cSHAKE128_Squeeze) cs_sq;
    decltype(&KMAC128) kmac; decltype(&KMAC128_Initialize) km_init; decltype(&KMAC128_Update) km_up; decltype(&KMAC128_Final) km_fin; decltype(&KMAC128_Squeeze) km_sq;
    decltype(&ParallelHash128) ph; decltype(&ParallelHash128_Initialize) ph_init; decltype(&ParallelHash128_Update) ph_up; decltype(&ParallelHash128_Final) ph_fin; decltype(&ParallelHash128_Squeeze) ph_sq;
    decltype(&TupleHash128) th; decltype(&TupleHash128_Initialize) th_init; decltype(&TupleHash128_Update) th_up; decltype(&TupleHash128_Final) th_fin; decltype(&TupleHash128_Squeeze) th_sq;
};
static const API APIS[] = {LEVEL(128), LEVEL(256)};
static const uint8_t *z(size_t n) { static const Bytes d = data(64, 9); return in2.put(d.data(), n); }
/// cSHAKE, KMAC, ParallelHash and TupleHash share their phases; f_* adapt the calls.
template <class I> static void sp185(const std::string &title, std::vector<Op> ops, size_t depth, bool bitmsg, bool bitinit_name,
    std::function<long(I &, const Op &)> init, std::function<bool(const Op &)> init_ok, std::function<long(I &, uint32_t, const Op &)> update, std::function<bool(const Op &)> update_ok,
    std::function<long(I &, uint8_t *)> fin, std::function<long(I &, uint8_t *, size_t)> squeeze, unsigned rb, std::function<bool(const Op &)> vacuous = [](const Op &) { return false; })
{
    static const char *N[] = {"Initialize", "Update", "Final", "Squeeze"};
    auto nbits = [](size_t n) { return (n + 7) / 8; };
    explore<I>(N, title, ops, depth, [=](World<I> &w, const Op &o) {
        if (w.phase == DEAD && o.k != 0) return false;
        switch (o.k) {
        case 0: { bool ok = init_ok(o); both(w, ok, 0, [&](I &s, uint8_t *) { return init(s, o); }, "Initialize"); if (ok) { w.phase = ABS; w.pos = 0; w.part = 0; w.fixed = o.a; } break; }
        case 1: { if (vacuous(o) && w.phase != ABS) return false; bool ok = w.phase == ABS && !w.part && update_ok(o); both(w, ok, 0, [&](I &s, uint8_t *) { return update(s, w.pos, o); }, "Update"); if (ok) { w.pos += o.a / 8; if (bitmsg) w.part = o.a % 8; } break; }
        case 2: { bool ok = w.phase == ABS; both(w, ok, nbits(w.fixed), [&](I &s, uint8_t *p) { return fin(s, p); }, "Final"); if (ok) w.phase = w.fixed ? FIN : SQ; break; }
        case 3: { bool ok = w.phase == SQ; both(w, ok, nbits(o.a), [&](I &s, uint8_t *p) { return squeeze(s, p, o.a); }, "Squeeze"); if (ok && o.a % 8) w.phase = FIN; break; }
        }
        return true;
    }, [=](World<I> &w) {
        if (w.phase == ABS) { if (!w.part) both(w, true, 0, [&](I &s, uint8_t *) { return update(s, w.pos, op(1, 24)); }, "Update"); both(w, true, nbits(w.fixed), [&](I &s, uint8_t *p) { return fin(s, p); }, "Final"); w.phase = w.fixed ? FIN : SQ; }
        both(w, w.phase == SQ, rb + 2, [&](I &s, uint8_t *p) { return squeeze(s, p, 8 * rb + 13); }, "Squeeze");
    });
}
static void sp(bool T)
{
    size_t D = T ? 6 : 5;
    for (const API &A : APIS) {
        unsigned rb = 200 - A.level / 4; const API *a = &A; std::vector<Op> common;
        for (unsigned l : {0u, 8u, 8 * rb, 1u, 7u, 8 * rb + 5}) common.push_back(op(1, l));
        common.push_back(op(2)); for (unsigned l : {0u, 8u, 8 * rb + 8, 5u}) common.push_back(op(3, l));
        std::vector<Op> v; // Initialize(output bits, name bits, customization bits)
        for (unsigned o : {0u, 100u}) { v.push_back(op(0, o, 0, 0)); v.push_back(op(0, o, 16, 5)); } v.push_back(op(0, 64, 3, 0)); v.push_back(op(0, 0, 9, 16));
        v.insert(v.end(), common.begin(), common.end());
        sp185<cSHAKE_Instance>(str("cSHAKE%d", A.level), v, D, true, true,
            [=](cSHAKE_Instance &s, const Op &o) { return a->cs_init(&s, o.a, z((o.b + 7) / 8), o.b, inp(0, (o.c + 7) / 8), o.c); }, [](const Op &o) { return o.b % 8 == 0; },
            [=](cSHAKE_Instance &s, uint32_t pos, const Op &o) { return a->cs_up(&s, inp(pos, (o.a + 7) / 8), o.a); }, [](const Op &) { return true; },
            [=](cSHAKE_Instance &s, uint8_t *p) { return a->cs_fin(&s, p); }, [=](cSHAKE_Instance &s, uint8_t *p, size_t n) { return a->cs_sq(&s, p, n); }, rb);
        v.clear(); for (unsigned o : {0u, 100u}) v.push_back(op(0, o, 16, 8)); v.push_back(op(0, 0, 8 * rb, 0)); v.insert(v.end(), common.begin(), common.end());
        sp185<KMAC_Instance>(str("KMAC%d", A.level), v, D, false, false,
            [=](KMAC_Instance &s, const Op &o) { return a->km_init(&s, z((o.b + 7) / 8 > 64 ? 64 : (o.b + 7) / 8), o.b > 512 ? 512 : o.b, o.a, inp(0, (o.c + 7) / 8), o.c); }, [](const Op &) { return true; },
            [=](KMAC_Instance &s, uint32_t pos, const Op &o) { return a->km_up(&s, inp(pos, (o.a + 7) / 8), o.a); }, [](const Op &o) { return o.a % 8 == 0; },
            [=](KMAC_Instance &s, uint8_t *p) { return a->km_fin(&s, p); }, [=](KMAC_Instance &s, uint8_t *p, size_t n) { return a->km_sq(&s, p, n); }, rb);
        v.clear(); for (unsigned o : {0u, 100u}) { v.push_back(op(0, o, 8, 8)); v.push_back(op(0, o, 64, 0)); }
        for (unsigned b : {0u, 1u, 2u, 4u, 7u, 9u, 12u, 24u, 8193u, 0x80000001u, 0xFFFFFFFFu}) v.push_back(op(0, 0, b, 8)); v.insert(v.end(), common.begin(), common.end());
        sp185<ParallelHash_Instance>(str("ParallelHash%d", A.level), v, D, false, false,
            [=](ParallelHash_Instance &s, const Op &o) { return a->ph_init(&s, o.b, o.a, inp(0, (o.c + 7) / 8), o.c); }, [](const Op &o) { return o.b >= 8 && (o.b & (o.b - 1)) == 0; },
            [=](ParallelHash_Instance &s, uint32_t pos, const Op &o) { return a->ph_up(&s, inp(pos, (o.a + 7) / 8), o.a); }, [](const Op &o) { return o.a % 8 == 0; },
            [=](ParallelHash_Instance &s, uint8_t *p) { return a->ph_fin(&s, p); }, [=](ParallelHash_Instance &s, uint8_t *p, size_t n) { return a->ph_sq(&s, p, n); }, rb);
        // TupleHash: Update(first element, second element, number of elements)
        v.clear(); for (unsigned o : {0u, 100u}) v.push_back(op(0, o, 0, 8));
        for (auto p : std::vector<std::array<unsigned, 3>>{{8, 0, 1}, {0, 0, 1}, {8 * rb, 8, 2}, {0, 16, 2}, {0, 0, 0}, {3, 0, 1}, {8, 3, 2}, {7, 8, 2}, {16, 8 * rb + 1, 2}}) v.push_back(op(1, p[0], p[1], p[2]));
        v.push_back(op(2)); for (unsigned l : {0u, 8u, 8 * rb + 8, 5u}) v.push_back(op(3, l));
        sp185<TupleHash_Instance>(str("TupleHash%d", A.level), v, D, false, false,
            [=](TupleHash_Instance &s, const Op &o) { return a->th_init(&s, o.a, inp(0, (o.c + 7) / 8), o.c); }, [](const Op &) { return true; },
            [=](TupleHash_Instance &s, uint32_t pos, const Op &o) { TupleElement e[2]; e[0].input = inp(pos, (o.a + 7) / 8); e[0].inputBitLen = o.a; e[1].input = in2.put(src.data(), (o.b + 7) / 8); e[1].inputBitLen = o.b; return a->th_up(&s, e, o.c); },
            [](const Op &o) { return o.c == 0 || (o.a % 8 == 0 && (o.c == 1 || o.b % 8 == 0)); },
            [=](TupleHash_Instance &s, uint8_t *p) { return a->th_fin(&s, p); }, [=](TupleHash_Instance &s, uint8_t *p, size_t n) { return a->th_sq(&s, p, n); }, rb, [](const Op &o) { return o.c == 0; });  // no element: nothing to refuse
        if (begin("one-shot functions of SP 800-185 at level %d: refused parameters", A.level)) {
            for (unsigned on : {0u, 1u, 64u}) for (unsigned nb = 0; nb <= 40; nb++) for (unsigned mb = 0; mb <= 40; mb++) {
                call("one-shot, %u output bits, name bits or block bytes %u, message bits %u", on, nb, mb); size_t ob = (on + 7) / 8;
                auto chk = [&](int rc, bool ok, const char *w) { if (ok) expect_rc(rc, 0, w); else { expect_err(rc, w); outa.untouched(w); } g.transitions++; };
                chk(A.cshake(inp(0, (mb + 7) / 8), mb, outa.take(ob), on, z((nb + 7) / 8), nb, src.data(), 5), on && nb % 8 == 0, "cSHAKE");
                chk(A.kmac(z((nb + 7) / 8), nb, inp(0, (mb + 7) / 8), mb, outa.take(ob), on, src.data(), 8), on && mb % 8 == 0, "KMAC");
                chk(A.ph(inp(0, (mb + 7) / 8), mb, nb, outa.take(ob), on, src.data(), 8), on && mb % 8 == 0 && nb >= 8 && (nb & (nb - 1)) == 0, "ParallelHash");
                TupleElement e[2]; e[0].input = inp(0, (mb + 7) / 8); e[0].inputBitLen = mb; e[1].input = z((nb + 7) / 8); e[1].inputBitLen = nb;
                chk(A.th(e, 2, outa.take(ob), on, src.data(), 8), on && mb % 8 == 0 && nb % 8 == 0, "TupleHash");
                g.states++;
            }
        }
    }
}
// ------------------------------------------------------------------------------------------------ duplex, PRG
static void duplex(bool T)
{
    typedef KeccakWidth1600_DuplexInstance I;
    static const char *N[] = {"DuplexInitialize", "Duplexing", "FeedPartialInput", "FeedZeroes", "OverwritePartialInput", "OverwriteWithZeroes", "GetFurtherOutput", "GetFurtherOutputAndAdd"};
    for (unsigned rate : {3u, 11u, 1026u, 1027u, 1346u, 1600u}) {
        unsigned m = (rate - 2) / 8, c = (rate + 7) / 8; std::vector<Op> ops = {op(0, rate, 1600 - rate), op(0, 2, 1598), op(0, 0, 1600), op(0, 1601, 0xFFFFFFFFu), op(0, rate, 1600 - rate + 1)};
        for (unsigned l : {0u, m, m + 1}) for (unsigned zl : {0u, c, c + 1}) ops.push_back(op(1, l, zl, 1));
        ops.push_back(op(1, 0, 1, 0)); ops.push_back(op(1, 0x20000000u, 0, 1)); ops.push_back(op(1, m, 0, 0x80)); ops.push_back(op(1, 0, 0x20000001u, 1));
        for (unsigned k = 2; k <= 5; k++) for (unsigned l : {1u, m, m + 1, 0x20000000u}) if (k != 3 || l != 1) ops.push_back(op(k, l));
        for (unsigned k : {6u, 7u}) for (unsigned l : {1u, c, c + 1, 0xFFFFFFFFu}) ops.push_back(op(k, l));
        explore<I>(N, str("duplex at rate %u", rate), ops, T ? 5 : 4, [=](World<I> &w, const Op &o) {
            if (w.phase == DEAD && o.k != 0) return false;
            unsigned l = o.a > 400 ? 200 : o.a; // w.pos: queued bytes, w.fixed: bytes of output already taken
            switch (o.k) {
            case 0: { bool ok = o.a + (uint64_t)o.b == 1600 && o.a > 2; both(w, ok, 0, [&](I &s, uint8_t *) { return KeccakWidth1600_DuplexInitialize(&s, o.a, o.b); }, "DuplexInitialize"); if (ok) { w.phase = ABS; w.pos = 0; w.fixed = c; } break; }
            case 1: {
                int n = 0; while (n < 8 && (o.c >> n) > 1) n++;
                bool ok = o.c && 8 * ((uint64_t)w.pos + o.a) + n <= rate - 2 && o.b <= c;
                both(w, ok, o.b > 400 ? 200 : o.b, [&](I &s, uint8_t *p) { return KeccakWidth1600_Duplexing(&s, inp(w.pos, l), o.a, p, o.b, o.c); }, "Duplexing"); if (ok) { w.pos = 0; w.fixed = o.b; } break; }
            case 2: case 3: case 4: case 5: {
                bool ok = w.pos + (uint64_t)o.a <= m && (o.k != 5 || w.pos == 0);
                both(w, ok, 0, [&](I &s, uint8_t *) { return o.k == 2 ? KeccakWidth1600_DuplexingFeedPartialInput(&s, inp(w.pos, l), o.a) : o.k == 3 ? KeccakWidth1600_DuplexingFeedZeroes(&s, o.a) : o.k == 4 ? KeccakWidth1600_DuplexingOverwritePartialInput(&s, inp(w.pos, l), o.a) : KeccakWidth1600_DuplexingOverwriteWithZeroes(&s, o.a); }, N[o.k]);
                if (ok) w.pos += o.a; break; }
            default: {
                bool ok = w.fixed + (uint64_t)o.a <= c; if (ok && w.fixed < w.pos) return false;
                both(w, ok, l, [&](I &s, uint8_t *p) { return o.k == 6 ? KeccakWidth1600_DuplexingGetFurtherOutput(&s, p, o.a) : KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(&s, inp(7, l), p, o.a); }, N[o.k]);
                if (ok) w.fixed += o.a; }
            }
            return true;
        }, [=](World<I> &w) {
            if (w.fixed < c && w.fixed >= w.pos) both(w, true, c - w.fixed, [&](I &s, uint8_t *p) { return KeccakWidth1600_DuplexingGetFurtherOutput(&s, p, c - w.fixed); }, "GetFurtherOutput");
            both(w, true, c, [&](I &s, uint8_t *p) { return KeccakWidth1600_Duplexing(&s, inp(0, 0), 0, p, c, 1); }, "Duplexing");
        });
    }
}
static void prg(bool T)
{
    typedef KeccakWidth1600_SpongePRG_Instance I;
    static const char *N[] = {"Initialize", "Feed", "Fetch", "Forget"};
    for (unsigned cap : {254u, 318u, 798u, 799u, 800u, 1590u, 1000u}) {
        unsigned rho = (1600 - cap - 2) / 8; bool okf = rho * 8 >= cap; std::vector<Op> ops = {op(0, cap)};
        for (unsigned c : {1591u, 1592u, 1600u, 1601u, 0xFFFFFFFFu, 0xFFFFFFF6u}) ops.push_back(op(0, c));
        for (unsigned l : {0u, 1u, rho, 2 * rho + 1}) { ops.push_back(op(1, l)); ops.push_back(op(2, l)); } ops.push_back(op(3));
        explore<I>(N, str("SpongePRG with capacity %u", cap), ops, T ? 6 : 5, [=](World<I> &w, const Op &o) {
            if (w.phase == DEAD && o.k != 0) return false;
            switch (o.k) {
            case 0: { bool ok = o.a <= 1590; both(w, ok, 0, [&](I &s, uint8_t *) { return KeccakWidth1600_SpongePRG_Initialize(&s, o.a); }, "SpongePRG_Initialize"); if (ok) w.phase = ABS; break; }
            case 1: both(w, true, 0, [&](I &s, uint8_t *) { return KeccakWidth1600_SpongePRG_Feed(&s, inp(w.pos % 1000, o.a), o.a); }, "SpongePRG_Feed"); w.pos += o.a; break;
            case 2: both(w, true, o.a, [&](I &s, uint8_t *p) { return KeccakWidth1600_SpongePRG_Fetch(&s, p, o.a); }, "SpongePRG_Fetch"); break;
            case 3: both(w, okf, 0, [&](I &s, uint8_t *) { return KeccakWidth1600_SpongePRG_Forget(&s); }, "SpongePRG_Forget"); break;
            }
            return true;
        }, [=](World<I> &w) { both(w, true, 2 * rho + 3, [&](I &s, uint8_t *p) { return KeccakWidth1600_SpongePRG_Fetch(&s, p, 2 * rho + 3); }, "SpongePRG_Fetch"); });
    }
}
#else
// ------------------------------------------------------------------------------------------------ Kravatte / Xoofff
#ifdef KRAVATTE
typedef Kravatte_SANE_Instance SANE; typedef Kravatte_SANSE_Instance SANSE;
static const auto sane_init = Kravatte_SANE_Initialize; static const auto sane_wrap = Kravatte_SANE_Wrap; static const auto sanse_init = Kravatte_SANSE_Initialize; static const auto sanse_wrap = Kravatte_SANSE_Wrap;
#else
typedef XoofffSANE_Instance SANE; typedef XoofffSANSE_Instance SANSE;
static const auto sane_init = XoofffSANE_Initialize; static const auto sane_wrap = XoofffSANE_Wrap; static const auto sanse_init = XoofffSANSE_Initialize; static const auto sanse_wrap = XoofffSANSE_Wrap;
#endif
static void farfalle(bool T)
{
    static const char *N[] = {"MaskDerivation", "Compress", "Expand"};
    // phase: ABS between strings, SQ expanding, FIN expanded; part: queued bits of an unfinished string
    std::vector<Op> ops; unsigned b = 8 * BB;
    ops.push_back(op(0, 128)); for (unsigned k : {b, b + 1, 8 * b, 0xFFFFFFF8u}) ops.push_back(op(0, k));
    for (unsigned n : {0u, 8u, b, b + 16, 3u, b + 1}) for (int f : {0, (int)INIT, (int)LAST, INIT | LAST}) ops.push_back(op(1, n, f));
    for (unsigned n : {0u, 16u, b, b + 8, 5u, b + 3}) for (int f : {0, (int)LAST, SHORT | LAST, (int)SHORT}) { if (f & SHORT && n > 16) continue; ops.push_back(op(2, n, f)); }
    explore<FF>(N, NAME, ops, T ? 6 : 5, [=](World<FF> &w, const Op &o) {
        if (w.phase == DEAD && o.k != 0) return false;
        size_t n = (o.a + 7) / 8; if (n > 1000) n = 1000;
        switch (o.k) {
        case 0: { bool ok = o.a < b; both(w, ok, 0, [&](FF &s, uint8_t *) { return ff_key(&s, inp(0, n), o.a); }, "mask derivation"); if (ok) { w.phase = ABS; w.part = 0; w.pos = 0; } break; }
        case 1: {
            bool ok = (o.b & LAST) || o.a % 8 == 0; both(w, ok, 0, [&](FF &s, uint8_t *) { return ff_in(&s, inp(w.pos % 1000, n), o.a, o.b); }, "compression");
            if (ok) { if (w.phase != ABS || (o.b & INIT)) w.part = 0; w.phase = ABS; w.part = (o.b & LAST) ? 0 : (w.part + o.a) % b; w.pos++; } break; }
        case 2: {
            bool ok = ((o.b & LAST) || o.a % 8 == 0) && w.phase != FIN && !(w.phase == ABS && w.part);
            both(w, ok, n, [&](FF &s, uint8_t *p) { return ff_out(&s, p, o.a, o.b); }, "expansion"); if (ok) w.phase = (o.b & LAST) ? FIN : SQ; break; }
        }
        return true;
    }, [=](World<FF> &w) {
        if (w.phase == SQ) both(w, true, BB + 3, [&](FF &s, uint8_t *p) { return ff_out(&s, p, b + 24, 0); }, "expansion");
        both(w, true, 0, [&](FF &s, uint8_t *) { return ff_in(&s, inp(5, 3), 21, LAST); }, "compression");
        both(w, true, BB + 3, [&](FF &s, uint8_t *p) { return ff_out(&s, p, b + 21, LAST); }, "expansion");
    });
    if (begin(NAME " mask derivation: every key length 0..2 blocks")) for (unsigned k = 0; k <= 2 * b; k++) { call("key of %u bits", k); alignas(64) FF t; memset((void *)&t, 0, sizeof t); int rc = ff_key(&t, inp(0, (k + 7) / 8), k); if (k < b) expect_rc(rc, 0, "mask derivation"); else expect_err(rc, "mask derivation"); g.transitions++; g.states++; }
    static const char *M[] = {"Initialize", "Wrap"};
    std::vector<Op> m; m.push_back(op(0, 128)); for (unsigned k : {b, b + 1, 0xFFFFFFF8u}) m.push_back(op(0, k));
    for (unsigned ad : {0u, 9u}) for (unsigned n : {0u, 8u, b + 3}) m.push_back(op(1, n, ad));
    static const size_t TAG = 64;
    explore<SANE>(M, NAME "-SANE", m, T ? 8 : 6, [=](World<SANE> &w, const Op &o) {
        if (w.phase == DEAD && o.k != 0) return false; size_t n = (o.a + 7) / 8; if (n > 1000) n = 1000;
        if (o.k == 0) { bool ok = o.a < b; both(w, ok, ok ? TAG : 0, [&](SANE &s, uint8_t *p) { return sane_init(&s, inp(0, n), o.a, in2.put(src.data(), 16), 128, p); }, "SANE initialization"); if (ok) { w.phase = ABS; w.pos = 0; } }
        else { both(w, true, n + TAG, [&](SANE &s, uint8_t *p) { return sane_wrap(&s, inp(w.pos, n), p, o.a, in2.put(src.data(), (o.b + 7) / 8), o.b, p + n); }, "SANE wrap"); w.pos++; }
        return true;
    }, [=](World<SANE> &w) { both(w, true, 3 + TAG, [&](SANE &s, uint8_t *p) { return sane_wrap(&s, inp(9, 3), p, 22, in2.put(src.data(), 2), 13, p + 3); }, "SANE wrap"); });
    explore<SANSE>(M, NAME "-SANSE", m, T ? 8 : 6, [=](World<SANSE> &w, const Op &o) {
        if (w.phase == DEAD && o.k != 0) return false; size_t n = (o.a + 7) / 8; if (n > 1000) n = 1000;
        if (o.k == 0) { bool ok = o.a < b; both(w, ok, 0, [&](SANSE &s, uint8_t *) { return sanse_init(&s, inp(0, n), o.a); }, "SANSE initialization"); if (ok) { w.phase = ABS; w.pos = 0; } }
        else { both(w, true, n + TAG, [&](SANSE &s, uint8_t *p) { return sanse_wrap(&s, inp(w.pos, n), p, o.a, in2.put(src.data(), (o.b + 7) / 8), o.b, p + n); }, "SANSE wrap"); w.pos++; }
        return true;
    }, [=](World<SANSE> &w) { both(w, true, 3 + TAG, [&](SANSE &s, uint8_t *p) { return sanse_wrap(&s, inp(9, 3), p, 22, in2.put(src.data(), 2), 13, p + 3); }, "SANSE wrap"); });
}
#endif

int main(int argc, char **argv)
{
    mc::init(argc, argv); bool T = g.thorough;
    src = data(1 << 15, 18);
#if defined(KRAVATTE) || defined(XOOFFF)
    farfalle(T);
#else
    sponge(T); turbo(T); hash(T); k12(T); sp(T); duplex(T); prg(T);
#endif
    return mc::finish();
}
