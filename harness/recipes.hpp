// Short sessions ("recipes") that together go through every call of every interface.  The environment decides where the
// buffers and objects lie and what the data is; C19, C20 and C24 run the same recipes in different environments.
// -DKRAVATTE, -DXOOFFF or -DXOODYAK select those schemes; otherwise the Keccak ones.
#pragma once
#if defined(KRAVATTE) || defined(XOOFFF)
#include "farfalle.hpp"
#else
#include <array>
#include "mc.hpp"
extern "C" {
#ifdef XOODYAK
#include "Xoodyak.h"
#else
#include "KeccakSponge.h"
#include "KeccakHash.h"
#include "SimpleFIPS202.h"
#include "SP800-185.h"
#include "KangarooTwelve.h"
#include "TurboSHAKE.h"
#include "KeccakDuplex.h"
#include "KeccakPRG.h"
#endif
}
#endif

struct Env {
    virtual const uint8_t *in(size_t n, bool secret = true) = 0;        // next input of n bytes
    virtual const uint8_t *from(const uint8_t *p, size_t n) = 0;        // input with the bytes of an earlier output
    virtual uint8_t *inw(size_t n, size_t extra) = 0;                   // input buffer whose call may write n + extra bytes
    virtual uint8_t *out(size_t n) = 0;
    virtual void *mem(size_t size, size_t align) = 0;
    virtual void rc(long r) = 0;
    virtual void *where(size_t i) = 0;                                  // where object i is now
    virtual size_t object(size_t size, size_t align) = 0;               // makes an object
    template <class T> struct Ref_ { Env *e; size_t id; operator T *() const { return (T *)e->where(id); } };
    template <class T> Ref_<T> obj() { return Ref_<T>{this, object(sizeof(T), alignof(T))}; }
    virtual ~Env() {}
};
template <class T> using Ref = Env::Ref_<T>;   // an object that the environment may move between calls
struct Recipe {
    std::string name;
    std::vector<std::array<size_t, 2>> all, few;    // arguments: every length in bounds; boundary lengths
    std::function<void(Env &, size_t, size_t)> run;
};
static std::vector<Recipe> recipes;
static size_t B8(size_t bits) { return (bits + 7) / 8; }

/// Registers a recipe; n and m run over 0..N and 0..M (one at a time, the other at the values in fn, fm), few = fn x fm.
static void add(const std::string &name, size_t N, std::vector<size_t> fn, size_t M, std::vector<size_t> fm, std::function<void(Env &, size_t, size_t)> run)
{
    Recipe r; r.name = name; r.run = run;
    std::vector<size_t> sm = {fm[0]}; if (fm.size() > 2) sm.push_back(fm[fm.size() / 2]);
    std::vector<size_t> sn = {fn[0]}; if (fn.size() > 2) sn.push_back(fn[fn.size() / 2]);
    for (size_t n = 0; n <= N; n++) for (size_t m : sm) r.all.push_back({n, m});
    for (size_t m = 0; m <= M; m++) for (size_t n : sn) r.all.push_back({n, m});
    for (size_t n : fn) for (size_t m : fm) { r.few.push_back({n, m}); r.all.push_back({n, m}); }
    recipes.push_back(r);
}

#if !defined(KRAVATTE) && !defined(XOOFFF) && !defined(XOODYAK)
static void keccak_recipes(bool light)
{
    typedef KeccakWidth1600_SpongeInstance Sp;
    for (size_t r : {168u, 136u, 200u, 1u, 8u, 72u, 144u, 77u}) {
        size_t top = light ? r + 2 : 3 * r + 2;
        add(mc::str("KeccakWidth1600_Sponge rate %zu", 8 * r), top, {0, 1, r - 1, r, r + 1, 3 * r + 5}, top, {1, r, r + 3}, [=](Env &e, size_t n, size_t m) {
            if (!m) m = 3 * r + 3;
            const uint8_t *i = e.in(n); uint8_t *o = e.out(m); e.rc(KeccakWidth1600_Sponge(8 * r, 1600 - 8 * r, i, n, 0x1F, o, m)); });
        for (size_t pre : {(size_t)0, (size_t)1, r / 2, r - 1, r})
            add(mc::str("Sponge session rate %zu, %zu bytes first", 8 * r, pre), top, {0, 1, r, 2 * r + 1}, top, {0, r, r + 3}, [=](Env &e, size_t n, size_t m) {
                Ref<Sp> s = e.obj<Sp>(); e.rc(KeccakWidth1600_SpongeInitialize(s, 8 * r, 1600 - 8 * r));
                const uint8_t *i = e.in(pre); e.rc(KeccakWidth1600_SpongeAbsorb(s, i, pre));
                i = e.in(n); e.rc(KeccakWidth1600_SpongeAbsorb(s, i, n));
                e.rc(KeccakWidth1600_SpongeAbsorbLastFewBits(s, 0x06));
                uint8_t *o = e.out(pre); e.rc(KeccakWidth1600_SpongeSqueeze(s, o, pre));
                o = e.out(m); e.rc(KeccakWidth1600_SpongeSqueeze(s, o, m)); });
    }
    size_t T = light ? 180 : 520;
    add("SHAKE128", T, {0, 1, 167, 168, 169, 400}, T, {0, 1, 168, 400}, [](Env &e, size_t n, size_t m) { const uint8_t *i = e.in(n); uint8_t *o = e.out(m); e.rc(SHAKE128(o, m, i, n)); });
    add("SHAKE256", T, {0, 1, 135, 136, 137, 400}, T, {0, 1, 136, 400}, [](Env &e, size_t n, size_t m) { const uint8_t *i = e.in(n); uint8_t *o = e.out(m); e.rc(SHAKE256(o, m, i, n)); });
    add("SHA3-224", T, {0, 143, 144, 145}, 0, {0}, [](Env &e, size_t n, size_t) { const uint8_t *i = e.in(n); uint8_t *o = e.out(28); e.rc(SHA3_224(o, i, n)); });
    add("SHA3-256", T, {0, 135, 136, 137}, 0, {0}, [](Env &e, size_t n, size_t) { const uint8_t *i = e.in(n); uint8_t *o = e.out(32); e.rc(SHA3_256(o, i, n)); });
    add("SHA3-384", T, {0, 103, 104, 105}, 0, {0}, [](Env &e, size_t n, size_t) { const uint8_t *i = e.in(n); uint8_t *o = e.out(48); e.rc(SHA3_384(o, i, n)); });
    add("SHA3-512", T, {0, 71, 72, 73}, 0, {0}, [](Env &e, size_t n, size_t) { const uint8_t *i = e.in(n); uint8_t *o = e.out(64); e.rc(SHA3_512(o, i, n)); });
    for (size_t cap : {256u, 512u, 448u, 768u, 1024u})
        add(mc::str("Keccak_Hash capacity %zu, bit lengths", cap), light ? 300 : 2800, {0, 7, 8, 1087, 1088, 1344, 2001}, light ? 20 : 200, {0, 32, 168}, [=](Env &e, size_t n, size_t m) {
            Ref<Keccak_HashInstance> h = e.obj<Keccak_HashInstance>(); e.rc(Keccak_HashInitialize(h, 1600 - cap, cap, 8 * m, 0x06));
            const uint8_t *i = e.in(5); e.rc(Keccak_HashUpdate(h, i, 40)); i = e.in(B8(n)); e.rc(Keccak_HashUpdate(h, i, n));
            uint8_t *o = e.out(m); e.rc(Keccak_HashFinal(h, o)); o = e.out(m + 1); e.rc(Keccak_HashSqueeze(h, o, 8 * m + 8)); });
#define TWO(X) X(128) X(256)
#define SP(L) \
    for (size_t nm : {0u, 3u, 200u}) for (size_t cs : {0u, 7u, 170u}) add(mc::str("cSHAKE" #L " name %zu custom %zu", nm, cs), T, {0, 1, 168, 300}, light ? 10 : 200, {0, 33, 340}, [=](Env &e, size_t n, size_t m) { \
        Ref<cSHAKE_Instance> s = e.obj<cSHAKE_Instance>(); const uint8_t *a = e.in(nm, false), *c = e.in(cs, false); e.rc(cSHAKE##L##_Initialize(s, 8 * m, a, 8 * nm, c, 8 * cs)); \
        const uint8_t *i = e.in(n); e.rc(cSHAKE##L##_Update(s, i, 8 * n)); uint8_t *o = e.out(m); e.rc(cSHAKE##L##_Final(s, o)); if (!m) { o = e.out(13); e.rc(cSHAKE##L##_Squeeze(s, o, 104)); } }); \
    add("cSHAKE" #L " one-shot, bit lengths of input and output", 1500, {0, 9, 1344, 1355}, light ? 40 : 1500, {5, 256, 1400}, [=](Env &e, size_t n, size_t m) { if (!m) m = 2; const uint8_t *i = e.in(B8(n)), *a = e.in(2, false), *c = e.in(11, false); uint8_t *o = e.out(B8(m)); e.rc(cSHAKE##L(i, n, o, m, a, 16, c, 88)); }); \
    add("KMAC" #L ", key and customization", light ? 60 : 360, {0, 1, 32, 168, 200}, light ? 60 : 360, {0, 5, 168, 200}, [=](Env &e, size_t n, size_t m) { const uint8_t *k = e.in(n), *i = e.in(20), *c = e.in(m, false); uint8_t *o = e.out(32); e.rc(KMAC##L(k, 8 * n, i, 160, o, 256, c, 8 * m)); }); \
    add("KMAC" #L " session, message and output", T, {0, 1, 168, 300}, T, {0, 32, 200}, [=](Env &e, size_t n, size_t m) { Ref<KMAC_Instance> s = e.obj<KMAC_Instance>(); const uint8_t *k = e.in(33), *c = e.in(9, false); \
        e.rc(KMAC##L##_Initialize(s, k, 264, 8 * m, c, 72)); const uint8_t *i = e.in(n); e.rc(KMAC##L##_Update(s, i, 8 * n)); i = e.in(3); e.rc(KMAC##L##_Update(s, i, 24)); uint8_t *o = e.out(m); e.rc(KMAC##L##_Final(s, o)); if (!m) { o = e.out(200); e.rc(KMAC##L##_Squeeze(s, o, 1600)); } }); \
    for (size_t bl : {8u, 16u, 128u, 256u, 1024u}) \
        add(mc::str("ParallelHash" #L " block length %zu", bl), light ? 2 * bl + 3 : std::max<size_t>(900, 9 * bl + 3), {0, 1, bl, 4 * bl, 8 * bl + 1, 17 * bl + 1}, light ? 10 : 200, {0, 32}, [=](Env &e, size_t n, size_t m) { Ref<ParallelHash_Instance> s = e.obj<ParallelHash_Instance>(); const uint8_t *c = e.in(6, false); \
        e.rc(ParallelHash##L##_Initialize(s, bl, 8 * m, c, 48)); const uint8_t *i = e.in(3 % bl); e.rc(ParallelHash##L##_Update(s, i, 8 * (3 % bl))); i = e.in(n); e.rc(ParallelHash##L##_Update(s, i, 8 * n)); uint8_t *o = e.out(m); e.rc(ParallelHash##L##_Final(s, o)); if (!m) { o = e.out(20); e.rc(ParallelHash##L##_Squeeze(s, o, 160)); } }); \
    add("ParallelHash" #L " one-shot", T, {0, 1, 64, 512, 513}, T, {1, 32, 200}, [=](Env &e, size_t n, size_t m) { if (!m) m = 77; const uint8_t *i = e.in(n), *c = e.in(1, false); uint8_t *o = e.out(m); e.rc(ParallelHash##L(i, 8 * n, 64, o, 8 * m, c, 8)); }); \
    add("TupleHash" #L, T, {0, 1, 168, 300}, light ? 30 : 360, {0, 1, 167, 200}, [=](Env &e, size_t n, size_t m) { Ref<TupleHash_Instance> s = e.obj<TupleHash_Instance>(); const uint8_t *c = e.in(m, false); \
        TupleElement *t = (TupleElement *)e.mem(3 * sizeof(TupleElement), alignof(TupleElement)); t[0].input = e.in(n); t[0].inputBitLen = 8 * n; t[1].input = e.in(m); t[1].inputBitLen = 8 * m; t[2].input = e.in(1); t[2].inputBitLen = 8; \
        e.rc(TupleHash##L##_Initialize(s, 8 * 32, c, 8 * m)); e.rc(TupleHash##L##_Update(s, t, 3)); e.rc(TupleHash##L##_Update(s, t, 1)); uint8_t *o = e.out(32); e.rc(TupleHash##L##_Final(s, o)); \
        o = e.out(m ? m : 5); e.rc(TupleHash##L(t, 2, o, 8 * (m ? m : 5), c, 8 * m)); });
    TWO(SP)
    for (int lvl : {128, 256}) {
        size_t r = lvl == 128 ? 168 : 136;
        add(mc::str("KT%d one-shot", lvl), light ? r : 3 * r, {0, 1, r, 8191, 8192, 8193, 16384, 2 * 8192 + 1, 4 * 8192, 5 * 8192 + 7, 9 * 8192, 17 * 8192 + 100}, light ? r : 3 * r, {0, 1, r, 8192}, [=](Env &e, size_t n, size_t m) {
            const uint8_t *i = e.in(n), *c = e.in(m, false); uint8_t *o = e.out(32 + m % 300); e.rc(KangarooTwelve(lvl, i, n, o, 32 + m % 300, c, m)); });
        for (size_t pre : {1u, 8191u, 8192u, 8200u, 16383u})
            add(mc::str("KT%d session, %zu bytes first", lvl, pre), light ? 20 : 200, {0, 1, r, 8191, 8192, 8193, 4 * 8192, 8 * 8192 + 1, 9 * 8192 + 9}, light ? 20 : 200, {0, 1, r, 600}, [=](Env &e, size_t n, size_t m) {
                Ref<KangarooTwelve_Instance> s = e.obj<KangarooTwelve_Instance>(); e.rc(KangarooTwelve_Initialize(s, lvl, m)); const uint8_t *i = e.in(pre); e.rc(KangarooTwelve_Update(s, i, pre)); i = e.in(n); e.rc(KangarooTwelve_Update(s, i, n));
                const uint8_t *c = e.in(4, false); uint8_t *o = e.out(m); e.rc(KangarooTwelve_Final(s, o, c, 4)); if (!m) { o = e.out(40); e.rc(KangarooTwelve_Squeeze(s, o, 40)); } });
    }
    for (size_t cap : {256u, 512u, 0u, 8u}) {
        size_t r = 200 - cap / 8;
        add(mc::str("TurboSHAKE capacity %zu", cap), light ? r : 3 * r, {0, 1, r - 1, r, 3 * r + 1}, light ? r : 3 * r, {1, r, 2 * r + 1}, [=](Env &e, size_t n, size_t m) { const uint8_t *i = e.in(n); uint8_t *o = e.out(m); e.rc(TurboSHAKE(cap, i, n, 0x1F, o, m));
            Ref<TurboSHAKE_Instance> s = e.obj<TurboSHAKE_Instance>(); e.rc(TurboSHAKE_Initialize(s, cap)); i = e.in(5); e.rc(TurboSHAKE_Absorb(s, i, 5)); i = e.in(n); e.rc(TurboSHAKE_Absorb(s, i, n)); e.rc(TurboSHAKE_AbsorbDomainSeparationByte(s, 0x0B)); o = e.out(m); e.rc(TurboSHAKE_Squeeze(s, o, m)); o = e.out(n); e.rc(TurboSHAKE_Squeeze(s, o, n)); });
    }
    for (size_t rate : {1346u, 1088u, 579u, 1600u, 1026u, 10u}) {
        size_t r = (rate + 7) / 8, q = (rate - 2) / 8;   // r: output bytes, q: input bytes that always fit
        typedef KeccakWidth1600_DuplexInstance Du;
        add(mc::str("duplex rate %zu", rate), q, {0, 1, q / 2, q}, q, {0, 1, q / 2, q}, [=](Env &e, size_t n, size_t m) {
            Ref<Du> d = e.obj<Du>(); e.rc(KeccakWidth1600_DuplexInitialize(d, rate, 1600 - rate)); const uint8_t *i = e.in(n); uint8_t *o = e.out(m);
            e.rc(KeccakWidth1600_Duplexing(d, i, n, o, m, 1)); o = e.out(r - m); e.rc(KeccakWidth1600_DuplexingGetFurtherOutput(d, o, r - m));
            i = e.in(n); e.rc(KeccakWidth1600_DuplexingFeedPartialInput(d, i, n)); i = e.in(q - n); o = e.out(r); e.rc(KeccakWidth1600_Duplexing(d, i, q - n, o, r, 1));
            i = e.in(n); e.rc(KeccakWidth1600_DuplexingOverwritePartialInput(d, i, n)); e.rc(KeccakWidth1600_DuplexingFeedZeroes(d, (q - n) / 2)); o = e.out(m); e.rc(KeccakWidth1600_Duplexing(d, i, 0, o, m, 1));
            i = e.in(r - m); o = e.out(r - m); e.rc(KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(d, i, o, r - m));
            e.rc(KeccakWidth1600_DuplexingOverwriteWithZeroes(d, n)); o = e.out(r); e.rc(KeccakWidth1600_Duplexing(d, i, 0, o, r, 1)); });
    }
    for (size_t cap : {254u, 510u, 1026u, 6u}) {
        size_t r = (1600 - cap) / 8;   // about rhoInBytes
        typedef KeccakWidth1600_SpongePRG_Instance Pr;
        add(mc::str("PRG capacity %zu", cap), light ? r : 3 * r, {0, 1, r - 1, r, 2 * r + 3}, light ? r : 3 * r, {0, 1, r - 1, r, 2 * r + 3}, [=](Env &e, size_t n, size_t m) {
            Ref<Pr> p = e.obj<Pr>(); e.rc(KeccakWidth1600_SpongePRG_Initialize(p, cap)); const uint8_t *i = e.in(n); e.rc(KeccakWidth1600_SpongePRG_Feed(p, i, n)); uint8_t *o = e.out(m); e.rc(KeccakWidth1600_SpongePRG_Fetch(p, o, m));
            i = e.in(m); e.rc(KeccakWidth1600_SpongePRG_Feed(p, i, m)); o = e.out(n); e.rc(KeccakWidth1600_SpongePRG_Fetch(p, o, n)); if (cap <= 800) e.rc(KeccakWidth1600_SpongePRG_Forget(p)); o = e.out(7); e.rc(KeccakWidth1600_SpongePRG_Fetch(p, o, 7)); });
    }
}
static const char *PART = "Keccak";
#endif

#ifdef XOODYAK
static void keccak_recipes(bool light)
{
    auto keyed = [](Env &e, size_t kl, size_t id, size_t ct) { Ref<Xoodyak_Instance> x = e.obj<Xoodyak_Instance>(); const uint8_t *k = e.in(kl), *i = e.in(id, false), *c = e.in(ct, false); Xoodyak_Initialize(x, k, kl, i, id, c, ct); e.rc(0); return x; };
    size_t T = light ? 60 : 400;
    add("Xoodyak hash", T, {0, 1, 15, 16, 17, 49}, T, {0, 1, 16, 33, 100}, [=](Env &e, size_t n, size_t m) { Ref<Xoodyak_Instance> x = keyed(e, 0, 0, 0); const uint8_t *i = e.in(n); Xoodyak_Absorb(x, i, n); e.rc(0); uint8_t *o = e.out(m); Xoodyak_Squeeze(x, o, m); e.rc(0); i = e.in(m); Xoodyak_Absorb(x, i, m); e.rc(0); o = e.out(n); Xoodyak_Squeeze(x, o, n); e.rc(0); });
    add("Xoodyak keys", 43, {1, 16, 32, 43}, 27, {0, 1, 16}, [=](Env &e, size_t n, size_t m) { if (n < 1) n = 1; size_t id = m < 43 - n ? m : 43 - n; Ref<Xoodyak_Instance> x = keyed(e, n, id, m); uint8_t *o = e.out(32); Xoodyak_SqueezeKey(x, o, 32); e.rc(0); Xoodyak_Ratchet(x); e.rc(0); o = e.out(16); Xoodyak_Squeeze(x, o, 16); e.rc(0); });
    add("Xoodyak AEAD", T, {0, 1, 24, 44, 45, 150}, T, {0, 1, 23, 24, 25, 48, 100}, [=](Env &e, size_t n, size_t m) {
        Ref<Xoodyak_Instance> x = keyed(e, 16, 16, 0); const uint8_t *i = e.in(n, false); Xoodyak_Absorb(x, i, n); e.rc(0); i = e.in(m); uint8_t *c = e.out(m); Xoodyak_Encrypt(x, i, c, m); e.rc(0); uint8_t *t = e.out(16); Xoodyak_Squeeze(x, t, 16); e.rc(0);
        Ref<Xoodyak_Instance> y = keyed(e, 16, 16, 0); i = e.in(n, false); Xoodyak_Absorb(y, i, n); e.rc(0); i = e.from(c, m); uint8_t *p = e.out(m); Xoodyak_Decrypt(y, i, p, m); e.rc(0); p = e.out(m); Xoodyak_Squeeze(y, p, m); e.rc(0);
        Xoodyak_Ratchet(x); e.rc(0); i = e.in(n); p = e.out(n); Xoodyak_Encrypt(x, i, p, n); e.rc(0); p = e.out(n); Xoodyak_SqueezeKey(x, p, n); e.rc(0); });
}
static const char *PART = "Xoodyak";
#endif

#if defined(KRAVATTE) || defined(XOOFFF)
#ifdef KRAVATTE
typedef Kravatte_SANE_Instance SaneI; typedef Kravatte_SANSE_Instance SanseI;
static const auto sane_init = Kravatte_SANE_Initialize; static const auto sane_wrap = Kravatte_SANE_Wrap; static const auto sane_unwrap = Kravatte_SANE_Unwrap;
static const auto sanse_init = Kravatte_SANSE_Initialize; static const auto sanse_wrap = Kravatte_SANSE_Wrap; static const auto sanse_unwrap = Kravatte_SANSE_Unwrap;
static const auto wbc_enc = Kravatte_WBC_Encipher; static const auto wbc_dec = Kravatte_WBC_Decipher; static const auto ae_enc = Kravatte_WBCAE_Encipher; static const auto ae_dec = Kravatte_WBCAE_Decipher;
#else
typedef XoofffSANE_Instance SaneI; typedef XoofffSANSE_Instance SanseI;
static const auto sane_init = XoofffSANE_Initialize; static const auto sane_wrap = XoofffSANE_Wrap; static const auto sane_unwrap = XoofffSANE_Unwrap;
static const auto sanse_init = XoofffSANSE_Initialize; static const auto sanse_wrap = XoofffSANSE_Wrap; static const auto sanse_unwrap = XoofffSANSE_Unwrap;
static const auto wbc_enc = XoofffWBC_Encipher; static const auto wbc_dec = XoofffWBC_Decipher; static const auto ae_enc = XoofffWBCAE_Encipher; static const auto ae_dec = XoofffWBCAE_Decipher;
#endif
static void keccak_recipes(bool light)
{
    const size_t K = 24, P = MAXPAR, batch = P * BB, T = light ? 2 * BB : batch + 2 * BB + 5;
    std::vector<size_t> f = {0, 1, BB - 1, BB, BB + 1, 2 * BB, batch - 1, batch, batch + BB + 3, 3 * batch + 1};
    auto key = [=](Env &e, size_t n) { Ref<FF> k = e.obj<FF>(); const uint8_t *p = e.in(B8(n)); e.rc(ff_key(k, p, n)); return k; };
    add(NAME " keys", 8 * BB - 1, {0, 1, 128, 8 * BB - 1}, 0, {0}, [=](Env &e, size_t n, size_t) { FF *k = key(e, n); const uint8_t *i = e.in(9); uint8_t *o = e.out(9); e.rc(ff_all(k, i, 72, o, 72, 0)); });
    for (int fl : {0, (int)SHORT})
        add(mc::str(NAME " one-shot%s", fl ? " short" : ""), T, f, T, f, [=](Env &e, size_t n, size_t m) { FF *k = key(e, 8 * K); const uint8_t *i = e.in(n); uint8_t *o = e.out(m); e.rc(ff_all(k, i, 8 * n, o, 8 * m, fl)); });
    for (size_t pre : {(size_t)1, BB - 1, BB, BB + 7})
        add(mc::str(NAME " session, %zu bytes first", pre), T, {0, 1, BB - 1, BB, batch, batch + 1}, T, {0, 1, BB - 1, BB, batch, batch + 1}, [=](Env &e, size_t n, size_t m) { FF *k = key(e, 8 * K);
            const uint8_t *i = e.in(pre); e.rc(ff_in(k, i, 8 * pre, INIT)); i = e.in(n); e.rc(ff_in(k, i, 8 * n, 0)); i = e.in(B8(11)); e.rc(ff_in(k, i, 11, LAST));
            uint8_t *o = e.out(pre); e.rc(ff_out(k, o, 8 * pre, 0)); o = e.out(m); e.rc(ff_out(k, o, 8 * m, 0)); o = e.out(B8(13)); e.rc(ff_out(k, o, 13, LAST)); });
    for (bool siv : {false, true}) {
        size_t tag = siv ? 32 : 16;
        auto fn = [=](Env &e, size_t a, size_t d) {
            size_t by = B8(d); const uint8_t *kk = e.in(K), *nn = e.in(16, false); Ref<SaneI> s{}; Ref<SanseI> z{}; uint8_t *t = nullptr, *u, *c;
            if (siv) { z = e.obj<SanseI>(); e.rc(sanse_init(z, kk, 8 * K)); } else { s = e.obj<SaneI>(); t = e.out(tag); e.rc(sane_init(s, kk, 8 * K, nn, 128, t)); }
            const uint8_t *i = e.in(by), *ad = e.in(a, false); c = e.out(by); u = e.out(tag); e.rc(siv ? sanse_wrap(z, i, c, d, ad, 8 * a, u) : sane_wrap(s, i, c, d, ad, 8 * a, u));
            const uint8_t *i2 = e.in(a); uint8_t *c2 = e.out(a), *u2 = e.out(tag); e.rc(siv ? sanse_wrap(z, i2, c2, 8 * a, ad, 0, u2) : sane_wrap(s, i2, c2, 8 * a, ad, 0, u2));
            Ref<SaneI> s2{}; Ref<SanseI> z2{};
            if (siv) { z2 = e.obj<SanseI>(); e.rc(sanse_init(z2, kk, 8 * K)); } else { s2 = e.obj<SaneI>(); t = e.out(tag); e.rc(sane_init(s2, kk, 8 * K, nn, 128, t)); }
            const uint8_t *ci = e.from(c, by), *ti = e.from(u, tag); uint8_t *p = e.out(by); e.rc(siv ? sanse_unwrap(z2, ci, p, d, ad, 8 * a, ti) : sane_unwrap(s2, ci, p, d, ad, 8 * a, ti));
            ci = e.from(c2, a); ti = e.from(u2, tag); p = e.out(a); e.rc(siv ? sanse_unwrap(z2, ci, p, 8 * a, ad, 0, ti) : sane_unwrap(s2, ci, p, 8 * a, ad, 0, ti)); };
        add(mc::str(NAME " %s bit lengths", siv ? "SANSE" : "SANE"), 40, {0, 1, 16}, light ? 200 : 8 * 2 * BB + 9, {0, 1, 8 * BB - 1, 8 * BB}, fn);
        add(mc::str(NAME " %s", siv ? "SANSE" : "SANE"), T, {0, 1, 16, BB, batch + 1}, T, {0, 1, BB - 1, BB, batch - 16, batch, batch + BB + 1}, [=](Env &e, size_t a, size_t d) { fn(e, a, 8 * d); });
    }
    add(NAME " WBC", light ? 3 * BB : 3 * batch, {0, 1, 2, 2 * BB, 2 * BB + 1, batch, 3 * batch + 3}, light ? 3 : 2 * BB, {0, 1, BB, BB + 1}, [=](Env &e, size_t n, size_t m) { FF *k = key(e, 8 * K); const uint8_t *i = e.in(n), *w = e.in(m, false); uint8_t *o = e.out(n); e.rc(wbc_enc(k, i, o, 8 * n, w, 8 * m)); i = e.from(o, n); o = e.out(n); e.rc(wbc_dec(k, i, o, 8 * n, w, 8 * m)); });
    add(NAME " WBC bit lengths", light ? 100 : 8 * 2 * BB, {0, 1, 2, 9, 8 * BB - 1, 8 * BB + 1}, light ? 3 : 40, {0, 1, 7}, [=](Env &e, size_t n, size_t m) { FF *k = key(e, 8 * K); const uint8_t *i = e.in(B8(n)), *w = e.in(B8(m), false); uint8_t *o = e.out(B8(n)); e.rc(wbc_enc(k, i, o, n, w, m)); i = e.from(o, B8(n)); o = e.out(B8(n)); e.rc(wbc_dec(k, i, o, n, w, m)); });
    add(NAME " WBC-AE", light ? 2 * BB : 3 * batch, {0, 1, BB, 2 * BB + 1, batch, 3 * batch + 3}, light ? 3 : 2 * BB, {0, 1, BB, BB + 1}, [=](Env &e, size_t n, size_t m) { FF *k = key(e, 8 * K); uint8_t *i = e.inw(n, 16); const uint8_t *w = e.in(m, false); uint8_t *o = e.out(n + 16); e.rc(ae_enc(k, i, o, 8 * n, w, 8 * m)); const uint8_t *c = e.from(o, n + 16); o = e.out(n + 16); e.rc(ae_dec(k, c, o, 8 * n, w, 8 * m)); });
}
static const char *PART = NAME;
#endif
