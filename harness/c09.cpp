// C09 (Kravatte), C12 (Xoofff): SANE and SANSE sessions.
#include "farfalle.hpp"
using namespace mc;
using ref::Bits;
#ifdef KRAVATTE
typedef Kravatte_SANE_Instance SANE; typedef Kravatte_SANSE_Instance SANSE;
static const auto sane_init = Kravatte_SANE_Initialize; static const auto sane_wrap = Kravatte_SANE_Wrap; static const auto sane_unwrap = Kravatte_SANE_Unwrap;
static const auto sanse_init = Kravatte_SANSE_Initialize; static const auto sanse_wrap = Kravatte_SANSE_Wrap; static const auto sanse_unwrap = Kravatte_SANSE_Unwrap;
#else
typedef XoofffSANE_Instance SANE; typedef XoofffSANSE_Instance SANSE;
static const auto sane_init = XoofffSANE_Initialize; static const auto sane_wrap = XoofffSANE_Wrap; static const auto sane_unwrap = XoofffSANE_Unwrap;
static const auto sanse_init = XoofffSANSE_Initialize; static const auto sanse_wrap = XoofffSANSE_Wrap; static const auto sanse_unwrap = XoofffSANSE_Unwrap;
#endif
enum { SANE_T = 16, SANSE_T = 32 };
static In in1(1 << 16), in2(1 << 16), in3(64); static Out out(1 << 16), tagout(64);

/// Both modes behind one face.
struct Obj { union { ROOM(SANE) a; ROOM(SANSE) b; }; Obj() {} };
struct Model { Farfalle f; int e; };
static Bits with(Bits m, std::initializer_list<int> bits) { for (int b : bits) m.bit(b); return m; }

static Bytes m_start(bool se, Model &m, const Bits &key, const Bits &nonce)
{ m.f = Farfalle(key); m.e = 0; if (se) return {}; m.f.string(nonce); return m.f.out(0, 8 * SANE_T); }
static void m_wrap(bool se, Model &m, const Bits &ad, const Bits &p, Bits &c, Bytes &tag)
{
    if (!se) {
        c = p; if (p.n) { Bytes z = m.f.out(SANE_T, p.n); for (size_t i = 0; i < z.size(); i++) c.b[i] ^= z[i]; }
        if (ad.n || !p.n) m.f.string(with(ad, {0, m.e}));
        if (p.n) m.f.string(with(c, {1, m.e}));
        tag = m.f.out(0, 8 * SANE_T);
    } else {
        if (ad.n || !p.n) m.f.string(with(ad, {0, m.e}));
        if (p.n) {
            Farfalle h = m.f, n = m.f; n.string(with(p, {0, 1, m.e})); tag = n.out(0, 8 * SANSE_T);
            h.string(with(Bits(tag), {1, 1, m.e}));
            c = p; Bytes z = h.out(0, p.n); for (size_t i = 0; i < z.size(); i++) c.b[i] ^= z[i];
            m.f = n;
        } else { c = p; tag = m.f.out(0, 8 * SANSE_T); }
    }
    m.e ^= 1;
}
static void l_start(bool se, Obj &o, const Bits &key, const Bits &nonce, const Bytes *want)
{
    memset((void *)&o, 0x95, sizeof o); Bytes k = dirty(key), n = dirty(nonce);
    if (se) { expect_rc(sanse_init(&o.b, in1.put(k.data(), k.size()), key.n), 0, "SANSE Initialize"); return; }
    expect_rc(sane_init(&o.a, in1.put(k.data(), k.size()), key.n, in2.put(n.data(), n.size()), nonce.n, tagout.take(SANE_T)), 0, "SANE Initialize");
    if (want) tagout.check(want->data(), "initial tag");
}
static void l_wrap(bool se, Obj &o, const Bits &ad, const Bits &p, const Bits &c, const Bytes &tag)
{
    Bytes a = dirty(ad), pp = dirty(p);
    const uint8_t *pa = in1.put(a.data(), a.size()), *ppp = in2.put(pp.data(), pp.size()); uint8_t *t = tagout.take(tag.size());
    int rc = se ? sanse_wrap(&o.b, ppp, out.take(by(p.n)), p.n, pa, ad.n, t) : sane_wrap(&o.a, ppp, out.take(by(p.n)), p.n, pa, ad.n, t);
    expect_rc(rc, 0, "Wrap"); out.check(c.b.data(), "ciphertext"); tagout.check(tag.data(), "tag");
}
static int l_unwrap(bool se, Obj &o, const Bits &ad, const Bits &c, const Bytes &tag)
{
    Bytes a = dirty(ad), cc = dirty(c);
    const uint8_t *pa = in1.put(a.data(), a.size()), *pc = in2.put(cc.data(), cc.size()), *t = in3.put(tag.data(), tag.size());
    return se ? sanse_unwrap(&o.b, pc, out.take(by(c.n)), c.n, pa, ad.n, t) : sane_unwrap(&o.a, pc, out.take(by(c.n)), c.n, pa, ad.n, t);
}
static void accepted(bool se, Obj &o, const Bits &ad, const Bits &p, const Bits &c, const Bytes &tag)
{ expect_rc(l_unwrap(se, o, ad, c, tag), 0, "Unwrap of an authentic message"); out.check(p.b.data(), "recovered plaintext"); }
static void rejected(bool se, const Obj &o, const Bits &ad, const Bits &c, const Bytes &tag, const char *what)
{
    Obj u; memcpy((void *)&u, (const void *)&o, sizeof u);
    expect_err(l_unwrap(se, u, ad, c, tag), what);
    Bytes zero(by(c.n) + 1, 0); out.check(zero.data(), "plaintext buffer after a rejected message (to be zeroes)");
    g.transitions++;
}
static void exchange(bool se, Model &m, Obj &w, Obj &u, const Bits &ad, const Bits &p)
{ Bits c; Bytes tag; m_wrap(se, m, ad, p, c, tag); l_wrap(se, w, ad, p, c, tag); accepted(se, u, ad, p, c, tag); g.states++; g.transitions += 2; }

static void lengths(bool se, size_t kb, size_t nb, size_t ad, size_t p)
{   // two messages, so that both values of e are seen
    call("key %zu, nonce %zu, AD %zu, data %zu bits", kb, nb, ad, p);
    Bits key = bits_of(kb, 1), nonce = bits_of(nb, 2); Model m; Obj w, u; Bytes t = m_start(se, m, key, nonce);
    l_start(se, w, key, nonce, &t); l_start(se, u, key, nonce, &t);
    exchange(se, m, w, u, bits_of(ad, 3), bits_of(p, 4));
    exchange(se, m, w, u, bits_of(ad, 5), bits_of(p, 6));
}

struct Op { int ad = 0, p = 0; };
struct World { Obj w, u; Model m; };
static std::vector<size_t> AL, PL; static bool SE; static size_t maxd, curd;
static std::string show(const Op &o) { return str("message(AD %zu bits, data %zu bits)", AL[o.ad], PL[o.p]); }
static void sessions(bool se, size_t depth)
{
    SE = se; maxd = depth;
    AL = {0, 1, 7, 8, 8 * BB - 2, 8 * BB, 8 * BB * 2 + 5}; PL = {0, 1, 6, 8, 8 * BB - 1, 8 * BB - 8 * SANE_T, 8 * BB * 2 + 3};
    std::unique_ptr<World> w(new World); memset((void *)w.get(), 0, sizeof(World));
    Bits key = bits_of(160, 1), nonce = bits_of(9, 2); Bytes t = m_start(se, w->m, key, nonce); l_start(se, w->w, key, nonce, &t); l_start(se, w->u, key, nonce, &t);
    Search<World, Op> S; S.show = show;
    S.run(*w, depth, "key 160 bits, nonce 9 bits", [&](const World &, size_t d) { curd = d; std::vector<Op> v; for (int a = 0; a < (int)AL.size(); a++) for (int p = 0; p < (int)PL.size(); p++) { Op o; o.ad = a; o.p = p; v.push_back(o); } return v; },
        [&](World &w, const Op &o) { exchange(SE, w.m, w.w, w.u, bits_of(AL[o.ad], 10 + curd), bits_of(PL[o.p], 20 + curd)); return curd < maxd; }, [](World &, size_t) {});
}
static void tamper(bool se, size_t before, size_t ad, size_t p)
{
    size_t kb = 131, nb = 77;
    Bits key = bits_of(kb, 1), nonce = bits_of(nb, 2); Model m; Obj w, u; Bytes t = m_start(se, m, key, nonce);
    l_start(se, w, key, nonce, &t); l_start(se, u, key, nonce, &t);
    struct Msg { Bits ad, p, c; Bytes tag; }; std::vector<Msg> prev;
    for (size_t i = 0; i < before; i++) { Msg x; x.ad = bits_of(i * 11, 30 + i); x.p = bits_of(i % 2 ? 0 : 40, 40 + i); m_wrap(se, m, x.ad, x.p, x.c, x.tag); l_wrap(se, w, x.ad, x.p, x.c, x.tag); accepted(se, u, x.ad, x.p, x.c, x.tag); prev.push_back(x); }
    Bits A = bits_of(ad, 3), P = bits_of(p, 4), C; Bytes T; Model m0 = m; m_wrap(se, m, A, P, C, T); l_wrap(se, w, A, P, C, T);
    call("%zu messages before, AD %zu bits, data %zu bits", before, ad, p);
    auto flip = [](Bits b, size_t i) { b.b[i / 8] ^= (uint8_t)(1 << i % 8); return b; };
    for (size_t i = 0; i < ad; i++) rejected(se, u, flip(A, i), C, T, str("message with bit %zu of the associated data flipped", i).c_str());
    for (size_t i = 0; i < p; i++) rejected(se, u, A, flip(C, i), T, str("message with bit %zu of the ciphertext flipped", i).c_str());
    for (size_t i = 0; i < 8 * T.size(); i++) { Bytes T2 = T; T2[i / 8] ^= (uint8_t)(1 << i % 8); rejected(se, u, A, C, T2, str("message with bit %zu of the tag flipped", i).c_str()); }
    for (int d = 0; d < 2; d++) { Bits A2 = A; A2.bit(d); rejected(se, u, A2, C, T, "longer associated data"); Bits C2 = C; C2.bit(d); rejected(se, u, A, C2, T, "longer ciphertext"); }
    if (ad) { rejected(se, u, A.sub(0, ad - 1), C, T, "shorter associated data"); rejected(se, u, Bits(), C, T, "dropped associated data"); }
    if (p) { rejected(se, u, A, C.sub(0, p - 1), T, "shorter ciphertext"); rejected(se, u, A, Bits(), T, "dropped ciphertext"); }
    if (!(A == C)) rejected(se, u, C, A, T, "swapped associated data and ciphertext");
    // order: skipping the message, replaying an earlier one, repeating this one
    { Bits A3 = bits_of(17, 8), P3 = bits_of(50, 9), C3; Bytes T3; Model n = m; m_wrap(se, n, A3, P3, C3, T3); rejected(se, u, A3, C3, T3, "message received one too early"); }
    for (auto &x : prev) rejected(se, u, x.ad, x.c, x.tag, "earlier message replayed");
    accepted(se, u, A, P, C, T);
    rejected(se, u, A, C, T, "message repeated");
    // key and nonce, with the whole exchange replayed up to here
    auto other = [&](const Bits &k, const Bits &n, const char *what) {
        Obj o; l_start(se, o, k, n, nullptr);
        if (!se && memcmp(tagout.p, t.data(), t.size()) == 0) fail("same initial tag with %s", what);
        if (!prev.empty()) rejected(se, o, prev[0].ad, prev[0].c, prev[0].tag, what); else rejected(se, o, A, C, T, what);
    };
    for (size_t i = 0; i < kb; i++) other(flip(key, i), nonce, "one key bit flipped");
    { Bits k = key; k.bit(0); other(k, nonce, "key one bit longer"); }
    if (!se) { for (size_t i = 0; i < nb; i++) other(key, flip(nonce, i), "one nonce bit flipped"); Bits n = nonce; n.bit(0); other(key, n, "nonce one bit longer"); }
    g.states++;
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool T = g.thorough, light = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "light")) light = true;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "mix")) {
#ifdef ROOMY
        mc::mix_scenario();
#endif
        for (bool se : {false, true}) {
            if (begin("%s: data and AD around every number of blocks", se ? NAME "-SANSE" : NAME "-SANE")) for (size_t b = 0; b <= 2 * MAXPAR + 2; b++) for (int d : {0, 3, 9}) { lengths(se, 128, 96, 5, 8 * BB * b + d); lengths(se, 128, 96, 8 * BB * b + d, 21); }
            if (begin("%s: all sessions of 2 messages", se ? NAME "-SANSE" : NAME "-SANE")) sessions(se, 2);
        }
        return mc::finish();
    }
    size_t step = light ? 5 : 1;
    for (bool se : {false, true}) {
        const char *N = se ? NAME "-SANSE" : NAME "-SANE";
        if (begin("%s: every key bit length", N)) for (size_t k = 0; k < 8 * BB; k += step) lengths(se, k, 64, 3, 12);
        if (!se && begin("%s: every nonce bit length", N)) for (size_t n = 0; n <= 8 * (2 * BB + 1); n += step) lengths(se, 128, n, 0, 12);
        for (size_t p : {(size_t)0, (size_t)13, 8 * BB + 1}) if (begin("%s: every AD bit length, data %zu bits", N, p)) for (size_t a = 0; a <= 8 * (2 * BB + 1); a += step) lengths(se, 128, 96, a, p);
        for (size_t a : {(size_t)0, (size_t)11, 8 * BB - 1}) if (begin("%s: every data bit length, AD %zu bits", N, a)) for (size_t p = 0; p <= 8 * (2 * BB + 1); p += step) lengths(se, 128, 96, a, p);
        if (begin("%s: all short AD and data lengths", N)) for (size_t a = 0; a <= 34; a++) for (size_t p = 0; p <= 34; p++) lengths(se, 128, 96, a, p);
        if (begin("%s: data around every number of blocks", N)) for (size_t b = 1; b <= 2 * MAXPAR + 2; b++) for (int d = -9; d <= 9; d += 3) for (int off : {0, -SANE_T * 8}) lengths(se, 128, 96, 5, 8 * BB * b + d + off);
        if (begin("%s: AD around every number of blocks", N)) for (size_t b = 1; b <= 2 * MAXPAR + 2; b++) for (int d = -9; d <= 9; d += 3) lengths(se, 128, 96, 8 * BB * b + d, 21);
        if (begin("%s: all sessions of %d messages", N, T ? 4 : light ? 2 : 3)) sessions(se, T ? 4 : light ? 2 : 3);
        std::vector<size_t> L = {0, 1, 7, 8, 9, 64, 8 * BB - 2, 8 * BB - 1, 8 * BB + 5}; if (light) L = {0, 7, 8 * BB + 5}; if (T) { L.push_back(8 * BB * 3); L.push_back(8 * BB * 5 + 1); }
        for (size_t before : {0, 1, 2}) for (size_t a : L) for (size_t p : L) if (begin("%s: tampering after %zu messages, AD %zu bits, data %zu bits", N, before, a, p)) tamper(se, before, a, p);
    }
    return mc::finish();
}
