// C14: Xoodyak against Cyclist: four peers (separate buffers / in place, encrypting / decrypting) and the reference.
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "Xoodyak.h"
}
using namespace mc;
typedef Xoodyak_Instance X;
static In in1(1 << 14), in2(1 << 14), in3(1 << 14); static Out out(1 << 14);

struct Model {   // Cyclist[Xoodoo, Rhash 16, Rkin 44, Rkout 24, lratchet 16]
    uint8_t s[48]; uint8_t down, keyed; uint8_t pad[6];
    void Down(const uint8_t *x, size_t n, int cd) { for (size_t i = 0; i < n; i++) s[i] ^= x[i]; s[n] ^= 1; s[47] ^= keyed ? cd : cd & 1; down = 1; }
    void Up(uint8_t *y, size_t n, int cu) { if (keyed) s[47] ^= cu; ref::xoodoo(s, 12); down = 0; if (n) memcpy(y, s, n); }
    void absorbAny(const uint8_t *x, size_t n, size_t r, int cd)
    { do { size_t k = std::min(n, r); if (down) Up(nullptr, 0, 0); Down(x, k, cd); cd = 0; x += k; n -= k; } while (n); }
    void squeezeAny(uint8_t *y, size_t n, int cu)
    { size_t r = keyed ? 24 : 16, k = std::min(n, r); Up(y, k, cu); y += k; n -= k; while (n) { Down(nullptr, 0, 0); k = std::min(n, r); Up(y, k, 0); y += k; n -= k; } }
    void init(const Bytes &K, const Bytes &ID, const Bytes &c)
    {
        memset(this, 0, sizeof *this);
        if (K.empty()) return;
        keyed = 1; Bytes b = K; b.insert(b.end(), ID.begin(), ID.end()); b.push_back((uint8_t)ID.size());
        absorbAny(b.data(), b.size(), 44, 2); if (!c.empty()) absorbAny(c.data(), c.size(), 1, 0);
    }
    void absorb(const Bytes &x) { absorbAny(x.data(), x.size(), keyed ? 44 : 16, 3); }
    Bytes encrypt(const Bytes &p)
    { Bytes c; size_t i = 0; int cu = 0x80; do { size_t k = std::min(p.size() - i, (size_t)24); uint8_t z[24]; Up(z, k, cu); cu = 0; for (size_t j = 0; j < k; j++) c.push_back(p[i + j] ^ z[j]); Down(p.data() + i, k, 0); i += k; } while (i < p.size()); return c; }
    Bytes squeeze(size_t n, int cu) { Bytes y(n); squeezeAny(y.data(), n, cu); return y; }
    void ratchet() { Bytes b = squeeze(16, 0x10); absorbAny(b.data(), 16, 44, 0); }
};
enum { SEP, INPLACE, DEC, DECINPLACE, PEERS };
struct World { X x[PEERS]; Model m; };
struct Op { int kind = 0; size_t n = 0; };   // 0 absorb, 1 crypt, 2 squeeze, 3 squeeze key, 4 ratchet
static std::string show(const Op &o)
{ static const char *k[] = {"Absorb", "Encrypt/Decrypt", "Squeeze", "SqueezeKey", "Ratchet"}; return o.kind == 4 ? "Ratchet" : str("%s(%zu bytes)", k[o.kind], o.n); }

static void start(World &w, size_t k, size_t id, size_t c)
{
    memset((void *)&w, 0, sizeof w);
    Bytes K = data(k, 1), ID = data(id, 2), C = data(c, 3);
    for (int i = 0; i < PEERS; i++) { memset((void *)&w.x[i], 0x11 * i, sizeof(X)); Xoodyak_Initialize(&w.x[i], in1.put(K.data(), k), k, in2.put(ID.data(), id), id, in3.put(C.data(), c), c); }
    w.m.init(K, ID, C);
    g.transitions += PEERS;
}
static bool apply(World &w, const Op &o, uint32_t salt)
{
    switch (o.kind) {
    case 0: { Bytes d = data(o.n, salt); w.m.absorb(d); for (int i = 0; i < PEERS; i++) Xoodyak_Absorb(&w.x[i], in1.put(d.data(), o.n), o.n); break; }
    case 1: {
        Bytes p = data(o.n, salt), c = w.m.encrypt(p);
        Xoodyak_Encrypt(&w.x[SEP], in1.put(p.data(), o.n), out.take(o.n), o.n); out.check(c.data(), "ciphertext");
        out.take(o.n); if (o.n) memcpy(out.p, p.data(), o.n); Xoodyak_Encrypt(&w.x[INPLACE], out.p, out.p, o.n); out.check(c.data(), "ciphertext produced in place");
        Xoodyak_Decrypt(&w.x[DEC], in1.put(c.data(), o.n), out.take(o.n), o.n); out.check(p.data(), "plaintext");
        out.take(o.n); if (o.n) memcpy(out.p, c.data(), o.n); Xoodyak_Decrypt(&w.x[DECINPLACE], out.p, out.p, o.n); out.check(p.data(), "plaintext recovered in place");
        break; }
    case 2: case 3: {
        Bytes y = w.m.squeeze(o.n, o.kind == 2 ? 0x40 : 0x20);
        for (int i = 0; i < PEERS; i++) { (o.kind == 2 ? Xoodyak_Squeeze : Xoodyak_SqueezeKey)(&w.x[i], out.take(o.n), o.n); out.check(y.data(), i < DEC ? "squeezed bytes (encrypting peer)" : "squeezed bytes (decrypting peer)"); }
        break; }
    case 4: w.m.ratchet(); for (int i = 0; i < PEERS; i++) Xoodyak_Ratchet(&w.x[i]);
    }
    return true;
}
static void observe(World &w, size_t) { apply(w, Op{2, 17}, 0); }

static size_t maxd, curd; static std::vector<Op> A;
static void search(World &w, const char *what, const std::vector<Op> &alphabet, size_t depth)
{
    A = alphabet; maxd = depth;
    Search<World, Op> S; S.show = show;
    S.run(w, depth, what, [](const World &, size_t d) { curd = d; return A; },
          [](World &w, const Op &o) { apply(w, o, 10 * curd + 7); if (curd < maxd) return true; observe(w, 0); return false; }, observe);
}
static std::vector<Op> ops(bool keyed, std::initializer_list<size_t> lens)
{
    std::vector<Op> v;
    for (int k : {0, 1, 2, 3}) if (keyed || k == 0 || k == 2) for (size_t n : lens) v.push_back(Op{k, n});
    if (keyed) v.push_back(Op{4, 0});
    return v;
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool T = g.thorough, light = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "light")) light = true;
    std::unique_ptr<World> wp(new World); World &w = *wp;
    for (size_t k = 0; k <= 43; k++) if (begin("key of %zu bytes, every identifier and counter length", k))
        for (size_t id = 0; id + std::max<size_t>(k, 1) <= 43; id += light ? 3 : 1) for (size_t c = 0; c <= 18; c++) {
            call("key %zu, identifier %zu, counter %zu bytes; ", k, id, c); start(w, k, id, c); if (!k && (id || c)) { World h; start(h, 0, 0, 0); if (memcmp(&h.m, &w.m, sizeof(Model))) fail("model"); }
            apply(w, Op{0, 5}, 1); if (k) apply(w, Op{1, 5}, 2); observe(w, 0);
        }
    struct Cfg { size_t k, id, c; };
    for (Cfg c : {Cfg{0, 0, 0}, Cfg{16, 0, 0}, Cfg{16, 16, 5}, Cfg{43, 0, 1}}) {
        bool keyed = c.k > 0;
        // one long call after every short history
        std::vector<Op> pre = {Op{9, 0}}; for (auto &o : ops(keyed, {0, 1, 16, 24, 44, 50})) pre.push_back(o);
        for (auto &p : pre) if (begin("key %zu identifier %zu counter %zu; first %s; then every call of 0..%d bytes", c.k, c.id, c.c, p.kind == 9 ? "nothing" : show(p).c_str(), T ? 800 : 330)) {
            for (int k : {0, 1, 2, 3}) if (keyed || k == 0 || k == 2) for (size_t n = 0; n <= (T ? 800 : 330); n++) {
                start(w, c.k, c.id, c.c); if (p.kind != 9) apply(w, p, 4);
                Op o{k, n}; g.free_path = (p.kind == 9 ? "" : show(p) + "; ") + show(o); g.call[0] = 0;
                apply(w, o, 5); apply(w, Op{0, 3}, 6); observe(w, 0); g.states++;
            }
        }
        // call sequences
        std::vector<Op> wide = ops(keyed, {0, 1, 15, 16, 17, 23, 24, 25, 32, 43, 44, 45, 48, 72, 88, 100, 133}), mid = ops(keyed, {0, 1, 16, 17, 24, 44, 50, 72, 133}), narrow = ops(keyed, {0, 16, 24, 44, 93}), tiny = ops(keyed, {0, 24, 45});
        std::string what = str("key %zu, identifier %zu, counter %zu bytes", c.k, c.id, c.c);
        auto tree = [&](const std::vector<Op> &a, size_t depth, const char *name) {
            for (auto &f : a) if (begin("%s; all sequences of %zu calls (%s lengths) from %s", what.c_str(), depth, name, show(f).c_str())) { start(w, c.k, c.id, c.c); apply(w, f, 3); std::string h = what + "; " + show(f); search(w, h.c_str(), a, depth - 1); }
        };
        tree(wide, light ? 2 : 3, "17");
        if (!light) { tree(narrow, 4, "5"); tree(tiny, 5, "3"); }
        if (T) { tree(mid, 4, "9"); tree(narrow, 5, "5"); tree(tiny, 6, "3"); }
    }
    return mc::finish();
}
