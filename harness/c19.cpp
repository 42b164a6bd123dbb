// C19: only the caller's exact buffers are touched, at any alignment, whatever memory contains beforehand.
// Every recipe (recipes.hpp) runs at every length with its buffers and objects at many placements; the outputs must be those of the first
// placement.  Inputs lie in read-only pages; nothing but the given bytes is accessible on one side, the bytes on the other are watched.
#include "recipes.hpp"
#include <alloca.h>
using namespace mc;

#ifdef ASAN
extern "C" const char *__asan_get_report_description(void); extern "C" void *__asan_get_report_address(void);
extern "C" void __asan_on_error() { report(str("%s at %p (found by the address checks compiled into the library)", __asan_get_report_description(), __asan_get_report_address()).c_str()); _exit(3); }
extern "C" const char *__asan_default_options() { return "handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:detect_leaks=0:use_sigaltstack=0:detect_stack_use_after_return=0"; }
#endif
enum { END, START, MID };
struct Placement { int in, out, obj; unsigned ia, oa; uint8_t fill, around, paint; };

struct PlaceEnv : Env {
    Placement p; Bytes log;
    std::vector<std::unique_ptr<Area>> ins, outs, objs; size_t ni, no, nm; unsigned salt;
    struct Given { uint8_t *p; size_t n; }; std::vector<Given> given;
    static const size_t CAP = 192 << 10, G = 128;
    void start(const Placement &q) { p = q; log.clear(); ni = no = nm = 0; salt = 0; given.clear(); places.clear(); }
    static Area &area(std::vector<std::unique_ptr<Area>> &v, size_t i, size_t cap) { while (v.size() <= i) v.emplace_back(new Area(cap)); return *v[i]; }
    const uint8_t *put(const uint8_t *src, size_t n)
    {
        Area &a = area(ins, ni, CAP); if (n + 512 > a.cap) { fprintf(stderr, "harness: input too long\n"); exit(2); }
        size_t o = p.in == END ? a.cap - n : p.in == START ? 0 : 256 + (p.ia + 5 * ni) % 64; ni++;
        if (p.in != START) memset(a.w + o - G, p.around, G);
        if (n) memcpy(a.w + o, src, n);
        if (p.in != END) memset(a.w + o + n, p.around, G);
        return a.r + o;
    }
    const uint8_t *in(size_t n, bool) override { Bytes d = data(n, 100 + salt++); return put(d.data(), n); }
    const uint8_t *from(const uint8_t *q, size_t n) override { return put(q, n); }
    uint8_t *buffer(size_t n, uint8_t fill)
    {
        Area &a = area(outs, no, CAP); if (n + 512 > a.cap) { fprintf(stderr, "harness: output too long\n"); exit(2); }
        size_t o = p.out == END ? a.cap - n : p.out == START ? 0 : 256 + (p.oa + 9 * no) % 64; no++;
        if (p.out != START) memset(a.w + o - G, p.around, G);
        memset(a.w + o, fill, n);
        if (p.out != END) memset(a.w + o + n, p.around, G);
        given.push_back(Given{a.w + o, n});
        return a.w + o;
    }
    uint8_t *out(size_t n) override { return buffer(n, p.fill); }
    uint8_t *inw(size_t n, size_t extra) override { uint8_t *q = buffer(n + extra, p.fill); Bytes d = data(n, 100 + salt++); if (n) memcpy(q, d.data(), n); return q; }
    void *mem(size_t size, size_t align) override
    {
        Area &a = area(objs, nm++, size); size_t pg = a.cap;
        size_t o = p.obj == END ? (pg - size) / align * align : 0;
        memset(a.w, p.fill ^ 0x3C, pg);
        if (o) memset(a.w, 0xA7, o);
        if (o + size < pg) memset(a.w + o + size, 0xA7, pg - o - size);
        watched.push_back(Watch{a.w, o, o + size, pg});
        return a.w + o;
    }
    std::vector<void *> places;
    size_t object(size_t size, size_t align) override { places.push_back(mem(size, align)); return places.size() - 1; }
    void *where(size_t i) override { return places[i]; }
    struct Watch { uint8_t *p; size_t a, b, n; }; std::vector<Watch> watched;
    void rc(long r) override { log.push_back((uint8_t)r); if (r != 0) fail("a valid call returned %ld", r); }
    void finish()
    {
        for (auto &x : given) {
            log.insert(log.end(), x.p, x.p + x.n);
            if (p.out != START) for (size_t i = 1; i <= G; i++) if (x.p[-(long)i] != p.around) fail("the byte %zu before an output buffer was written", i);
            if (p.out != END) for (size_t i = 0; i < G; i++) if (x.p[x.n + i] != p.around) fail("the byte %zu after an output buffer was written", i + 1);
        }
        for (auto &x : watched) { for (size_t i = 0; i < x.n; i++) if ((i < x.a || i >= x.b) && x.p[i] != 0xA7) fail("memory outside an object was written"); }
        watched.clear();
    }
};
static void __attribute__((noinline)) paint(uint8_t v) { volatile uint8_t *p = (volatile uint8_t *)alloca(24 << 10); memset((void *)p, v, 24 << 10); __asm__ volatile("" : : "r"(p) : "memory"); }

static PlaceEnv env; static Bytes base;
static void one(const Recipe &r, size_t n, size_t m, const Placement &p, bool first)
{
    call("n=%zu m=%zu, inputs %s (+%u), outputs %s (+%u), objects %s, fill %02x", n, m, p.in == END ? "at the end" : p.in == START ? "at the start" : "inside", p.ia, p.out == END ? "at the end" : p.out == START ? "at the start" : "inside", p.oa, p.obj == END ? "at the end" : "at the start", p.fill);
    env.start(p); paint(p.paint); r.run(env, n, m); env.finish(); g.transitions++;
    if (first) base = env.log;
    else { if (env.log.size() != base.size()) fail("harness"); expect(env.log.data(), base.data(), base.size(), "outputs at another placement"); }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    bool light = false, slow = false; for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "light")) light = true; if (!strcmp(argv[i], "slow")) light = slow = true; }
    keccak_recipes(light);
    static const Placement P0 = {END, END, END, 0, 0, 0x00, 0x55, 0x00};
    for (auto &r : recipes) {
        const int S = 4;
        for (int s = 0; s < S; s++) if (begin("%s: every length (%d of %d), buffers at both ends of accessible memory and inside it", r.name.c_str(), s + 1, S))
            for (size_t i = s; i < r.all.size(); i += S) {
                size_t n = r.all[i][0], m = r.all[i][1]; g.states++;
                if (slow && i % 5 && n > 40) continue;
                one(r, n, m, P0, true);
                one(r, n, m, Placement{START, START, START, 0, 0, 0xFF, 0xAA, 0xFF}, false);
                one(r, n, m, Placement{END, START, END, 0, 0, 0x5A, 0xFF, 0x99}, false);
                one(r, n, m, Placement{START, END, START, 0, 0, 0xC3, 0x00, 0x66}, false);
                unsigned k = (unsigned)(i * 7 + 1) % 64, l = (unsigned)(i * 11 + 3) % 64;
                one(r, n, m, Placement{MID, MID, END, k, l, 0xFF, 0x00, 0xFF}, false);
                if (g.thorough || !light) { one(r, n, m, Placement{MID, MID, START, l, l, 0x81, 0xFF, 0xFF}, false); one(r, n, m, Placement{MID, END, START, k, 0, 0x18, 0x80, 0x01}, false); }
                if (g.thorough) for (unsigned q = 0; q < 64; q++) one(r, n, m, Placement{MID, MID, START, q, (q * 13 + 5) % 64, (uint8_t)q, (uint8_t)(q * 9), (uint8_t)(255 - q)}, false);
            }
        if (begin("%s: all alignments of inputs and outputs at the boundary lengths", r.name.c_str()))
            for (auto &a : r.few) {
                g.states++;
                one(r, a[0], a[1], P0, true);
                unsigned step = g.thorough ? 1 : slow ? 16 : light ? 4 : 1;
                for (unsigned k = 0; k < 64; k += step) {
                    one(r, a[0], a[1], Placement{MID, MID, END, k, 0, 0x11, 0x22, 0x33}, false);
                    one(r, a[0], a[1], Placement{MID, MID, END, 0, k, 0x44, 0x55, 0x66}, false);
                    one(r, a[0], a[1], Placement{MID, MID, END, k, k, 0x77, 0x88, 0x99}, false);
                }
                if (!light) for (unsigned k = 0; k < 16; k++) for (unsigned l = 0; l < 16; l++) if (g.thorough || (k + l) % 3 == 0) one(r, a[0], a[1], Placement{MID, MID, START, k, l, 0xEE, 0xDD, 0xCC}, false);
            }
    }
    return finish();
}
