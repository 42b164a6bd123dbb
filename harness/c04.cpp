// C04: KangarooTwelve (KT128, KT256).
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "KangarooTwelve.h"
}
using namespace mc;
typedef ROOM(KangarooTwelve_Instance) I;
static const size_t B = 8192;

static void init(I &t, int level, size_t out, uint8_t fill)
{
    memset((void *)&t, fill, sizeof t);
    expect_rc(KangarooTwelve_Initialize(&t, level, out), 0, "Initialize");
}

struct Run {
    int level; Bytes m; ref::K12 ref; In in, cin; Out out;
    Run(int lvl, size_t N) : level(lvl), m(data(N, lvl)), ref(lvl, m), in(N + 1), cin(1 << 20), out(4096) {}
    void finish(I &t, size_t n, const Bytes &c, size_t outlen, bool fixed)
    {
        Bytes want = ref(n, c).squeeze(outlen);
        const uint8_t *cp = cin.put(c.data(), c.size());
        if (fixed) expect_rc(KangarooTwelve_Final(&t, out.take(outlen), cp, c.size()), 0, "Final");
        else {
            expect_rc(KangarooTwelve_Final(&t, out.take(0), cp, c.size()), 0, "Final"); out.check_margin();
            expect_rc(KangarooTwelve_Squeeze(&t, out.take(outlen), outlen), 0, "Squeeze");
        }
        g.aux1 = n; g.aux2 = c.size();
        out.check(want.data(), "output for %ld bytes and customization of 0x%lx bytes");
    }
    void partition(const std::vector<size_t> &pts, const std::vector<size_t> &customs, bool fixed)
    {
        std::unique_ptr<I> t(new I); init(*t, level, fixed ? 33 : 0, fixed ? 0xE1 : 0);
        std::vector<Bytes> cs; for (size_t c : customs) cs.push_back(data(c, 9));
        point_graph(*t, str("KT%d updates", level), pts, 2,
            [&](I &t, size_t n, size_t k) { expect_rc(KangarooTwelve_Update(&t, in.put_at(m.data() + n, k, in.a.cap - k), k), 0, "Update"); },
            [&](I &t, size_t n) { std::unique_ptr<I> u(new I); for (auto &c : cs) { memcpy((void *)u.get(), (void *)&t, sizeof(I)); finish(*u, n, c, 33, fixed); } });
    }
    void oneshot(size_t n, size_t c, size_t o)
    {
        Bytes cu = data(c, 3), want = ref(n, cu).squeeze(o);
        call("KT%d(%zu bytes, customization %zu, %zu out)", level, n, c, o);
        const uint8_t *ip = in.put(m.data(), n), *cp = cin.put(cu.data(), c); uint8_t *op = out.take(o);
        int rc = (n ^ c) & 1 ? KangarooTwelve(level, ip, n, op, o, cp, c) : level == 128 ? KT128(ip, n, op, o, cp, c) : KT256(ip, n, op, o, cp, c);
        expect_rc(rc, 0, "KangarooTwelve"); out.check(want.data(), "one-shot output");
        g.states++; g.transitions++;
    }
};

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool T = g.thorough, slow = false;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "slow")) slow = true;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "mix")) {
#ifdef ROOMY
        mc::mix_scenario();
#endif
        for (int level : {128, 256}) {
            if (begin("KT%d: one-shot, totals around multiples of 8192 up to 18 leaves", level)) { Run R(level, 20 * B); for (size_t j = 0; j <= 18; j++) for (size_t d : {0, 1, 5000}) R.oneshot(j * B + d, 0, 32); }
            if (begin("KT%d: every partition with cuts at leaf boundaries, up to 17 leaves", level)) {
                Run R(level, 19 * B); std::vector<size_t> p = {0, 1}; for (size_t j = 1; j <= 17; j++) p.push_back(j * B); p.push_back(17 * B + 77); R.partition(p, {0}, false);
            }
        }
        return finish();
    }
    for (int level : {128, 256}) {
        size_t rate = level == 128 ? 168 : 136;
        if (begin("KT%d: every length 0..%zu, every customization length 0..40", level, 3 * rate)) {
            Run R(level, 4096); for (size_t n = 0; n <= 3 * rate; n++) for (size_t c = 0; c <= 40; c += n % 16 == 0 ? 1 : 13) R.oneshot(n, c, 32);
        }
        size_t J = slow ? 10 : T ? 70 : 34;
        for (size_t part = 0; part < 8; part++)
        if (begin("KT%d: one-shot, all totals within 3 bytes of a multiple of 8192, up to %zu leaves (%zu mod 8)", level, J, part)) {
            Run R(level, (J + 1) * B);
            for (size_t j = part; j <= J; j += 8) for (long d = -5; d <= 3; d++) {
                if ((long)(j * B) + d < 0) continue;
                size_t n = j * B + d;
                for (size_t c : {(size_t)0, (size_t)1, (size_t)2}) R.oneshot(n, c, 32);
                if (j % 4 == 1 || T) for (size_t c : {(size_t)255, (size_t)256, B - 3, B - 2, B, B + 1, 2 * B - 3, (size_t)65535, (size_t)65536}) { R.oneshot(n, c, 32); if (c < n) R.oneshot(n - c, c, 32); }
            }
        }
        if (begin("KT%d: every fixed output length 1..%zu", level, 3 * rate + 2)) {
            Run R(level, 2 * B); for (size_t o = 1; o <= 3 * rate + 2; o++) { R.oneshot(17, 3, o); R.oneshot(B + 17, 0, o); }
        }
        for (int fixed = 0; fixed < 2; fixed++) {
            auto add = [](std::vector<size_t> &p, size_t a, size_t b) { for (size_t i = a; i <= b; i++) if (p.empty() || i > p.back()) p.push_back(i); };
            if (begin("KT%d fixed=%d: every partition of up to %zu bytes", level, fixed, 2 * rate + 3)) { Run R(level, B); std::vector<size_t> p; add(p, 0, 2 * rate + 3); R.partition(p, {0, 1, 300}, fixed); }
            for (size_t j : {1u, 2u, 3u}) {
                if (begin("KT%d fixed=%d: every partition with cuts within 60 bytes of leaf boundary %zu", level, fixed, j)) {
                    Run R(level, 5 * B); std::vector<size_t> p = {0}; add(p, j * B - 60, j * B + 60); R.partition(p, {0, 5}, fixed);
                }
                if (begin("KT%d fixed=%d: every partition with cuts in the block after leaf boundary %zu", level, fixed, j)) {
                    Run R(level, 5 * B); std::vector<size_t> p = {0, j * B}; add(p, j * B + 1, j * B + rate + 20); R.partition(p, {0}, fixed);
                }
            }
            if (begin("KT%d fixed=%d: every partition with cuts within 1 byte of leaf boundaries, up to %zu leaves", level, fixed, slow ? 9 : T ? 40 : 20)) {
                size_t L = slow ? 9 : T ? 40 : 20; Run R(level, (L + 2) * B); std::vector<size_t> p = {0, 1};
                for (size_t j = 1; j <= L; j++) { add(p, j * B - 1, j * B + 1); if (j % 3 == 0) p.push_back(j * B + 4100); }
                R.partition(p, {0, 1, B}, fixed);
            }
        }
        if (begin("KT%d: every partition of the output up to %zu bytes", level, 3 * rate + 1)) {
            Run R(level, 2 * B); size_t N = 3 * rate + 1;
            for (size_t n : {(size_t)7, B + 7}) {
                Bytes want = R.ref(n, {}).squeeze(N);
                std::unique_ptr<I> t(new I); init(*t, level, 0, 0x99);
                KangarooTwelve_Update(t.get(), R.in.put(R.m.data(), n), n);
                expect_rc(KangarooTwelve_Final(t.get(), nullptr, nullptr, 0), 0, "Final");
                chunk_graph(*t, str("KT%d %zu bytes, squeeze", level, n), N, upto(0, N), 2,
                    [&](I &t, size_t n, size_t k) { expect_rc(KangarooTwelve_Squeeze(&t, R.out.take(k), k), 0, "Squeeze"); R.out.check(want.data() + n, "squeezed"); }, [](I &, size_t) {});
            }
        }
        if (!slow && begin("KT%d: 254..258 chaining values", level)) { Run R(level, 260 * B); for (size_t j = 254; j <= 258; j++) for (long d = -3; d <= 1; d++) R.oneshot(j * B + d, 0, 32); }
        if (T && !slow && begin("KT%d: 65534..65538 chaining values", level)) { Run R(level, 65540 * B); for (size_t j = 65534; j <= 65539; j++) for (long d = -2; d <= 1; d++) R.oneshot(j * B + d, 0, 32); }
    }
    return finish();
}
