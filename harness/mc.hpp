// Small explicit-state / stateless exploration kit used by every harness in this directory.
//
// A harness enumerates numbered scenarios (mc::begin).  Inside a scenario it explores executions of the real library
// code: library objects are plain memory, so a state is snapshotted by copying the object, and two states with equal
// bytes are merged (the code is deterministic, so their futures are equal; C20 checks there is no other state).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <memory>
#include <csignal>
#include <ctime>
#include <functional>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc {
typedef std::vector<uint8_t> Bytes;

struct Global {
    bool thorough = false;
    long shard = 0, nshards = 1, only = -1, counter = 0;
    char name[512] = "(start)", call[512] = "";
    const std::string *path = nullptr;
    long aux1 = 0, aux2 = 0; // numbers for %ld/%lx in the text given to expect
    std::string (*describe)(const void *) = nullptr; const void *search = nullptr; // path printer of the running search
    long step_size = -1;    // pending "+k" of chunk_graph, formatted only when needed
    std::string free_path;
    volatile uint64_t progress = 0;
    uint64_t states = 0, transitions = 0, comparisons = 0, scenarios = 0, capped = 0;
    std::vector<std::string> samples;
    int tick_seconds = 60;
    double deadline = 0;
};
inline Global g;
inline int known_count = 0;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline void report(const char *what)
{
    static char line[6000];
    std::string dp; if (g.search) dp = g.describe(g.search);
    char st[40] = ""; if (g.step_size >= 0) snprintf(st, sizeof st, " +%ld", g.step_size);
    snprintf(line, sizeof line, "FAIL scenario=%ld {%s} path: %s%s%s -> %s\n", g.counter - 1, g.name,
             g.search ? dp.c_str() : g.path ? g.path->c_str() : g.free_path.c_str(), st, g.call, what);
    for (char *p = line; *p && p[1]; p++) if (*p == '\n') *p = ' ';
    fflush(stdout);
    (void)!write(1, line, strlen(line));
}

[[noreturn]] inline void fail(const char *fmt, ...)
{
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    report(b);
    _exit(3);
}

inline void on_signal(int sig, siginfo_t *si, void *)
{
    char b[200];
    snprintf(b, sizeof b, "signal %d (%s) at address %p: access outside the given buffers, or abnormal end", sig, strsignal(sig), si->si_addr);
    report(b);
    _exit(3);
}
inline void on_tick(int)
{
    static uint64_t last = ~(uint64_t)0;
    if (last == g.progress) { report("no progress: the call does not terminate"); _exit(3); }
    last = g.progress;
}

#ifdef ABI      // C26: the thunks of mc/abi.py around every assembly function
extern "C" { inline void abi_fail(const char *function, const char *what); extern volatile uint64_t abi_calls; }
__attribute__((used)) inline void abi_fail(const char *function, const char *what) { fail("%s does not preserve %s", function, what); }
#endif

/// Cheap description of the call being made now (formatted only when needed by callers that can afford it).
inline void call(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(g.call, sizeof g.call, fmt, ap); va_end(ap);
    g.progress++;
}
inline std::string str(const char *fmt, ...)
{
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    return b;
}

/// Opens scenario number g.counter; true when this process is to run it.
inline bool begin(const char *fmt, ...)
{
    long n = g.counter++;
    bool mine = g.only >= 0 ? n == g.only : (n % g.nshards) == g.shard;
    if (!mine) return false;
    if (g.deadline && now() > g.deadline) { g.capped++; return false; }
    va_list ap; va_start(ap, fmt); vsnprintf(g.name, sizeof g.name, fmt, ap); va_end(ap);
    g.call[0] = 0; g.path = nullptr; g.free_path.clear(); g.step_size = -1;
    g.scenarios++; g.progress++;
    if (g.samples.size() < 3 || (g.scenarios & (g.scenarios - 1)) == 0) { if (g.samples.size() < 12) g.samples.push_back(g.name); }
    return true;
}

inline void init(int argc, char **argv)
{
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "thorough") g.thorough = true;
        else if (a.rfind("shard=", 0) == 0) sscanf(a.c_str(), "shard=%ld/%ld", &g.shard, &g.nshards);
        else if (a.rfind("scenario=", 0) == 0) g.only = atol(a.c_str() + 9);
        else if (a.rfind("budget=", 0) == 0) g.deadline = now() + atof(a.c_str() + 7);
    }
    static uint8_t alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    struct sigaction st{}; st.sa_handler = on_tick; st.sa_flags = SA_RESTART | SA_ONSTACK; sigaction(SIGPROF, &st, nullptr);
    itimerval tv{}; tv.it_interval.tv_sec = g.tick_seconds; tv.it_value = tv.it_interval; setitimer(ITIMER_PROF, &tv, nullptr);
    setvbuf(stdout, nullptr, _IOLBF, 0);
}

#ifdef ROOMY
extern "C" const char *mix_align(void (*what)(const char *), unsigned long *count);   // align.c
inline void mix_scenario()
{
    if (!begin("objects at every address their types allow, every stack position")) return;
    unsigned long n = 0; const char *e = mix_align([](const char *w) { call("%s", w); g.progress++; }, &n);
    g.states += n; g.transitions += n; g.comparisons += n;
    if (e) fail("other output, or an error: %s", e);
}
#endif

inline int finish()
{
#ifdef ABI
    g.comparisons += abi_calls;
#endif
    printf("STATS {\"states\":%llu,\"transitions\":%llu,\"comparisons\":%llu,\"scenarios\":%llu,\"capped\":%llu,\"samples\":[",
        (unsigned long long)g.states, (unsigned long long)g.transitions, (unsigned long long)g.comparisons,
        (unsigned long long)g.scenarios, (unsigned long long)g.capped);
    for (size_t i = 0; i < g.samples.size(); i++) {
        std::string e; for (char c : g.samples[i]) { if (c == '"' || c == '\\') e += '\\'; e += c; }
        printf("%s\"%s\"", i ? "," : "", e.c_str());
    }
    printf("]}\n");
    return 0;
}

inline std::string hex(const uint8_t *p, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += str("%02x", p[i]); return s; }

/// Compares bytes produced by the library with those of the reference model.
inline void expect(const void *got, const void *want, size_t n, const char *what)
{
    g.comparisons++; g.progress++;
    if (n == 0 || memcmp(got, want, n) == 0) return;
    size_t i = 0; const uint8_t *a = (const uint8_t *)got, *b = (const uint8_t *)want;
    while (a[i] == b[i]) i++;
    size_t k = n - i < 8 ? n - i : 8;
    fail("%s: byte %zu of %zu differs: library %s, reference %s", str(what, g.aux1, g.aux2).c_str(), i, n, hex(a + i, k).c_str(), hex(b + i, k).c_str());
}
inline void expect_rc(long got, long want, const char *what)
{
    g.comparisons++; g.progress++;
    if (got != want) fail("%s returned %ld, expected %ld", what, got, want);
}
/// An object of the library with room after it, so that one compiled harness fits every build of the library (-DROOMY).
template <class T> struct alignas(64) Roomy : T { uint8_t room[4096]; };
#ifdef ROOMY
#define ROOM(T) mc::Roomy<T>
#else
#define ROOM(T) T
#endif

inline void expect_err(long got, const char *what)
{
    g.comparisons++; g.progress++;
    if (got == 0) fail("%s was accepted, expected a refusal", what);
    if (got != 1) fail("%s was refused with %ld instead of the documented return value 1", what, got);
}

// ---------------------------------------------------------------------------------------------------- memory
/// Pages between two inaccessible ones; optionally a read-only view for inputs.
struct Area {
    uint8_t *w = nullptr, *r = nullptr; size_t cap = 0;
    explicit Area(size_t bytes)
    {
        size_t pg = 4096; cap = (bytes + pg - 1) / pg * pg; if (!cap) cap = pg;
        int fd = memfd_create("area", 0);
        if (fd < 0 || ftruncate(fd, cap)) { perror("memfd"); exit(2); }
        for (uint8_t **v : {&w, &r}) {
            uint8_t *res = (uint8_t *)mmap(nullptr, cap + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (res == MAP_FAILED) { perror("mmap"); exit(2); }
            *v = (uint8_t *)mmap(res + pg, cap, v == &w ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
            if (*v == MAP_FAILED) { perror("mmap"); exit(2); }
        }
        close(fd);
    }
    Area(const Area &) = delete;
};

/// Input buffers: exactly n readable bytes, no writable byte.  The end (or the start) touches an inaccessible page.
struct In {
    Area a; bool head;
    explicit In(size_t cap, bool head = false) : a(cap), head(head) {}
    const uint8_t *put(const void *src, size_t n)
    {
        if (n > a.cap) { fprintf(stderr, "harness: input area too small\n"); exit(2); }
        size_t o = head ? 0 : a.cap - n;
        if (n) memcpy(a.w + o, src, n);
        return a.r + o;
    }
    const uint8_t *put_at(const void *src, size_t n, size_t o) { if (n) memcpy(a.w + o, src, n); return a.r + o; }
};

/// Output buffers: exactly n bytes may be written; the bytes before are watched, those after are inaccessible (or reverse).
struct Out {
    Area a; bool head; uint8_t *p = nullptr; size_t n = 0; uint8_t fill = 0;
    static const size_t margin = 64;
    explicit Out(size_t cap, bool head = false) : a(cap + 2 * margin), head(head) {}
    uint8_t *take(size_t len, uint8_t f = 0xC7)
    {
        if (len + margin > a.cap) { fprintf(stderr, "harness: output area too small\n"); exit(2); }
        n = len; fill = f; p = head ? a.w : a.w + a.cap - n;
        if (head) memset(p, f, n + margin); else memset(p - margin, f, n + margin);
        return p;
    }
    void check_margin()
    {
        const uint8_t *m = head ? p + n : p - margin;
        for (size_t i = 0; i < margin; i++) if (m[i] != fill) fail("byte outside the output buffer was written");
    }
    void check(const void *want, const char *what) { expect(p, want, n, what); check_margin(); }
    void untouched(const char *what)
    {
        for (size_t i = 0; i < n; i++) if (p[i] != fill) fail("%s: output was written although the call was refused", what);
        check_margin(); g.comparisons++;
    }
};

/// Position dependent test data.
inline uint8_t dat(uint64_t i, uint32_t salt = 0)
{
    uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull ^ (uint64_t)salt * 0xD6E8FEB86659FD93ull;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
    return (uint8_t)x;
}
inline Bytes data(size_t n, uint32_t salt = 0) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = dat(i, salt); return b; }

// ---------------------------------------------------------------------------------------------------- exploration
template <class I> struct Node { I inst; std::string path; };

/// Explores every way of advancing a position from 0 to N by steps of the given sizes, on the real object.
/// step(object, position, size) makes the call; observe(object, position) finishes a copy and compares.
/// States with equal bytes at equal position are merged; at most maxrep different ones per position are expanded,
/// all are observed.
template <class I, class Step, class Obs>
void chunk_graph(const I &init, const std::string &prefix, size_t N, const std::vector<size_t> &sizes, size_t maxrep, Step step, Obs observe)
{
    std::vector<std::vector<std::unique_ptr<Node<I>>>> node(N + 1);
    node[0].emplace_back(new Node<I>{init, prefix});
    g.states++;
    g.path = &node[0][0]->path; g.call[0] = 0;
    { I t = init; observe(t, (size_t)0); }
    std::unique_ptr<I> tp(new I);
    I &t = *tp;
    for (size_t n = 0; n <= N; n++)
        for (size_t r = 0; r < node[n].size(); r++) {
            for (size_t k : sizes) {
                if (n + k > N) continue;
                Node<I> &src = *node[n][r];
                memcpy((void *)&t, (const void *)&src.inst, sizeof(I));
                g.path = &src.path;
                g.step_size = (long)k;
                g.progress++;
                step(t, n, k);
                g.transitions++;
                auto &dst = node[n + k];
                bool known = false;
                for (auto &d : dst) if (memcmp((const void *)&d->inst, (const void *)&t, sizeof(I)) == 0) { known = true; break; }
                if (known) continue;
                g.states++;
                if (dst.size() < maxrep) {
                    dst.emplace_back(new Node<I>{t, src.path + str(" +%zu", k)});
                    I u = t; observe(u, n + k);
                } else { observe(t, n + k); }
            }
            if (n && r + 1 == node[n].size()) { /* positions before n are never revisited */ if (n >= 1) node[n - 1].clear(); }
        }
    g.path = nullptr; g.call[0] = 0; g.step_size = -1;
}

/// Same, but only the given positions are visited (first one is the start); a step goes from any of them to any later one
/// or to itself (empty call).
template <class I, class Step, class Obs>
void point_graph(const I &init, const std::string &prefix, const std::vector<size_t> &pts, size_t maxrep, Step step, Obs observe)
{
    size_t P = pts.size();
    std::vector<std::vector<std::unique_ptr<Node<I>>>> node(P);
    node[0].emplace_back(new Node<I>{init, prefix});
    g.states++;
    g.path = &node[0][0]->path; g.call[0] = 0;
    { std::unique_ptr<I> t(new I(init)); observe(*t, pts[0]); }
    std::unique_ptr<I> tp(new I), up(new I);
    I &t = *tp;
    for (size_t a = 0; a < P; a++) {
        for (size_t r = 0; r < node[a].size(); r++)
            for (size_t b = a; b < P; b++) {
                Node<I> &src = *node[a][r];
                size_t k = pts[b] - pts[a];
                memcpy((void *)&t, (const void *)&src.inst, sizeof(I));
                g.path = &src.path; g.step_size = (long)k; g.progress++;
                step(t, pts[a], k);
                g.transitions++;
                auto &dst = node[b];
                bool known = false;
                for (auto &d : dst) if (memcmp((const void *)&d->inst, (const void *)&t, sizeof(I)) == 0) { known = true; break; }
                if (known) continue;
                g.states++;
                if (dst.size() < maxrep) {
                    dst.emplace_back(new Node<I>{t, src.path + str(" +%zu", k)});
                    memcpy((void *)up.get(), (const void *)&t, sizeof(I)); observe(*up, pts[b]);
                } else observe(t, pts[b]);
            }
        if (a) node[a - 1].clear();
    }
    g.path = nullptr; g.call[0] = 0; g.step_size = -1;
}

/// Breadth-first exploration of operation sequences.  W (plain memory) holds the real objects and the reference model;
/// states with equal bytes are merged.  ops(w) lists the operations to try in a state, apply(w, op) performs one on the
/// real object and on the model and compares; it returns false when the result is not to be continued from.
/// observe(w) is called on a copy of every new state.
template <class W, class Op> struct Search {
    struct N { std::unique_ptr<W> w; long parent; Op op; };
    std::vector<N> nodes; std::string prefix; std::string (*show)(const Op &); long cur = -1; const Op *pending = nullptr;
    std::vector<long> table; size_t limit = 2000000;
    static std::string describe(const void *self)
    {
        const Search *s = (const Search *)self; std::vector<std::string> v;
        if (s->pending) v.push_back(s->show(*s->pending));
        for (long i = s->cur; i > 0; i = s->nodes[i].parent) v.push_back(s->show(s->nodes[i].op));
        std::string r = s->prefix; for (size_t i = v.size(); i-- > 0;) r += "; " + v[i];
        return r;
    }
    static uint64_t hash(const W &w)
    {
        const uint8_t *p = (const uint8_t *)&w; uint64_t h = 0x243F6A8885A308D3ull; size_t n = sizeof(W);
        for (; n >= 8; p += 8, n -= 8) { uint64_t x; memcpy(&x, p, 8); h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 32; }
        for (; n; p++, n--) { h = (h ^ *p) * 0x9E3779B97F4A7C15ull; h ^= h >> 32; }
        return h;
    }
    long *slot(const W &w)
    {
        size_t m = table.size() - 1;
        for (size_t i = hash(w) & m;; i = (i + 1) & m) {
            if (table[i] < 0 || memcmp((const void *)nodes[table[i]].w.get(), (const void *)&w, sizeof(W)) == 0) return &table[i];
        }
    }
    bool add(const W &w, long parent, const Op &op)
    {
        if (2 * (nodes.size() + 1) > table.size()) {
            table.assign(std::max<size_t>(64, 4 * (nodes.size() + 1)), -1);
            size_t p = 64; while (p < table.size()) p *= 2; table.assign(p, -1);
            for (size_t i = 0; i < nodes.size(); i++) *slot(*nodes[i].w) = (long)i;
        }
        long *s = slot(w);
        if (*s >= 0) return false;
        *s = (long)nodes.size();
        nodes.push_back(N{std::unique_ptr<W>((W *)aligned_alloc(64, (sizeof(W) + 63) / 64 * 64)), parent, op});
        memcpy((void *)nodes.back().w.get(), (const void *)&w, sizeof(W));
        g.states++;
        return true;
    }
    template <class Ops, class Apply, class Obs>
    void run(const W &init, size_t depth, const std::string &pre, Ops ops, Apply apply, Obs observe)
    {
        prefix = pre; nodes.clear(); table.clear(); g.search = this; g.describe = describe; g.call[0] = 0;
        std::unique_ptr<W> tp((W *)aligned_alloc(64, (sizeof(W) + 63) / 64 * 64)); W &t = *tp;
        memcpy((void *)&t, (const void *)&init, sizeof(W));
        cur = 0; pending = nullptr;
        add(t, -1, Op());
        observe(t, (size_t)0);
        size_t from = 0;
        for (size_t d = 1; d <= depth; d++) {
            size_t to = nodes.size();
            for (size_t i = from; i < to; i++) {
                std::vector<Op> list = ops(*nodes[i].w, d);
                for (const Op &op : list) {
                    cur = (long)i; pending = &op; g.progress++;
                    memcpy((void *)&t, (const void *)nodes[i].w.get(), sizeof(W));
                    bool cont = apply(t, op);
                    g.transitions++;
                    if (!cont) continue;
                    if (add(t, (long)i, op)) {
                        observe(t, d);
                        if (nodes.size() > limit) { fprintf(stderr, "harness: state limit\n"); exit(2); }
                    }
                }
            }
            from = to;
        }
        pending = nullptr; g.search = nullptr;
    }
};

inline std::vector<size_t> upto(size_t a, size_t b) { std::vector<size_t> v; for (size_t i = a; i <= b; i++) v.push_back(i); return v; }
} // namespace mc
