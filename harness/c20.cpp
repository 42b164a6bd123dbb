// C20: objects are independent.  The library is linked as a shared object so that all its writable static memory is known.
//  (a) every recipe runs with that memory write-protected: a call that writes no shared memory commutes with every other call, so that
//      one interleaving represents all of them (the partial-order argument); if some call does write, every preemption point around
//      every access to that memory is explored with every recipe of the same interface as the preempting call.
//  (b) preemption after every single machine instruction of a session by a complete session on other objects (fork per instruction).
//  (c) all interleavings of the calls of two sessions, objects moved to another address between any two calls.
//  (d) at every call boundary the objects are copied; original and copy go on with different data, in both orders and alternating.
#include "recipes.hpp"
#include <ucontext.h>
#include <link.h>
#include <sys/wait.h>
using namespace mc;

// ------------------------------------------------------------------------------------------------ a session as a coroutine
struct Sess : Env {
    ucontext_t ctx, back; std::vector<uint8_t> stack; bool running = false, done = true, yields = false, moving = false;
    const Recipe *r = nullptr; size_t n = 0, m = 0; unsigned salt = 0, salt2 = 0, steps = 0, diverge = ~0u, count = 0;
    Bytes log;
    struct Buf { size_t at, n; }; std::vector<Buf> outs;
    struct Object { size_t size, align; uint8_t *p; bool side; uint8_t *home; }; std::vector<Object> objs;
    uint8_t *arena; size_t used = 0; static const size_t ARENA = 1 << 20;
    uint8_t pattern = 0x6D;
    Sess() : stack(256 << 10) { arena = (uint8_t *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    uint8_t *get(size_t k, size_t al) { used = (used + al - 1) / al * al; uint8_t *p = arena + used; used += k; if (used > ARENA) { fprintf(stderr, "harness: arena\n"); exit(2); } return p; }
    const uint8_t *in(size_t k, bool) override { uint8_t *p = get(k, 1); unsigned s = steps >= diverge ? salt2 : salt; count++; for (size_t i = 0; i < k; i++) p[i] = (uint8_t)((i * 167 + s * 59 + count * 31) ^ (i >> 3) * 29 ^ (s + count) << (i & 3)); return p; }
    const uint8_t *from(const uint8_t *q, size_t k) override { uint8_t *p = get(k, 1); if (k) memcpy(p, q, k); return p; }
    uint8_t *out(size_t k) override { uint8_t *p = get(k, 1); memset(p, pattern, k); outs.push_back(Buf{(size_t)(p - arena), k}); return p; }
    uint8_t *inw(size_t k, size_t extra) override { uint8_t *p = get(k + extra, 1); memcpy(p, in(k, true), k); return p; }
    void *mem(size_t size, size_t al) override { uint8_t *p = get(size, al); memset(p, pattern, size); return p; }
    size_t object(size_t size, size_t al) override
    {
        uint8_t *p = get(2 * (size + 64) + 128, 64); memset(p, pattern, 2 * size + 256);
        objs.push_back(Object{size, al, p, false, p}); return objs.size() - 1;
    }
    void *where(size_t i) override
    {
        Object &o = objs[i];
        if (moving) { uint8_t *q = o.home + (o.side ? 0 : (o.size + 63) / 64 * 64 + (o.align < 64 ? o.align : 64)); memmove(q, o.p, o.size); memset(o.p, 0xE3, o.size); o.p = q; o.side = !o.side; }
        return o.p;
    }
    void rc(long v) override { log.push_back((uint8_t)v); if (v != 0) fail("a valid call returned %ld", v); steps++; if (yields) swapcontext(&ctx, &back); }
    static void entry(unsigned lo, unsigned hi) { Sess *s = (Sess *)((uintptr_t)lo | (uintptr_t)hi << 32); s->r->run(*s, s->n, s->m); s->done = true; for (;;) swapcontext(&s->ctx, &s->back); }
    void prepare(const Recipe &q, size_t a, size_t b, unsigned sa) { r = &q; n = a; m = b; salt = salt2 = sa; diverge = ~0u; steps = count = 0; used = 0; log.clear(); outs.clear(); objs.clear(); done = false; yields = moving = false; }
    void all() { r->run(*this, n, m); done = true; finish(); }
    void co(bool mv) { yields = true; moving = mv; getcontext(&ctx); ctx.uc_stack.ss_sp = stack.data(); ctx.uc_stack.ss_size = stack.size(); ctx.uc_link = nullptr;
        makecontext(&ctx, (void (*)())entry, 2, (unsigned)(uintptr_t)this, (unsigned)((uintptr_t)this >> 32)); }
    void step() { swapcontext(&back, &ctx); }                 // one call further
    void finish() { for (auto &b : outs) log.insert(log.end(), arena + b.at, arena + b.at + b.n); }
};
static Sess A, B;
static Bytes solo(Sess &s, const Recipe &r, size_t n, size_t m, unsigned salt, unsigned diverge = ~0u, unsigned salt2 = 0)
{
    s.prepare(r, n, m, salt); if (diverge != ~0u) { s.diverge = diverge; s.salt2 = salt2; }
    s.all(); return s.log;
}
static void same(const Bytes &got, const Bytes &want, const char *what) { if (got.size() != want.size()) fail("%s: harness", what); expect(got.data(), want.data(), got.size(), what); }

// ------------------------------------------------------------------------------------------------ (a) shared memory
static uint8_t *wr_lo = nullptr, *wr_hi = nullptr, *tx_lo = nullptr, *tx_hi = nullptr, *ex_lo = nullptr, *ex_hi = nullptr;
static int find_lib(dl_phdr_info *i, size_t, void *)
{
    bool exe = !i->dlpi_name[0];
    for (int k = 0; exe && k < i->dlpi_phnum; k++) { const ElfW(Phdr) &h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) { ex_lo = (uint8_t *)i->dlpi_addr + h.p_vaddr; ex_hi = ex_lo + h.p_memsz; } }
    if (exe) return 0;
    if (!strstr(i->dlpi_name, "libxkcp")) return 0;
    uint8_t *lo = nullptr, *hi = nullptr, *rel = nullptr;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) &h = i->dlpi_phdr[k]; uint8_t *b = (uint8_t *)i->dlpi_addr + h.p_vaddr;
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) { lo = b; hi = b + h.p_memsz; }
        if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) { tx_lo = b; tx_hi = b + h.p_memsz; }
        if (h.p_type == PT_GNU_RELRO) rel = b + h.p_memsz;
        if (h.p_type == PT_TLS && h.p_memsz) { }
    }
    if (lo && rel && rel > lo) lo = (uint8_t *)((uintptr_t)rel / 4096 * 4096);   // what lies before is read-only after relocation
    wr_lo = (uint8_t *)((uintptr_t)lo / 4096 * 4096); wr_hi = (uint8_t *)(((uintptr_t)hi + 4095) / 4096 * 4096);
    return 0;
}
static int prot_mode = PROT_NONE; static volatile long events, stop_at = -1, writes; static volatile bool stop_after, in_access, stepping_over; static bool count_only;
static volatile long last_change; static Bytes shadow, M0;
static std::function<void()> preempt;
static void set_prot(int p) { if (wr_hi > wr_lo) mprotect(wr_lo, wr_hi - wr_lo, p); }
static void do_preempt() { set_prot(PROT_READ | PROT_WRITE); bool c = count_only; count_only = true; preempt(); count_only = c; prot_mode = PROT_READ | PROT_WRITE; }
static void on_access(int sig, siginfo_t *si, void *u)
{
    ucontext_t *uc = (ucontext_t *)u; uint8_t *a = (uint8_t *)si->si_addr;
    if (a < wr_lo || a >= wr_hi) { on_signal(sig, si, u); return; }
    if (uc->uc_mcontext.gregs[REG_ERR] & 2) writes++;
    long k = events++;
    if (stop_at == 2 * k) { do_preempt(); return; }
    set_prot(PROT_READ | PROT_WRITE);
    stepping_over = true; uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static volatile long insn, lib_insn, target = -1; static bool each; static int mod_part = 0; static pid_t child = 0;
static void on_step(int, siginfo_t *, void *u)
{
    ucontext_t *uc = (ucontext_t *)u;
    if (stepping_over) {
        stepping_over = false; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
        if (memcmp(shadow.data(), wr_lo, shadow.size())) { memcpy(shadow.data(), wr_lo, shadow.size()); last_change = events; }
        if (stop_at == 2 * (events - 1) + 1) do_preempt();
        set_prot(prot_mode);
        return;
    }
    insn++;
    uint8_t *pc = (uint8_t *)uc->uc_mcontext.gregs[REG_RIP];
    if (pc >= ex_lo && pc < ex_hi) return;   // the harness itself; the library and the C library functions it calls are what counts
    lib_insn++; g.progress++;
    if (!each || child || lib_insn % 8 != mod_part) return;
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) { child = 1; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; target = lib_insn; preempt(); return; }
    int st; while (waitpid(p, &st, 0) < 0) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3); fail("preempted at library instruction %ld: the process ended abnormally", (long)lib_insn); }
}
static void trap_on() { __asm__ volatile("pushfq\n orq $0x100, (%%rsp)\n popfq" ::: "memory", "cc"); }
static void trap_off() { __asm__ volatile("pushfq\n andq $-257, (%%rsp)\n popfq" ::: "memory", "cc"); }

static std::array<size_t, 2> smallest(const Recipe &r) { return r.few[r.few.size() / 3]; }
static std::string family(const Recipe &r) { size_t k = r.name.find_first_of(" 0123456789-"); return r.name.substr(0, k); }

int main(int argc, char **argv)
{
    init(argc, argv);
    bool few = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "few")) few = true;
    bool insns = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "insns")) insns = true;
    keccak_recipes(true);
    dl_iterate_phdr(find_lib, nullptr);
    if (!tx_lo) { fprintf(stderr, "harness: library not found\n"); return 2; }
    if (wr_hi > wr_lo) M0.assign(wr_lo, wr_hi);
    struct sigaction sa{}; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sa.sa_sigaction = on_access; sigaction(SIGSEGV, &sa, nullptr);
    sa.sa_sigaction = on_step; sigaction(SIGTRAP, &sa, nullptr);

    for (auto &r : recipes) {
        // (a)
        if (begin("%s: calls with the library's static memory write-protected; preemption at every access if there is any write", r.name.c_str()))
            for (auto &a : r.few) {
                call("n=%zu m=%zu", a[0], a[1]);
                g.states++;
                Bytes ba = solo(A, r, a[0], a[1], 1);
                auto watched = [&](const Bytes &from, int prot) {   // session A with every access (PROT_NONE) or write (PROT_READ) to static memory seen
                    if (from.size()) { memcpy(wr_lo, from.data(), from.size()); } shadow = from; events = writes = last_change = 0; prot_mode = prot; set_prot(prot);
                    A.prepare(r, a[0], a[1], 1); A.r->run(A, A.n, A.m); set_prot(PROT_READ | PROT_WRITE); A.finish(); g.transitions++;
                    same(A.log, ba, "the same calls again");
                };
                if (M0.empty()) { watched(Bytes(), PROT_READ); continue; }
                watched(M0, PROT_READ);
                if (!writes) continue;
                // Static memory is written.  From its initial content and from its content after these calls: as long as the content
                // changes, every access is a preemption point; once only values that are already there are stored, nothing conflicts any more.
                // (quick: one session per interface for the initial content, all sessions when the content goes on changing)
                static double spent = 0; double t0 = now();
                bool lead = g.thorough; if (!lead && a == smallest(r)) { lead = true; for (auto &r2 : recipes) { if (&r2 == &r) break; if (family(r2) == family(r)) lead = false; } }
                for (int from = lead ? 0 : 1; from < 2; from++) {
                    Bytes M = from ? Bytes(wr_lo, wr_hi) : M0;
                    watched(M, PROT_READ); if (last_change) watched(M, PROT_NONE);
                    long points = last_change ? 2 * last_change + 1 : 0;
                    long others = 0;
                    for (auto &r2 : recipes) {
                        if (family(r2) != family(r) || (&r2 != &r && others++ >= (g.thorough ? 99 : 1))) continue;
                        auto b = smallest(r2); Bytes bb = solo(B, r2, b[0], b[1], 2);
                        for (long k = 0; k < points; k++) {
                            if (now() - t0 > 10 || spent > (g.thorough ? 300 : 4)) { g.capped++; break; }
                            call("n=%zu m=%zu preempted at access point %ld to static memory (content %s) by %s (%zu, %zu)", a[0], a[1], k, from ? "after such calls" : "of the start", r2.name.c_str(), b[0], b[1]);
                            preempt = [&] { B.prepare(r2, b[0], b[1], 2); B.all(); };
                            B.log.clear(); stop_at = k; watched(M, PROT_NONE); stop_at = -1;
                            if (B.log.size()) same(B.log, bb, "the preempting session");
                        }
                    }
                }
                spent += now() - t0;
            }
        // (b) in eight parts, by instruction number
        bool first = true; for (auto &r2 : recipes) { if (&r2 == &r) break; if (family(r2) == family(r)) first = false; }
        if (insns && (first || g.thorough)) for (int part = 0; part < 8; part++) if (begin("%s: preempted after every machine instruction (number = %d mod 8) by the same calls on other objects", r.name.c_str(), part)) {
            std::array<size_t, 2> a{}; long least = -1;
            for (auto &f : r.few) {   // the smallest arguments that are not zero
                if (!f[0] || (r.few.back()[1] && !f[1])) continue;
                if (least < 0 || (long)(f[0] + f[1]) < least) { least = (long)(f[0] + f[1]); a = f; }
            }
            if (least < 0) continue;
            call("n=%zu m=%zu", a[0], a[1]);
            Bytes ba = solo(A, r, a[0], a[1], 1), bb = solo(B, r, a[0], a[1], 2);
            preempt = [&] { call("n=%zu m=%zu preempted after library instruction %ld", a[0], a[1], (long)lib_insn); B.prepare(r, a[0], a[1], 2); B.all(); };
            insn = lib_insn = 0; each = true; mod_part = part; B.log.clear();
            A.prepare(r, a[0], a[1], 1);
            trap_on(); A.r->run(A, A.n, A.m); trap_off();
            A.finish();
            if (child) { same(A.log, ba, "the preempted session"); same(B.log, bb, "the preempting session"); _exit(0); }
            same(A.log, ba, "the session run instruction by instruction");
            each = false; g.transitions += lib_insn / 8; g.states += lib_insn / 8; g.comparisons += lib_insn / 4;
        }
        // (c)
        for (auto &r2 : recipes) {
            if (&r2 < &r || (few && &r2 != &r)) continue;
            bool own = &r2 == &r || family(r2) == family(r);
            if (&r2 != &r && !g.thorough && (&r2 - &r) % 7 != 3 && !(own && &r2 - &r == 1)) continue;
            if (!begin("all interleavings of the calls of %s and of %s", r.name.c_str(), r2.name.c_str())) continue;
            auto a = smallest(r), b = r2.few[r2.few.size() / 2];
            Bytes ba = solo(A, r, a[0], a[1], 1); unsigned ca = A.steps; Bytes bb = solo(B, r2, b[0], b[1], 2); unsigned cb = B.steps;
            unsigned maxsw = ca + cb <= 10 ? 99 : own && &r2 == &r ? 4 : 3; if (g.thorough) maxsw += 2;
            std::vector<uint8_t> seq; unsigned long runs = 0;
            std::function<void(unsigned, unsigned, unsigned)> go = [&](unsigned x, unsigned y, unsigned sw) {
                if (x == 0 && y == 0) {
                    std::string d; for (uint8_t v : seq) d += v ? 'B' : 'A';
                    snprintf(g.call, sizeof g.call, " (%zu, %zu) and (%zu, %zu) in order %s", a[0], a[1], b[0], b[1], d.c_str());
                    A.prepare(r, a[0], a[1], 1); A.co(runs & 1); B.prepare(r2, b[0], b[1], 2); B.co(runs & 2);
                    for (uint8_t v : seq) { (v ? B : A).step(); g.transitions++; }
                    A.step(); B.step(); if (!A.done || !B.done) fail("harness: unfinished");
                    A.finish(); B.finish(); same(A.log, ba, "first session"); same(B.log, bb, "second session"); runs++; g.states++; g.progress++;
                    return;
                }
                for (int v = 0; v < 2; v++) if (v ? y : x) {
                    unsigned s2 = sw + (seq.size() && seq.back() != v); if (s2 > maxsw && (v ? x : y)) continue;
                    seq.push_back(v); go(x - !v, y - v, s2); seq.pop_back();
                }
            };
            go(ca, cb, 0);
        }
        // (d)
        if (begin("%s: objects copied at every call boundary, original and copy go on with different data", r.name.c_str()))
            for (auto &a : r.few) {
                Bytes ba = solo(A, r, a[0], a[1], 1); unsigned ca = A.steps;
                for (unsigned j = 1; j < ca; j++) {
                    Bytes bb = solo(B, r, a[0], a[1], 1, j, 9);
                    for (int order = 0; order < 4; order++) {
                        call("n=%zu m=%zu, copied after %u calls, order %d", a[0], a[1], j, order);
                        A.prepare(r, a[0], a[1], 1); A.co(order == 3); B.prepare(r, a[0], a[1], 1); B.diverge = j; B.salt2 = 9; B.co(order == 3);
                        for (unsigned i = 0; i < j; i++) { A.step(); B.step(); }
                        for (size_t i = 0; i < A.objs.size(); i++) memcpy(B.objs[i].p, A.objs[i].p, A.objs[i].size);
                        for (unsigned i = j; i <= ca; i++) { if (order == 0) A.step(); else if (order == 1) B.step(); else { A.step(); B.step(); } }
                        if (order == 0) for (unsigned i = j; i <= ca; i++) B.step();
                        if (order == 1) for (unsigned i = j; i <= ca; i++) A.step();
                        A.finish(); B.finish(); same(A.log, ba, "the original"); same(B.log, bb, "the copy"); g.transitions += 2 * ca; g.states++;
                    }
                }
            }
    }
    return finish();
}
