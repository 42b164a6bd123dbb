// C24: what is secret does not steer execution.  Every session is executed one machine instruction at a time (trap flag), and the
// addresses of the instructions executed inside the library, with the registers each memory operand is addressed by, are recorded.
// For every assignment of a symbol (zeros, ones, single bits, dense values, every constant byte, ...) to the secret inputs of the
// session the record must be the same; public inputs and lengths stay fixed.  Executing by single instructions is slow; with -DINSTR
// the C sources are compiled with callbacks at every basic block and before every memory access instead, which record the same for
// many more assignments (but not for assembly).
#include "recipes.hpp"
#include <ucontext.h>
#include <unordered_map>
#include <dlfcn.h>
#include <link.h>
using namespace mc;
#ifdef INSTR
static const bool INSTRUMENTED = true;
#else
static const bool INSTRUMENTED = false;
#endif

#ifndef INSTR
static uint8_t *tx_lo, *tx_hi, *ex_lo, *ex_hi; static const char *libname;
static int find_lib(dl_phdr_info *i, size_t, void *)
{
    bool exe = !i->dlpi_name[0], lib = strstr(i->dlpi_name, "libxkcp"); if (!exe && !lib) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) &h = i->dlpi_phdr[k]; uint8_t *b = (uint8_t *)i->dlpi_addr + h.p_vaddr;
        if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) { (exe ? ex_lo : tx_lo) = b; (exe ? ex_hi : tx_hi) = b + h.p_memsz; }
    }
    return 0;
}

// ------------------------------------------------------------------------------------------------ memory operands of x86-64 instructions
struct Op { int8_t base = -1, index = -1; };   // registers that address memory, as indices of gregs; -1: none
static const int8_t GR[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
static Op decode(const uint8_t *p)
{
    Op r; bool X = false, B = false;
    for (;; p++) { uint8_t c = *p; if (c == 0x66 || c == 0x67 || c == 0xF2 || c == 0xF3 || c == 0x2E || c == 0x36 || c == 0x3E || c == 0x26 || c == 0x64 || c == 0x65) continue; break; }
    if ((*p & 0xF0) == 0x40) { X = *p & 2; B = *p & 1; p++; }
    bool modrm; int map = 0; uint8_t op = *p++; bool vector = false;
    if (op == 0xC5) { p++; op = *p++; map = 1; vector = true; modrm = op != 0x77; }
    else if (op == 0xC4) { X = !(*p & 0x40); B = !(*p & 0x20); map = *p & 31; p += 2; op = *p++; vector = true; modrm = !(map == 1 && op == 0x77); }
    else if (op == 0x62) { X = !(*p & 0x40); B = !(*p & 0x20); map = *p & 7; p += 3; op = *p++; vector = true; modrm = true; }
    else if (op == 0x0F) {
        op = *p++; map = 1;
        if (op == 0x38 || op == 0x3A) { map = op == 0x38 ? 2 : 3; op = *p++; modrm = true; }
        else if (op == 0x1F || op == 0x1E || op == 0x0D || op == 0x18) return r;   // hints
        else modrm = !((op >= 5 && op <= 9) || op == 0x0B || op == 0x0E || (op >= 0x30 && op <= 0x37) || op == 0x77 || (op >= 0x80 && op <= 0x8F) || (op >= 0xA0 && op <= 0xA2) || (op >= 0xA8 && op <= 0xAA) || (op >= 0xC8 && op <= 0xCF));
    } else {
        if ((op >= 0xA4 && op <= 0xA7) || (op >= 0xAA && op <= 0xAF)) { if (op < 0xAC || op > 0xAD) r.base = REG_RDI; if (op < 0xA8 || op == 0xAC || op == 0xAD) r.index = REG_RSI; return r; }
        if (op == 0xD7) { r.base = REG_RBX; r.index = REG_RAX; return r; }
        if (op == 0x8D) return r;   // LEA computes an address and does not use it
        modrm = (op < 0x40 && (op & 7) < 4) || op == 0x63 || op == 0x69 || op == 0x6B || (op >= 0x80 && op <= 0x8F) || op == 0xC0 || op == 0xC1 || op == 0xC6 || op == 0xC7 || (op >= 0xD0 && op <= 0xD3) || (op >= 0xD8 && op <= 0xDF) || op == 0xF6 || op == 0xF7 || op == 0xFE || op == 0xFF;
    }
    if (!modrm) return r;
    uint8_t m = *p++; int mod = m >> 6, rm = m & 7; if (mod == 3) return r;
    bool vsib = vector && map == 2 && ((op >= 0x90 && op <= 0x93) || (op >= 0xA0 && op <= 0xA3));
    if (rm == 4) {
        uint8_t s = *p; int b = (s & 7) | B << 3, x = ((s >> 3) & 7) | X << 3;
        if (!((s & 7) == 5 && mod == 0)) r.base = GR[b];
        if (x != 4 && !vsib) r.index = GR[x];
    } else if (!(rm == 5 && mod == 0)) r.base = GR[rm | B << 3];
    return r;
}

// ------------------------------------------------------------------------------------------------ the record
#endif
static bool inside, keep; static uint64_t H; static unsigned long count;
struct Entry { const uint8_t *pc; uint64_t base, index; bool operator!=(const Entry &o) const { return pc != o.pc || base != o.base || index != o.index; } };
static Entry *kept; static const size_t KEEP = 3 << 20; static size_t nkept;
#ifdef INSTR
static inline void record(uint64_t pc, uint64_t a)
{
    if (!inside) return;
    H = (H ^ pc) * 0x9E3779B97F4A7C15ull; H ^= H >> 29; H = (H + a) * 0xD6E8FEB86659FD93ull; H ^= H >> 31;
    count++; if ((count & 0xFFFFF) == 0) g.progress++;
    if (keep && nkept < KEEP) kept[nkept++] = Entry{(const uint8_t *)pc, a, 0};
}
extern "C" {
void __sanitizer_cov_trace_pc() { record((uint64_t)__builtin_return_address(0), 0); }
#define ACCESS(n) void __asan_load##n##_noabort(uint64_t a) { record((uint64_t)__builtin_return_address(0), a); } void __asan_store##n##_noabort(uint64_t a) { record((uint64_t)__builtin_return_address(0), a); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __asan_loadN_noabort(uint64_t a, size_t n) { record((uint64_t)__builtin_return_address(0), a + n * 0x1000003); } void __asan_storeN_noabort(uint64_t a, size_t n) { record((uint64_t)__builtin_return_address(0), a + n * 0x1000003); }
void __asan_handle_no_return() {}
void *__asan_memcpy(void *d, const void *q, size_t n) { record((uint64_t)d, (uint64_t)q + n * 0x1000003); return memcpy(d, q, n); }
void *__asan_memmove(void *d, const void *q, size_t n) { record((uint64_t)d, (uint64_t)q + n * 0x1000003); return memmove(d, q, n); }
void *__asan_memset(void *d, int c, size_t n) { record((uint64_t)d, n); return memset(d, c, n); }
}
static void trap_on() { inside = true; }
static void trap_off() { inside = false; }
#else
static std::unordered_map<const uint8_t *, Op> cache; static Op *libcache; static uint8_t *known;
static void on_step(int, siginfo_t *, void *u)
{
    greg_t *r = ((ucontext_t *)u)->uc_mcontext.gregs; const uint8_t *pc = (const uint8_t *)r[REG_RIP];
    bool lib = pc >= tx_lo && pc < tx_hi;
    if (lib) inside = true; else if (pc >= ex_lo && pc < ex_hi) inside = false;
    if (!inside) return;
    Op o;
    if (lib) { size_t k = pc - tx_lo; if (!known[k]) { libcache[k] = decode(pc); known[k] = 1; } o = libcache[k]; }
    else { auto it = cache.find(pc); if (it == cache.end()) it = cache.emplace(pc, decode(pc)).first; o = it->second; }
    uint64_t b = o.base < 0 ? 0 : r[o.base], x = o.index < 0 ? 0 : r[o.index];
    H = (H ^ (uint64_t)pc) * 0x9E3779B97F4A7C15ull; H ^= H >> 29; H = (H + b) * 0xD6E8FEB86659FD93ull; H ^= H >> 31; H += x * 0xC2B2AE3D27D4EB4Full;
    count++; if ((count & 1023) == 0) g.progress++;
    if (keep && nkept < KEEP) kept[nkept++] = Entry{pc, b, x};
}
static void trap_on() { __asm__ volatile("pushfq\n orq $0x100, (%%rsp)\n popfq" ::: "memory", "cc"); }
static void trap_off() { __asm__ volatile("pushfq\n andq $-257, (%%rsp)\n popfq" ::: "memory", "cc"); }

#endif

// ------------------------------------------------------------------------------------------------ sessions
static const char *symname[] = {"dense", "zeros", "ones", "other dense", "only the last bit", "only the first bit", "byte numbers", "bits 55"};
static uint8_t symbol(int s, size_t i, size_t n, unsigned c)
{
    switch (s) {
    case 0: return (uint8_t)((i * 167 + c * 31 + 7) ^ (i >> 3) * 29 ^ c << (i & 3)); case 1: return 0; case 2: return 0xFF;
    case 3: return (uint8_t)((i * 59 + c * 101 + 133) ^ (i >> 2) * 71); case 4: return i + 1 == n ? 0x80 : 0; case 5: return i == 0 ? 1 : 0; case 6: return (uint8_t)i; case 7: return 0x55;
    default: return (uint8_t)(s - 8);
    }
}
static std::string named(int s) { return s < 8 ? symname[s] : str("bytes %02X", s - 8); }
struct Sess : Env {
    uint8_t *arena; size_t used = 0; static const size_t ARENA = 4 << 20; int sym = 0, special = -1, sym2 = 0; unsigned secrets = 0, inputs = 0;
    std::vector<void *> objs; size_t nobj = 0; long bad = 0;
    Sess() { arena = (uint8_t *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); objs.resize(64); }
    uint8_t *get(size_t k, size_t al) { used = (used + al - 1) / al * al; uint8_t *p = arena + used; used += k; if (used > ARENA) { fprintf(stderr, "harness: arena\n"); exit(2); } return p; }
    const uint8_t *in(size_t k, bool secret) override
    {
        uint8_t *p = get(k, 1); int s = 0; inputs++; if (secret) { s = (int)secrets == special ? sym2 : sym; secrets++; }
        for (size_t i = 0; i < k; i++) p[i] = symbol(s, i, k, inputs);
        return p;
    }
    const uint8_t *from(const uint8_t *q, size_t k) override { uint8_t *p = get(k, 1); if (k) memcpy(p, q, k); return p; }
    uint8_t *out(size_t k) override { uint8_t *p = get(k, 1); memset(p, 0x6D, k); return p; }
    uint8_t *inw(size_t k, size_t extra) override { uint8_t *p = get(k + extra, 1); memcpy(p, in(k, true), k); return p; }
    void *mem(size_t size, size_t al) override { uint8_t *p = get(size, al < 64 ? 64 : al); memset(p, 0x6D, size); return p; }
    size_t object(size_t size, size_t) override { objs[nobj] = mem(size, 64); return nobj++; }
    void *where(size_t i) override { return objs[i]; }
    void rc(long v) override { if (v != 0) bad = v; }
};
static Sess S;
static std::string family(const Recipe &r) { size_t k = r.name.find_first_of(" 0123456789-"); return r.name.substr(0, k); }
static const Recipe *cur; static size_t cn, cm; static ucontext_t back; static const size_t STACK = 256 << 10; alignas(4096) static uint8_t stack[STACK];
static void body() { trap_on(); cur->run(S, cn, cm); trap_off(); setcontext(&back); }
static uint64_t trace(const Recipe &r, size_t n, size_t m, int sym, int special, int sym2)
{
    S.used = 0; S.nobj = 0; S.secrets = S.inputs = 0; S.sym = sym; S.special = special; S.sym2 = sym2; S.bad = 0; H = 1; count = 0; nkept = 0; inside = false;
    cur = &r; cn = n; cm = m; static ucontext_t ctx; getcontext(&ctx);   // always the same stack, so that the addresses can be the same
    memset(stack, 0x5C, STACK); ctx.uc_stack.ss_sp = stack; ctx.uc_stack.ss_size = STACK; ctx.uc_link = nullptr; makecontext(&ctx, body, 0); swapcontext(&back, &ctx);
    g.transitions += count; g.states++; if (S.bad) fail("a valid call returned %ld", S.bad);
    return H;
}
static std::string place(const uint8_t *pc)
{
    Dl_info d; if (!dladdr((void *)pc, &d)) return str("%p", (void *)pc);
    return str("%s+0x%zx of %s at offset 0x%zx", d.dli_sname ? d.dli_sname : "?", d.dli_sname ? (size_t)(pc - (uint8_t *)d.dli_saddr) : 0, strrchr(d.dli_fname, '/') ? strrchr(d.dli_fname, '/') + 1 : d.dli_fname, (size_t)(pc - (uint8_t *)d.dli_fbase));
}
static void compare(const Recipe &r, size_t n, size_t m, uint64_t h0, unsigned long c0, int sym, int special, int sym2)
{
    uint64_t h = trace(r, n, m, sym, special, sym2); g.comparisons += count; if (h == h0 && count == c0) return;
    keep = true; std::vector<Entry> a, b; trace(r, n, m, 0, -1, 0); a.assign(kept, kept + nkept); trace(r, n, m, sym, special, sym2); b.assign(kept, kept + nkept); keep = false;
    for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) {
        if (a[i].pc != b[i].pc) fail("other secrets, other path: instruction %zu after %s is %s or %s", i, i ? place(a[i - 1].pc).c_str() : "the start", place(a[i].pc).c_str(), place(b[i].pc).c_str());
        fail("other secrets, other address: instruction %zu, %s, accesses memory through registers %llx, %llx or %llx, %llx", i, place(a[i].pc).c_str(), (unsigned long long)a[i].base, (unsigned long long)a[i].index, (unsigned long long)b[i].base, (unsigned long long)b[i].index);
    }
    fail("other secrets, other path: %lu or %lu instructions", c0, count);
}

int main(int argc, char **argv)
{
    init(argc, argv);
    bool few = false, least = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "few")) few = true; else if (!strcmp(argv[i], "least")) few = least = true;
    keccak_recipes(true);
    kept = (Entry *)mmap(nullptr, KEEP * sizeof(Entry), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#ifndef INSTR
    dl_iterate_phdr(find_lib, nullptr);
    if (!tx_lo || !ex_lo) { fprintf(stderr, "harness: library not found\n"); return 2; }
    libcache = new Op[tx_hi - tx_lo]; known = (uint8_t *)calloc(1, tx_hi - tx_lo);
    cache.reserve(1 << 16);
    struct sigaction sa{}; sa.sa_flags = SA_SIGINFO; sa.sa_sigaction = on_step; sigaction(SIGTRAP, &sa, nullptr);
#endif
    for (auto &r : recipes) {
        if (!begin("%s: instruction and address trace under every assignment", r.name.c_str())) continue;
        std::vector<std::array<size_t, 2>> args;
        for (auto &a : g.thorough && INSTRUMENTED ? r.all : r.few) if (g.thorough || !few || a == r.few.front() || a == r.few.back() || a == r.few[r.few.size() / 3]) args.push_back(a);
        size_t small = 0; for (size_t i = 0; i < args.size(); i++) { auto &a = args[i]; if (a[0] && a[0] + a[1] > 0 && (!args[small][0] || a[0] + a[1] < args[small][0] + args[small][1])) small = i; }
        if (least && !g.thorough) args = {args[small]}, small = 1;
        for (size_t i = 0; i < args.size(); i++) {
            auto a = args[i];
            r.run(S, a[0], a[1]);   // dynamic linking and the like
            uint64_t h0 = trace(r, a[0], a[1], 0, -1, 0); unsigned long c0 = count;unsigned secrets = S.secrets;
            // which assignments: all to all inputs at once, and single inputs apart; fewer for long sessions, which repeat the same few loops
#ifdef INSTR
            unsigned long runs = std::max(3ul, (g.thorough ? 2000000000ul : few ? 2000000ul : 6000000ul) / (c0 + 1)); bool skip = false;
#else
            bool lead = &r == &recipes[0] || family(r) != family((&r)[-1]);
            unsigned long runs = g.thorough ? 300 : c0 > 60000 ? 2 : least ? 3 : i == small ? 20 : 6; bool skip = !g.thorough && c0 > 60000 && ((least && !lead) || c0 > (lead ? 700000 : 400000));
#endif
            if (skip) continue;
            unsigned long done = 0;
            for (int s : {1, 2, 4, 5, 3, 6, 7}) { if (done >= runs) break; done++; call("n=%zu m=%zu, all secrets %s", a[0], a[1], named(s).c_str()); compare(r, a[0], a[1], h0, c0, s, -1, 0); }
            if (secrets > 1) for (unsigned j = 0; j < secrets && j < 8; j++) for (int s : {1, 2, 5, 4}) { if (done >= runs) break; done++; call("n=%zu m=%zu, secret input %u %s", a[0], a[1], j, named(s).c_str()); compare(r, a[0], a[1], h0, c0, 0, j, s); }
            for (int v = 0; v < 256; v++) { if (done >= runs) break; int s = 8 + (uint8_t)(v * 167 + 128); done++; call("n=%zu m=%zu, all secrets %s", a[0], a[1], named(s).c_str()); compare(r, a[0], a[1], h0, c0, s, -1, 0); }
        }
    }
    return finish();
}
