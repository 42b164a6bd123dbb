// C25: the KeccakSum command.  Its main() runs in a child process on virtual files (fopen is redirected to
// streams this harness serves, so the size of every read and every read error is chosen here) and its exit status and
// standard output are compared with a small interpreter of the documented options on top of the reference hashes.
#include "mc.hpp"
#include "ref.hpp"
#include <map>
#include <algorithm>
#include <sys/wait.h>
#include <fcntl.h>
using namespace mc;
using namespace ref;

extern "C" int keccaksum_main(int, char **);
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:allocator_may_return_null=1"; }

// ------------------------------------------------------------------------------------------- virtual files
struct VFile { size_t len = 0; uint32_t salt = 0; long fail_at = -1; std::vector<size_t> chunks; };   // fail_at: reading fails once that many bytes were delivered
static std::map<std::string, VFile> files;      // "-" is standard input
static VFile &stdin_file() { return files["-"]; }

struct Cursor { VFile f; size_t pos = 0, turn = 0; };
static ssize_t v_read(void *c, char *buf, size_t n)
{
    Cursor &k = *(Cursor *)c;
    if (k.f.fail_at >= 0 && k.pos >= (size_t)k.f.fail_at) { errno = EIO; return -1; }
    size_t m = std::min(n, k.f.len - k.pos);
    if (k.f.fail_at >= 0) m = std::min(m, (size_t)k.f.fail_at - k.pos);
    if (!k.f.chunks.empty()) m = std::min(m, k.f.chunks[k.turn++ % k.f.chunks.size()]);
    for (size_t i = 0; i < m; i++) buf[i] = (char)dat(k.pos + i, k.f.salt);
    k.pos += m;
    return (ssize_t)m;
}
static int v_seek(void *c, off64_t *off, int wh)
{
    Cursor &k = *(Cursor *)c;
    off64_t t = wh == SEEK_SET ? *off : wh == SEEK_CUR ? (off64_t)k.pos + *off : (off64_t)k.f.len + *off;
    if (t < 0) return -1;
    k.pos = (size_t)t; *off = t; return 0;
}
static FILE *v_open(const VFile &f, bool seekable)
{
    Cursor *c = new Cursor; c->f = f;
    cookie_io_functions_t io{}; io.read = v_read; if (seekable) io.seek = v_seek;
    return fopencookie(c, "r", io);
}
static bool in_child = false;
extern "C" FILE *__wrap_fopen(const char *name, const char *mode)
{
    if (!in_child) return __real_fopen(name, mode);
    auto it = files.find(name);
    if (it == files.end() || it->first == "-" || mode[0] != 'r') { errno = ENOENT; return nullptr; }
    return v_open(it->second, true);
}
extern "C" FILE *__wrap_fopen64(const char *name, const char *mode) { return __wrap_fopen(name, mode); }

static const size_t outcap = 4 << 20;
static char *out_shared; static size_t *out_len;
static ssize_t v_write(void *, const char *p, size_t n)
{
    if (*out_len + n > outcap) _exit(98);
    memcpy(out_shared + *out_len, p, n); *out_len += n; return (ssize_t)n;
}

// ------------------------------------------------------------------------------------------- reference interpreter
struct Spec { int alg = 0; int level = 128; size_t rate = 168; int bits = 264; uint8_t suffix = 0x1F; size_t B = 8192; bool b64 = true; };
struct Named { const char *opt; Spec s; };
static std::vector<Named> algorithms()
{
    auto k = [](size_t rate, int bits, uint8_t suf, bool b64) { Spec s; s.rate = rate; s.bits = bits; s.suffix = suf; s.b64 = b64; return s; };
    Spec k12; k12.alg = 1; Spec p1; p1.alg = 2; Spec p2 = p1; p2.level = 256; p2.bits = 528;
    return {{"--shake128", k(168, 264, 0x1F, true)}, {"--shake256", k(136, 528, 0x1F, true)}, {"--sha3-224", k(144, 224, 0x06, false)},
            {"--sha3-256", k(136, 256, 0x06, false)}, {"--sha3-384", k(104, 384, 0x06, false)}, {"--sha3-512", k(72, 512, 0x06, false)},
            {"--ethereum", k(136, 256, 0x01, false)}, {"--k12", k12}, {"--kangarootwelve", k12}, {"--ph128", p1}, {"--ph256", p2}};
}
static std::string encode(const Bytes &d, bool b64)
{
    if (!b64) return hex(d.data(), d.size());
    static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string s; size_t nb = 8 * d.size();
    for (size_t i = 0; i < nb; i += 6) {     // six bits at a time, most significant first
        int v = 0; for (size_t j = i; j < i + 6; j++) v = 2 * v + (j < nb ? (d[j / 8] >> (7 - j % 8)) & 1 : 0);
        s += t[v];
    }
    while (s.size() % 4) s += '=';
    return s;
}
static bool params_ok(const Spec &s) { return s.alg != 2 || (s.B >= 8 && (s.B & (s.B - 1)) == 0); }
static std::string digest(const Spec &s, const Bytes &m)
{
    static std::map<std::string, std::string> memo;
    std::string key = str("%d %d %zu %d %d %zu %d ", s.alg, s.level, s.rate, s.bits, s.suffix, s.alg == 2 ? s.B : 0, s.b64) + std::string((const char *)m.data(), std::min<size_t>(m.size(), 48)) + str(" %zu", m.size());
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    Bytes d; size_t n = s.bits / 8;
    if (s.alg == 0) d = sponge(s.rate, 24, m, s.suffix, n);
    else if (s.alg == 1) { K12 k(128, m); d = k(m.size(), {}).squeeze(n); }
    else d = SP185(s.level).parallel(m, s.B, Bits(), s.bits).squeeze(n);
    if (memo.size() > 4000) memo.clear();
    return memo[key] = encode(d, s.b64);
}
struct Expect { std::string lines; bool error = false, anything = false, skip = false; };
static Bytes content(const VFile &f) { return data(f.len, f.salt); }
static const size_t maxbits = 65536 * 8;

static Expect interpret(const std::vector<std::string> &argv)
{
    Expect e; Spec s; bool named = false, stdin_used = false; auto algs = algorithms();
    auto file = [&](const std::string &name) {
        if ((size_t)s.bits > maxbits || !params_ok(s)) { e.error = true; return; }
        auto it = files.find(name);
        if (it == files.end() || it->second.fail_at >= 0) { e.error = true; return; }
        Bytes m; if (name != "-" || !stdin_used) m = content(it->second);
        if (name == "-") stdin_used = true;
        e.lines += digest(s, m) + "  " + name + "\n";
    };
    for (size_t i = 0; i < argv.size() && !e.error; i++) {
        const std::string &a = argv[i]; bool hit = false;
        for (auto &n : algs) if (a == n.opt) { size_t B = n.s.alg == 2 ? n.s.B : s.B; s = n.s; s.B = B; hit = true; }
        if (hit) continue;
        if (a == "--base64") s.b64 = true;
        else if (a == "--hex") s.b64 = false;
        else if (a == "--outputbits" || a == "-n") {
            if (i + 1 >= argv.size()) { e.error = true; break; }
            int v = atoi(argv[++i].c_str());
            if (v <= 0 || v % 8) e.error = true; else s.bits = v;
        } else if (a == "-B") {
            if (i + 1 >= argv.size()) { e.error = true; break; }
            int v = atoi(argv[++i].c_str());
            if (v <= 0) e.error = true; else s.B = v;
        } else if (a == "--no-suffix") s.suffix = 0x01;
        else if (a == "--string") {
            if (i + 1 >= argv.size()) { e.error = true; break; }
            const std::string &t = argv[++i];
            if ((size_t)s.bits > maxbits || !params_ok(s)) { e.skip = true; return e; }   // what the command does next is not specified
            e.lines += digest(s, Bytes(t.begin(), t.end())) + "  \"" + t + "\"\n";
        } else if (a == "--help" || a == "-h") { e.anything = true; return e; }
        else if (a.size() > 2 && a[0] == '-' && a[1] == '-') e.error = true;
        else { named = true; file(a); }
    }
    if (!e.error && !named) file("-");
    return e;
}

// ------------------------------------------------------------------------------------------- one run
static bool looks_like_digest(const std::string &l)
{
    size_t i = 0; while (i < l.size() && (isalnum((unsigned char)l[i]) || l[i] == '+' || l[i] == '/' || l[i] == '=')) i++;
    return i >= 2 && l.compare(i, 2, "  ") == 0 && i + 2 < l.size();
}
static void run(std::vector<std::string> argv)
{
    g.free_path = "KeccakSum"; for (auto &a : argv) g.free_path += " " + (a.empty() ? "''" : a);
    g.progress++; g.transitions++;
    Expect e = interpret(argv);
    if (e.skip) return;
    *out_len = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPROF}) signal(s, SIG_DFL);
        itimerval off{}; setitimer(ITIMER_PROF, &off, nullptr);
        alarm(60);
        in_child = true;
        cookie_io_functions_t io{}; io.write = v_write;
        stdout = fopencookie(nullptr, "w", io);
        stdin = v_open(stdin_file(), false);
        int nul = open("/dev/null", 1); dup2(nul, 2); dup2(nul, 1);
        std::vector<char *> av; static char me[] = "KeccakSum"; av.push_back(me);
        for (auto &a : argv) av.push_back(&a[0]);
        av.push_back(nullptr);
        int rc = keccaksum_main((int)av.size() - 1, av.data());
        exit(rc);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(2); }
    g.states++; g.comparisons++;
    std::string out(out_shared, *out_len);
    if (WIFSIGNALED(st)) fail("the command was ended by signal %d", WTERMSIG(st));
    int rc = WEXITSTATUS(st);
    if (rc == 99) fail("memory error in the command (address sanitizer)");
    if (rc == 98) fail("the command printed more than %zu bytes", outcap);
    if (e.anything) { if (rc) fail("exit status %d for a request for help", rc); if (out.compare(0, e.lines.size(), e.lines)) fail("digest lines before the help differ"); return; }
    if (out.compare(0, e.lines.size(), e.lines) != 0) {
        size_t i = 0; while (i < out.size() && i < e.lines.size() && out[i] == e.lines[i]) i++;
        size_t b = i < 20 ? 0 : i - 20;
        fail("printed text differs at character %zu: printed \"%s\", expected \"%s\"", i, out.substr(b, 60).c_str(), e.lines.substr(b, 60).c_str());
    }
    if (!e.error) {
        if (rc) fail("exit status %d although all inputs were readable", rc);
        if (out.size() != e.lines.size()) fail("additional text printed: \"%s\"", out.substr(e.lines.size(), 200).c_str());
    } else {
        if (!rc) fail("exit status 0 although there was an error (printed \"%s\")", out.substr(e.lines.size(), 200).c_str());
        for (size_t p = e.lines.size(); p < out.size();) {
            size_t q = out.find('\n', p); if (q == std::string::npos) q = out.size();
            if (looks_like_digest(out.substr(p, q - p))) fail("a digest is printed after an error: \"%s\"", out.substr(p, std::min<size_t>(q - p, 100)).c_str());
            p = q + 1;
        }
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    bool th = g.thorough;
    out_shared = (char *)mmap(nullptr, outcap + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    out_len = (size_t *)(out_shared + outcap);
    auto algs = algorithms();
    auto plain = [&] { files.clear(); files["a"] = {11, 1}; files["b"] = {300, 2}; files["-"] = {70, 3}; };

    // A. every content length: two blocks, and around multiples of the read buffer
    for (auto &al : algs) for (bool ns : {false, true}) for (bool hexa : {false, true}) {
        if (ns && al.s.alg) continue;
        std::vector<size_t> lens = upto(0, (th ? 5 : 2) * al.s.rate + 2);
        for (size_t k = 1; k <= (th ? 5 : 2); k++) for (long d = th ? -40 : -3; d <= (th ? 40 : 3); d++) lens.push_back(65536 * k + d);
        if (al.s.alg) for (size_t k = 1; k <= 17; k++) for (long d = -3; d <= 3; d++) lens.push_back(8192 * k + d);
        for (int via = 0; via < 2; via++) {
            if (!begin("%s%s %s, every length of the %s", al.opt, ns ? " --no-suffix" : "", hexa ? "hex" : "base64", via ? "standard input" : "file")) continue;
            for (size_t l : lens) {
                plain(); (via ? files["-"] : files["a"]) = {l, 7};
                std::vector<std::string> v = {al.opt}; if (ns) v.push_back("--no-suffix");
                v.push_back(hexa ? "--hex" : "--base64");
                if (!via) v.push_back("a");
                run(v);
            }
        }
    }
    // B. every digest length
    for (auto &al : algs) for (bool hexa : {false, true}) {
        if (!begin("%s %s, every digest length", al.opt, hexa ? "hex" : "base64")) continue;
        plain();
        std::vector<size_t> bits; for (size_t n = 1; n <= (th ? 6 : 3) * al.s.rate + 2; n++) bits.push_back(8 * n);
        for (size_t n = 65536 - (th ? 12 : 3); n <= 65536 + 3; n++) bits.push_back(8 * n);
        for (size_t n : {32767, 32768, 32769, 49151, 49152, 98304, 131072}) bits.push_back(8 * n);
        for (size_t b : bits) {
            std::string n = str("%zu", b), e = hexa ? "--hex" : "--base64";
            run({al.opt, e, "-n", n, "a"});
            if (b <= 16 * al.s.rate) run({al.opt, e, "--outputbits", n, "--string", "abc", "b"});
        }
        for (const char *bad : {"0", "-8", "1", "7", "9", "12", "x", "", "263"}) { run({al.opt, "-n", bad, "a"}); run({"a", al.opt, "--outputbits", bad}); }
    }
    // C. ParallelHash block sizes
    for (const char *al : {"--ph128", "--ph256"}) {
        for (size_t B : {1, 2, 4, 7, 8, 9, 12, 16, 24, 32, 64, 128, 256, 512, 1024, 4096, 8191, 8192, 16384, 65536, 131072, 1000000}) {
            if (!begin("%s -B %zu", al, B)) continue;
            std::vector<size_t> lens = {0, 1, 65535, 65536, 65537, 131072, 131073};
            for (size_t k = 1; k <= (th ? 9 : 4); k++) for (long d = -2; d <= 2; d++) if ((long)(k * B) + d >= 0 && k * B < 300000) lens.push_back(k * B + d);
            for (size_t l : lens) { plain(); files["a"] = {l, 9}; run({al, "-B", str("%zu", B), "a"}); run({"-B", str("%zu", B), al, "a"}); run({al, "-B", str("%zu", B), "--hex", "-n", "24", "a", "b"}); }
        }
        if (begin("%s -B, refused values", al)) { plain(); for (const char *bad : {"0", "-8", "x", ""}) run({al, "-B", bad, "a"}); run({al, "-B"}); }
    }
    // D. all sequences of options and file names
    typedef std::vector<std::string> V;
    std::vector<V> tok = {{"--base64"}, {"--hex"}, {"-n", "16"}, {"--outputbits", "1600"}, {"--no-suffix"}, {"-B", "16"}, {"--string", "abc"}, {"--string", ""},
        {"a"}, {"b"}, {"-"}, {"missing"}, {"broken"}, {"-x"}, {"--unknown"}, {"--help"}, {"-h"}, {"-n"}, {"-B"}, {"--string"}, {"-n", "524296"}, {"-B", "12"}};
    for (auto &al : algs) tok.push_back({al.opt});
    auto world = [&] { plain(); files["broken"] = {100, 4, 50}; };
    for (size_t i = 0; i <= tok.size(); i++) {
        if (!begin("option sequences of up to 3 starting with %s", i ? tok[i - 1][0].c_str() : "nothing")) continue;
        world();
        if (!i) { run({}); continue; }
        auto cat = [](V a, const V &b) { a.insert(a.end(), b.begin(), b.end()); return a; };
        V v1 = tok[i - 1]; run(v1);
        for (auto &t2 : tok) { V v2 = cat(v1, t2); run(v2); for (auto &t3 : tok) run(cat(v2, t3)); }
    }
    std::vector<V> small = {{"--hex"}, {"-n", "16"}, {"--no-suffix"}, {"-B", "16"}, {"--string", "abc"}, {"a"}, {"-"}, {"--shake256"}, {"--sha3-384"}, {"--k12"}, {"--ph128"}, {"--ph256"}};
    if (th) { small.push_back({"--base64"}); small.push_back({"missing"}); small.push_back({"--ethereum"}); }
    for (size_t i = 0; i < small.size(); i++) for (size_t j = 0; j < small.size(); j++) {
        if (!begin("sequences of %d starting with %s %s", th ? 5 : 4, small[i][0].c_str(), small[j][0].c_str())) continue;
        world();
        std::function<void(V, int)> rec = [&](V v, int d) {
            if (!d) { run(v); return; }
            for (auto &t : small) { V w = v; w.insert(w.end(), t.begin(), t.end()); rec(w, d - 1); }
        };
        V v = small[i]; v.insert(v.end(), small[j].begin(), small[j].end()); rec(v, th ? 3 : 2);
    }
    // E. sizes of the individual reads, and a read error at every point
    for (auto &al : algs) for (int via = 0; via < 2; via++) {
        if (begin("%s, reads of every size from the %s", al.opt, via ? "standard input" : "file"))
            for (size_t l : {1, 2, 300, 65535, 65536, 65537, 131072, 140000})
                for (auto &ch : std::vector<std::vector<size_t>>{{1}, {7}, {168}, {4095}, {4096}, {4097}, {65535}, {65536}, {1, 65535}, {65535, 1, 4096}, {100, 4096, 1}}) {
                    if (ch[0] < 100 && ch.size() == 1 && l > 1000 && !th) continue;
                    plain(); (via ? files["-"] : files["a"]) = {l, 5, -1, ch};
                    if (via) run({al.opt}); else run({al.opt, "a", "b"});
                    if (via) run({al.opt, "a", "-", "-", "b"});
                }
        if (begin("%s, read error at every point of the %s", al.opt, via ? "standard input" : "file")) {
            std::vector<size_t> at = upto(0, th ? 600 : 40);
            for (size_t k : {4096, 8192, 65536, 131072}) for (long d = -2; d <= 2; d++) at.push_back(k + d);
            for (size_t p : at) for (int ch = 0; ch < 3; ch++) {
                plain(); VFile f; f.len = 140000; f.salt = 6; f.fail_at = (long)p; if (ch) f.chunks = {ch == 1 ? (size_t)4096 : 1000};
                (via ? files["-"] : files["a"]) = f;
                if (via) run({al.opt, "b", "-", "b"}); else { run({al.opt, "a"}); run({al.opt, "b", "a", "b"}); }
            }
        }
    }
    return finish();
}
