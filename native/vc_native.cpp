// Native runtime of the contracts: tape-driven execution of the same contract functions on the real code.
#include "../contracts/vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <map>
#include <new>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>

static std::string word(const char* n)
{
    std::string s(n && n[0] ? n : "_");
    for (char& c : s)
        if (c == ' ')
            c = '_';
    return s;
}

struct VcReject { };
struct VcFail { std::string label; };

namespace {
struct Contract { std::string name; void (*fn)(int); std::string meta; int cases; std::string kind; };
std::vector<Contract>& registry() { static std::vector<Contract> r; return r; }

struct Entry { uint64_t lo, hi; uint64_t v, v2; int bits; char name[24]; };  // bits -1: pick
struct Shared {
    volatile uint64_t beat;
    volatile int contract, cse, n;
    volatile uint64_t execs, rejected, nontrivial;
    volatile int status;
    char label[512];
    Entry tape[20000];
};
Shared* sh;

enum Mode { REPLAY, RANDOM, ENUM } mode;
std::vector<Entry> in;      // input tape (replay / enum prefix / mutation base)
size_t pos;
std::mt19937_64 rng;
int mutate_rate = 0;
std::map<std::string, uint64_t> covers;
bool diverged;

void record(int bits, uint64_t lo, uint64_t hi, uint64_t v, uint64_t v2, const char* name)
{
    int n = sh->n;
    if (n < 20000) {
        Entry& e = sh->tape[n];
        e.lo = lo; e.hi = hi; e.v = v; e.v2 = v2; e.bits = bits;
        strncpy(e.name, name, sizeof e.name - 1); e.name[sizeof e.name - 1] = 0;
        sh->n = n + 1;
    }
    else throw VcReject();
}

uint64_t maskn(int bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }

uint64_t gen(int bits, bool sizelike)
{
    if (sizelike) {
        switch (rng() % 4) { case 0: return rng() % 3; case 1: return rng() % 9; default: return rng() % 24; }
    }
    if (bits == 1) return rng() & 1;
    static std::vector<uint64_t> recent;
    uint64_t v;
    switch (rng() % 12) {
    case 0: v = rng() % 4; break;
    case 1: v = rng() % 16; break;
    case 2: v = rng() % 256; break;
    case 3: v = (1ull << (rng() % 64)) + (rng() % 3) - 1; break;
    case 4: v = maskn(bits) - rng() % 4; break;
    case 5: v = (1ull << (bits > 64 ? 63 : bits - 1)) + (rng() % 3) - 1; break;
    case 6: { uint64_t p = 1; for (int k = rng() % 19; k; --k) p *= 10; v = p * (1 + rng() % 9) + (rng() % 3) - 1; break; }
    case 7: case 8: v = recent.empty() ? rng() : recent[rng() % recent.size()] + (rng() % 3) - 1; break;
    case 9: case 10: v = rng() >> (rng() % 64); break;
    default: v = rng();
    }
    v &= maskn(bits > 64 ? 64 : bits);
    recent.push_back(v);
    if (recent.size() > 16) recent.erase(recent.begin());
    return v;
}

// structured byte strings: contracts that feed text ask for names starting with '$'
uint64_t gen_named(int bits, const char* name)
{
    if (name[0] == '$') {
        static const char num[] = "0123456789.-+ 0011900";
        return static_cast<unsigned char>(num[rng() % (sizeof num - 1)]);
    }
    return gen(bits, name[0] == '#');
}

Entry draw(int bits, uint64_t lo, uint64_t hi, const char* name)
{
    Entry e{lo, hi, 0, 0, bits, {}};
    if (pos < in.size()) {
        e.v = in[pos].v; e.v2 = in[pos].v2;
        if (in[pos].bits != bits) diverged = true;
        if (mode == RANDOM && mutate_rate && rng() % mutate_rate == 0) {
            if (bits < 0) e.v = lo + rng() % (hi - lo + 1);
            else { e.v = gen_named(bits, name); if (bits > 64) e.v2 = rng() % 2 ? 0 : gen(64, false); }
        }
        if (bits < 0 && (e.v < lo || e.v > hi)) {
            if (mode == REPLAY) throw VcReject();
            e.v = lo;
        }
    }
    else if (mode == RANDOM) {
        if (bits < 0) e.v = lo + rng() % (hi - lo + 1);
        else { e.v = gen_named(bits, name); if (bits > 64 && rng() % 2) e.v2 = gen(64, false); }
    }
    else if (mode == ENUM) {
        if (bits < 0) e.v = lo;
        else { e.v = gen_named(bits, name); }
    }
    else e.v = bits < 0 ? lo : 0;
    ++pos;
    if (bits >= 0) { e.v &= maskn(bits > 64 ? 64 : bits); e.v2 &= bits > 64 ? maskn(bits - 64) : 0; }
    record(bits, lo, hi, e.v, e.v2, name);
    return e;
}

// edge coverage
std::vector<uint8_t> edges;
std::vector<uint32_t> hitlist;
}

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* s, uint32_t* e)
{
    static uint32_t n = 0;
    if (s == e || *s) return;
    for (uint32_t* x = s; x < e; ++x) *x = ++n;
}
static uint8_t g_seen[1 << 20];
static bool g_new;
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
    uint32_t i = *g & ((1 << 20) - 1);
    if (!g_seen[i]) { g_seen[i] = 1; g_new = true; }
}

VcReg::VcReg(const char* name, void (*fn)(int), const char* meta)
{
    std::string m = meta;
    size_t a = m.find('\x1f'), b = m.find('\x1f', a + 1);
    registry().push_back({name, fn, m, atoi(m.c_str()), m.substr(a + 1, b - a - 1)});
}

// live-block counting for vc_live
static long g_live = 0;
static thread_local bool g_count = false;
static int g_fail_new = -1;
static void maybe_fail() { if (g_fail_new >= 0 && g_fail_new-- == 0) throw std::bad_alloc(); }
extern "C" void vc_fail_new(int n) { g_fail_new = n; }
void* operator new(size_t n) { maybe_fail(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --g_live; free(p); }
void* operator new[](size_t n) { maybe_fail(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void operator delete[](void* p) noexcept { if (p) --g_live; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --g_live; free(p); }

extern "C" {
uint64_t vc_any(unsigned bits, const char* name) { return draw(bits, 0, 0, name).v; }
unsigned __int128 vc_any128(unsigned bits, const char* name)
{
    Entry e = draw(bits, 0, 0, name);
    return ((unsigned __int128)e.v2 << 64) | e.v;
}
void vc_assume(bool c) { if (!c) throw VcReject(); }
void vc_assert(bool c, const char* label) { if (!c) throw VcFail{label}; }
void vc_invariant(bool c, const char* label) { if (!c) throw VcFail{label}; }
void vc_fail(const char* label) { throw VcFail{label}; }
void vc_cover(const char* label) { ++covers[label]; }
uint64_t vc_pick(uint64_t lo, uint64_t hi, const char* name) { if (hi < lo) throw VcReject(); return draw(-1, lo, hi, name).v; }
uint64_t vc_conc(uint64_t v) { return v; }
void vc_bytes(void* p, size_t n, const char* name)
{
    for (size_t i = 0; i < n; ++i) static_cast<unsigned char*>(p)[i] = static_cast<unsigned char>(draw(8, 0, 0, name).v);
}
static std::vector<void*> g_owned;
void* vc_symarray(size_t n, size_t es, const char* name)
{
    if (n > (1u << 16)) throw VcReject();
    unsigned char* p = static_cast<unsigned char*>(::operator new(n * es));
    for (size_t i = 0; i < n; ++i) { Entry e = draw(int(es * 8), 0, 0, name); memcpy(p + i * es, &e.v, es > 8 ? 8 : es); }
    return p;
}
void* vc_opaque(const char*) { return reinterpret_cast<void*>(uintptr_t(0xdead0000beef0000ull)); }
size_t vc_live() { return size_t(g_live); }
bool vc_alive(const void*) { return true; }
uint64_t vc_fold(unsigned, uint64_t) { throw VcReject(); }
uint64_t vc_ghost_fn(unsigned, uint64_t, uint64_t) { throw VcReject(); }
const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0"; }
const char* __ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=0"; }
}

// 0 ok, 1 failed, 2 rejected
static int run_one(int ci, int cse, std::string& label)
{
    Contract& c = registry()[ci];
    sh->contract = ci; sh->cse = cse; sh->n = 0;
    pos = 0; diverged = false;
    g_fail_new = -1;
    try { c.fn(cse); }
    catch (const VcReject&) { return 2; }
    catch (const VcFail& f) { label = f.label; return 1; }
    catch (const std::exception& e) { label = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what(); return 1; }
    catch (...) { label = "unexpected exception"; return 1; }
    return 0;
}

static void put_tape(FILE* f, const char* status, const char* label)
{
    Contract& c = registry()[sh->contract];
    fprintf(f, "contract %s\ncase %d\nstatus %s\nlabel %s\n", c.name.c_str(), sh->cse, status, label);
    for (int i = 0; i < sh->n; ++i) {
        const Entry& e = sh->tape[i];
        fprintf(f, "draw %s %d %llu %llu\n", word(e.name).c_str(), e.bits, (unsigned long long)e.v, (unsigned long long)e.v2);
    }
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static bool next_enum()
{
    // odometer over the picks of the run just made
    std::vector<Entry> t(sh->tape, sh->tape + sh->n);
    while (!t.empty()) {
        Entry& e = t.back();
        if (e.bits < 0 && e.v < e.hi) { ++e.v; in = t; return true; }
        t.pop_back();
    }
    return false;
}

// child body: returns via _exit
static void child(const std::vector<std::pair<int, int>>& jobs, double secs, uint64_t seed, bool do_enum, uint64_t max_execs)
{
    std::string label;
    double per = secs / (jobs.empty() ? 1 : jobs.size());
    FILE* rep = fdopen(3, "w");
    for (auto& j : jobs) {
        rng.seed(seed * 7919 + j.first * 131 + j.second);
        double end = now() + per;
        uint64_t execs = 0, rej = 0, nontriv = 0;
        bool complete = false, random = false;
        covers.clear();
        if (do_enum && registry()[j.first].kind.rfind("enum", 0) == 0) {
            mode = ENUM; in.clear();
            for (;;) {
                ++sh->beat;
                int r = run_one(j.first, j.second, label);
                ++execs;
                for (int i = 0; i < sh->n && !random; ++i) random = sh->tape[i].bits >= 0;
                if (r == 2) ++rej; else if (sh->n) ++nontriv;
                if (r == 1) { strncpy(sh->label, label.c_str(), 511); sh->status = 1; _exit(1); }
                if (!next_enum()) { complete = true; break; }
                if ((execs & 15) == 0 && now() > end - per * 0.75) break;
            }
        }
        if (!do_enum || registry()[j.first].kind.rfind("enum", 0) != 0 || random || !complete) {
            // values drawn at random, or a space too large to enumerate: random values, guided by coverage
            complete = false;
            mode = RANDOM;
            std::vector<std::vector<Entry>> corpus;
            std::set<uint64_t> seen;
            for (;;) {
                ++sh->beat;
                if (!corpus.empty() && rng() % 2) { in = corpus[rng() % corpus.size()]; mutate_rate = 1 + rng() % 12; if (rng() % 4 == 0) in.resize(rng() % (in.size() + 1)); }
                else { in.clear(); mutate_rate = 0; }
                g_new = false;
                int r = run_one(j.first, j.second, label);
                ++execs;
                if (r == 2) ++rej;
                else {
                    uint64_t h = 1469598103934665603ull;
                    for (int i = 0; i < sh->n; ++i) h = (h ^ sh->tape[i].v) * 1099511628211ull;
                    if (seen.size() < 2000000 && seen.insert(h).second) ++nontriv;
                }
                if (r == 1) { strncpy(sh->label, label.c_str(), 511); sh->status = 1; _exit(1); }
                if (g_new && r == 0 && corpus.size() < 4096) corpus.emplace_back(sh->tape, sh->tape + sh->n);
                if (sh->n == 0 && r == 0 && execs > 3) { complete = true; break; }
                if (execs >= max_execs) break;
                if ((execs & 63) == 0 && now() > end) break;
            }
        }
        fprintf(rep, "done %s %d %llu %llu %llu %d", registry()[j.first].name.c_str(), j.second, (unsigned long long)execs,
                (unsigned long long)rej, (unsigned long long)nontriv, int(complete));
        for (auto& c : covers) fprintf(rep, " cover=%s:%llu", c.first.c_str(), (unsigned long long)c.second);
        fprintf(rep, "\n");
        fflush(rep);
    }
    _exit(0);
}

int main(int argc, char** argv)
{
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::string cmd = argc > 1 ? argv[1] : "list";
    auto& R = registry();
    if (cmd == "list") {
        for (auto& c : R) printf("%s\t%d\t%s\n", c.name.c_str(), c.cases, c.kind.c_str());
        return 0;
    }
    if (cmd == "replay") {
        FILE* f = fopen(argv[2], "r");
        if (!f) return 3;
        char line[1024], nm[600];
        int ci = -1, cse = 0;
        while (fgets(line, sizeof line, f)) {
            Entry e{};
            unsigned long long v, v2;
            if (sscanf(line, "contract %599s", nm) == 1) { for (size_t i = 0; i < R.size(); ++i) if (R[i].name == nm) ci = int(i); }
            else if (sscanf(line, "case %d", &cse) == 1) { }
            else if (sscanf(line, "draw %599s %d %llu %llu", nm, &e.bits, &v, &v2) == 4) { e.v = v; e.v2 = v2; in.push_back(e); }
        }
        fclose(f);
        if (ci < 0) return 3;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(argc > 3 ? atoi(argv[3]) : 60);
            mode = REPLAY;
            std::string label;
            int r = run_one(ci, cse, label);
            if (r == 1) { strncpy(sh->label, label.c_str(), 511); _exit(1); }
            _exit(r == 2 ? 2 : 0);
        }
        int stt; waitpid(pid, &stt, 0);
        if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) { printf("contract holds on this tape\n"); return 0; }
        if (WIFEXITED(stt) && WEXITSTATUS(stt) == 2) { printf("tape is outside the precondition\n"); return 2; }
        if (WIFEXITED(stt) && WEXITSTATUS(stt) == 1) printf("FAILED: %s\n", sh->label);
        else printf("FAILED: %s\n", WIFSIGNALED(stt) && WTERMSIG(stt) == SIGALRM ? "does not terminate" : "crash (sanitizer report or signal)");
        return 1;
    }
    // search OUT SECS SEED ENUM(0/1) NAME[:case] ...
    if (cmd == "search") {
        const char* out = argv[2];
        double secs = atof(argv[3]);
        uint64_t seed = strtoull(argv[4], nullptr, 10);
        bool do_enum = atoi(argv[5]) != 0;
        uint64_t max_execs = strtoull(argv[6], nullptr, 10);
        std::vector<std::pair<int, int>> jobs;
        for (int a = 7; a < argc; ++a) {
            std::string s = argv[a]; int only = -1;
            size_t k = s.find(':');
            if (k != std::string::npos) { only = atoi(s.c_str() + k + 1); s.resize(k); }
            for (size_t i = 0; i < R.size(); ++i) if (R[i].name == s)
                for (int c = 0; c < R[i].cases; ++c) if (only < 0 || only == c) jobs.push_back({int(i), c});
        }
        int fd[2];
        if (pipe(fd)) return 3;
        FILE* f = fopen(out, "w");
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) { close(fd[0]); dup2(fd[1], 3); if (fd[1] != 3) close(fd[1]); child(jobs, secs, seed, do_enum, max_execs); }
        close(fd[1]);
        // watchdog in this process
        uint64_t last = 0; double lastt = now(); bool hang = false; int stt = 0;
        for (;;) {
            pid_t r = waitpid(pid, &stt, WNOHANG);
            if (r == pid) break;
            usleep(20000);
            if (sh->beat != last) { last = sh->beat; lastt = now(); }
            else if (now() - lastt > 60) { kill(pid, SIGKILL); hang = true; waitpid(pid, &stt, 0); break; }
        }
        FILE* rp = fdopen(fd[0], "r");
        char line[4096];
        while (fgets(line, sizeof line, rp)) fputs(line, f);
        int rc = 0;
        if (hang) { put_tape(f, "failed", "does not terminate"); rc = 1; }
        else if (WIFEXITED(stt) && WEXITSTATUS(stt) == 1 && sh->status == 1) { put_tape(f, "failed", sh->label); rc = 1; }
        else if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) { put_tape(f, "failed", "crash (sanitizer report or signal)"); rc = 1; }
        fclose(f);
        return rc;
    }
    return 3;
}
