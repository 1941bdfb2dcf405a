// Native interpretation of the harness primitives: the same contract, compiled
// against the real code, is executed on the verifier's counterexample (replay
// mode) or on generated inputs (search mode: bounded stand-in).
//
//   prog replay CONTRACT CEFILE          exit 0: no violation, 10: violation
//   prog search CONTRACT SEED TRIALS SECONDS OUTFILE
#include "lv.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0";
}

namespace {
struct Shared
{
    unsigned long trial;
    unsigned long done, rejected;
    char msg[512];
    int failed;
    unsigned nin;
    struct
    {
        char name[40];
        unsigned long v;
    } in[8192];
    unsigned nuf;
    struct
    {
        char name[24];
        unsigned long a, b, c, r;
    } ufs[8192];
};
Shared* sh;
sigjmp_buf jb;
bool replay;
std::map<std::string, std::vector<unsigned long>> ce_in;
std::map<std::string, unsigned> ce_pos;
std::map<std::string, unsigned long> ce_uf;
unsigned long rng;
unsigned long nx()
{
    rng += 0x9E3779B97F4A7C15ull;
    unsigned long z = rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
unsigned long gen()
{
    unsigned long r = nx();
    switch (r % 16) {
    case 0: return nx();
    case 1: return nx() % 256;
    case 2: case 3: return nx() % 16;
    case 4: case 5: case 6: return nx() % 8;
    case 7: case 8: case 9: case 10: return nx() % 4;
    case 11: case 12: return nx() % 3;
    default: return nx() % 2;
    }
}
unsigned long ufval(const char* f, int k, unsigned long a, unsigned long b, unsigned long c)
{
    char key[160];
    snprintf(key, sizeof key, "%s/%d:%lx:%lx:%lx", f, k, a, b, c);
    auto it = ce_uf.find(key);
    if (it != ce_uf.end())
        return it->second;
    unsigned long save = rng, s = 1469598103934665603ull;
    for (char* p = key; *p; ++p)
        s = (s ^ (unsigned char) *p) * 1099511628211ull;
    // mostly a small pool so that coincidences happen
    unsigned long seed = sh ? sh->trial * 7919 : 0;
    unsigned long keep = rng;
    rng = s ^ seed;
    unsigned long r = nx();
    r = (r & 0x700) ? (r >> 16) % 6 : (r >> 16);
    rng = keep;
    (void) save;
    if (sh && !replay && sh->nuf < 8192) {
        auto& u = sh->ufs[sh->nuf++];
        strncpy(u.name, f, sizeof u.name - 1);
        u.a = a; u.b = b; u.c = c; u.r = r;
    }
    if (!replay)
        ce_uf[key] = r;
    return r;
}
void fail(const char* what)
{
    if (sh && !sh->failed) {
        sh->failed = 1;
        strncpy(sh->msg, what, sizeof sh->msg - 1);
    }
    _exit(10);
}
void onsig(int s)
{
    static char b[64];
    snprintf(b, sizeof b, "signal %d (%s)", s,
             s == SIGABRT ? "abort: assertion or uncaught exception" : s == SIGSEGV ? "invalid memory access" : s == SIGALRM ? "does not terminate" : "crash");
    fail(b);
}
} // namespace

extern "C" {
uint64_t lv_any(const char* name)
{
    unsigned long v;
    if (replay) {
        auto& q   = ce_in[name];
        auto& pos = ce_pos[name];
        v = pos < q.size() ? q[pos++] : 0;
    } else {
        v = gen();
    }
    if (sh && sh->nin < 8192) {
        auto& i = sh->in[sh->nin++];
        strncpy(i.name, name, sizeof i.name - 1);
        i.v = v;
    }
    return v;
}
uint64_t lv_len(const char* name)
{
    if (replay) {
        uint64_t v = lv_any(name);
        return v > 4096 ? 4096 : v;
    }
    unsigned long k = nx() % 16, v = k < 13 ? k % 5 : k < 15 ? nx() % 12 : (nx() & 1) ? nx() % 150 : nx() % 3000;
    if (sh && sh->nin < 8192) {
        auto& i = sh->in[sh->nin++];
        strncpy(i.name, name, sizeof i.name - 1);
        i.v = v;
    }
    return v;
}
static pid_t main_tid();
// the precondition does not hold for this input
[[noreturn]] static void reject()
{
    if (syscall(SYS_gettid) == main_tid())
        siglongjmp(jb, 2);
    // (not the thread that may jump: give up the process, the parent goes on)
    if (replay)
        _exit(5);
    sh->rejected++;
    sh->trial++;
    _exit(0);
}
static pid_t main_tid() { return getpid(); }
void lv_assume(bool c)
{
    if (!c)
        reject();
}
void lv_assert(bool c, const char* name)
{
    if (!c) {
        if (!strncmp(name, "ghost-limit-", 12))
            reject();
        char b[300];
        snprintf(b, sizeof b, "obligation %s", name);
        fail(b);
    }
}
void lv_cover(const char*) {}
void lv_lemma(bool, const char*) {}
uint64_t lv_uf1(const char* f, uint64_t a) { return ufval(f, 1, a, 0, 0); }
uint64_t lv_uf2(const char* f, uint64_t a, uint64_t b) { return ufval(f, 2, a, b, 0); }
uint64_t lv_uf3(const char* f, uint64_t a, uint64_t b, uint64_t c) { return ufval(f, 3, a, b, c); }
uint64_t lv_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int lv_symbolic() { return 0; }
void lv_skip() { reject(); }
void* lv_region(uint64_t stride, uint64_t n, const char*) { return calloc(n + 1, stride); }
void lv_region_fill(void* r, uint64_t off, uint64_t width, uint64_t v0, uint64_t coef)
{ // natively regions are written by the harness, sized by the caller
    (void) r; (void) off; (void) width; (void) v0; (void) coef;
}
void lv_region_list(void*, uint64_t, uint64_t, void*, uint64_t, uint64_t) { abort(); }
void* lv_replicate(const void*, uint64_t, uint64_t) { abort(); }
void lv_rep_index(const void*, uint64_t, uint64_t) { abort(); }
void lv_rep_uf(const void*, uint64_t, const char*, uint64_t) { abort(); }
void lv_set_vector(void*, void*, uint64_t, uint64_t) { abort(); }
void lv_inv(bool (*)(void*, uint64_t, uint64_t), void*, uint64_t) {}
void lv_flag(bool (*)(void*, uint64_t, uint64_t), void*, uint64_t) {}
void lv_inv_pop() {}
void lv_replace(const char*, void*) {}
void lv_guard(void*, uint64_t, void*) {}
void lv_unguard(void*) {}
void lv_set_thread(uint64_t) {}
void lv_hold(void*, bool) {}
static void* bl_mutex;
static void (*bl_fn)(void*);
static void* bl_ctx;
void lv_before_lock(void* m, void (*f)(void*), void* c)
{
    bl_mutex = m;
    bl_fn    = f;
    bl_ctx   = c;
}
// (takes precedence over the C library's: the interference is executed right before the lock is taken)
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (bl_fn && m == bl_mutex) {
        auto f = bl_fn;
        bl_fn  = nullptr;
        f(bl_ctx);
    }
    return real(m);
}
bool lv_locked(void*) { return true; }
void lv_lock_hook(void*, void (*)(void*), void (*)(void*), void*) {}
bool lv_same_object(const void* a, const void* b, uint64_t n) { return true; }
void lv_debug(const char*, uint64_t) {}
}

static void signals()
{
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM})
        signal(s, onsig);
}

int main(int argc, char** argv)
{
    if (argc < 4)
        return 2;
    std::string mode = argv[1];
    auto fn = (void (*)()) dlsym(RTLD_DEFAULT, argv[2]);
    if (!fn)
        return 3;
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (mode == "replay") {
        replay  = true;
        FILE* f = fopen(argv[3], "r");
        if (!f)
            return 2;
        char line[512], kind[16], name[256];
        while (fgets(line, sizeof line, f)) {
            unsigned long a = 0, b = 0, c = 0, r = 0;
            int k = 0;
            if (sscanf(line, "in %255s %lu", name, &a) == 2)
                ce_in[name].push_back(a);
            else if (sscanf(line, "uf %255s %d %lu %lu %lu = %lu", name, &k, &a, &b, &c, &r) == 6) {
                char key[400];
                snprintf(key, sizeof key, "%s/%d:%lx:%lx:%lx", name, k, a, b, c);
                ce_uf[key] = r;
            }
            (void) kind;
        }
        fclose(f);
        pid_t p = fork();
        if (p == 0) {
            signals();
            alarm(20);
            if (sigsetjmp(jb, 0) == 0) {
                try { fn(); } catch (...) { fail("an exception escapes"); }
                _exit(0);
            }
            _exit(5); // a precondition does not hold natively
        }
        int st;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            printf("replay: no violation\n");
            return 0;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 5) {
            printf("replay: precondition not met\n");
            return 0;
        }
        printf("replay: VIOLATED: %s\n", sh->failed ? sh->msg : WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "sanitizer report" : "crash");
        return 10;
    }
    if (argc < 7)
        return 2;
    unsigned long seed = strtoul(argv[3], 0, 0), trials = strtoul(argv[4], 0, 0);
    double secs = atof(argv[5]);
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    auto elapsed = [&] {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        return (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
    };
    while (sh->trial < trials && elapsed() < secs) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            signals();
            // volatile: survive siglongjmp
            volatile unsigned cnt = 0;
            while (cnt++ < 256 && sh->trial < trials) {
                sh->nin = 0;
                sh->nuf = 0;
                ce_uf.clear();
                rng = seed * 1000003 + sh->trial * 0x9E3779B97F4A7C15ull + 12345;
                nx();
                lv_before_lock(nullptr, nullptr, nullptr);
                alarm(20);
                int j = sigsetjmp(jb, 0);
                if (j == 0) {
                    try { fn(); } catch (...) { fail("an exception escapes"); }
                    sh->done++;
                } else
                    sh->rejected++;
                alarm(0);
                sh->trial++;
                if (elapsed() > secs)
                    break;
            }
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            continue;
        if (!sh->failed)
            strcpy(sh->msg, WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "sanitizer report" : "crash");
        FILE* f = fopen(argv[6], "w");
        for (unsigned i = 0; i < sh->nin; ++i)
            fprintf(f, "in %s %lu\n", sh->in[i].name, sh->in[i].v);
        for (unsigned i = 0; i < sh->nuf; ++i) {
            // arity is recovered by the reader: all three argument slots are written
            auto& u = sh->ufs[i];
            for (int k = 1; k <= 3; ++k)
                fprintf(f, "uf %s %d %lu %lu %lu = %lu\n", u.name, k, u.a, u.b, u.c, u.r);
        }
        fclose(f);
        printf("search: VIOLATED trial=%lu: %s\n", sh->trial, sh->msg);
        return 10;
    }
    printf("search: ok trials=%lu done=%lu rejected=%lu\n", sh->trial, sh->done, sh->rejected);
    return 0;
}
