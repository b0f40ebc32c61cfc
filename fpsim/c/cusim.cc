// A CUDA device: the threads of all blocks are coroutines, a seeded scheduler decides who runs.
//
// Scheduling points: barriers, warp exchanges, atomics, and (with a drawn probability) every single access to
// shared memory and every write elsewhere, which the compiler reports through the hooks of -fsanitize=thread.
// A thread that waits at a barrier or an exchange is released when all others have arrived, as on the hardware;
// if nobody can run, the kernel hangs.  Shared memory starts with garbage and belongs to one block.
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <vector>
#include <string>

struct D3 { unsigned x, y, z; };
extern "C" {
D3 cusim_threadIdx, cusim_blockIdx, cusim_blockDim, cusim_gridDim;
extern char __start_cushared[] __attribute__((weak, visibility("hidden")));
extern char __stop_cushared[] __attribute__((weak, visibility("hidden")));
}

namespace {

enum { RUN, BARRIER, EXCHANGE, DONE };

struct Thread {
    void *sp;
    int state, block, tid;
    int pred;
};

struct Warp {
    uint64_t slot[2][32];
    unsigned gen, arrived, mask;
    int op, arg, width, size, preds;
    unsigned votes[2];
};

struct Block {
    char *dyn;
    std::vector<char> section;
    int waiting, alive, count, lastcount;
    std::vector<Warp> warps;
};

const size_t STACK = 96 * 1024, GUARD = 64 * 1024;

std::vector<Thread> T;
std::vector<Block> B;
char *stacks = nullptr;
size_t stacks_size = 0;
char *arena = nullptr;
size_t arena_size = 0, dyn_size = 0, stride = 0;
int cur = -1, loaded = -1;
void *main_sp = nullptr;
bool inside = false;
sigjmp_buf escape;
char problem[256], pcls[32];
uint64_t rng_state;
uint64_t countdown, switches, accesses, hash_, preemptions;
double preempt_p;
int policy;
std::vector<int> rank_of, at_rank;      // scheduling order
std::vector<uint64_t> ready;            // bitmap by rank
uint64_t limit_accesses;

typedef void (*kernel_t)(void *, void *, void *, void *, void *, void *, void *, void *);
kernel_t entry;
void *kargs[8];

uint64_t rnd() {
    rng_state ^= rng_state << 13;
    rng_state ^= rng_state >> 7;
    rng_state ^= rng_state << 17;
    return rng_state * 2685821657736338717ULL;
}
double uni() { return (double) (rnd() >> 11) / 9007199254740992.0; }

void report(const char *cls, const char *fmt, long a = 0, long b = 0) {
    if (problem[0]) return;
    snprintf(pcls, sizeof pcls, "%s", cls);
    snprintf(problem, sizeof problem, fmt, a, b);
}

// switches stacks: saves the callee-saved registers
extern "C" void cusim_switch(void **from, void *to);
asm(R"(
.text
.globl cusim_switch
.hidden cusim_switch
.type cusim_switch,@function
cusim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size cusim_switch,.-cusim_switch
)");

void set_ready(int t, bool on) {
    int r = rank_of[t];
    if (on) ready[r >> 6] |= 1ULL << (r & 63);
    else ready[r >> 6] &= ~(1ULL << (r & 63));
}

void state(int t, int s) {
    T[t].state = s;
    set_ready(t, s == RUN);
}

void load(int t) {
    int b = T[t].block;
    if (b != loaded) {
        size_t n = __stop_cushared - __start_cushared;
        if (loaded >= 0) memcpy(B[loaded].section.data(), __start_cushared, n);
        memcpy(__start_cushared, B[b].section.data(), n);
        loaded = b;
    }
    cusim_threadIdx = {(unsigned) T[t].tid, 0, 0};
    cusim_blockIdx = {(unsigned) b, 0, 0};
}

void yield_() {
    switches++;
    cusim_switch(&T[cur].sp, main_sp);
}

void new_countdown() {
    if (preempt_p <= 0) { countdown = ~0ULL; return; }
    countdown = 1 + (uint64_t) (2.0 * uni() / preempt_p);
}

// the running thread loses its turn
void demote(int t) {
    int n = (int) T.size();
    int r = rank_of[t];
    bool on = T[t].state == RUN;
    if (on) set_ready(t, false);
    int other = at_rank[n - 1];
    bool oon = T[other].state == RUN;
    if (other != t) {
        if (oon) set_ready(other, false);
        rank_of[t] = n - 1; at_rank[n - 1] = t;
        rank_of[other] = r; at_rank[r] = other;
        if (oon) set_ready(other, true);
    }
    if (on) set_ready(t, true);
}

void preempt() {
    preemptions++;
    new_countdown();
    demote(cur);
    yield_();
}

inline void access(const void *p, size_t n, bool w) {
    if (!inside || cur < 0) return;
    const char *a = (const char *) p;
    accesses++;
    if (accesses > limit_accesses) {
        report("no-termination", "the kernel did not end within %ld memory accesses", (long) limit_accesses);
        siglongjmp(escape, 1);
    }
    bool shared = false;
    if (a >= arena && a < arena + arena_size) {
        shared = true;
        const char *lo = B[T[cur].block].dyn;
        if (a < lo || a + n > lo + dyn_size) {
            report("outside-shared", "a thread accesses %ld bytes into a shared memory of %ld", (long) (a - lo), (long) dyn_size);
            siglongjmp(escape, 1);
        }
    } else if (a >= __start_cushared && a < __stop_cushared) shared = true;
    if (shared || (w && !(a >= stacks && a < stacks + stacks_size))) {
        if (--countdown == 0) preempt();
    }
}

void trampoline() {
    entry(kargs[0], kargs[1], kargs[2], kargs[3], kargs[4], kargs[5], kargs[6], kargs[7]);
    state(cur, DONE);
    cusim_switch(&T[cur].sp, main_sp);
    abort();
}

void release_barrier(Block &b, int bi) {
    if (b.waiting > 0 && b.waiting == b.alive) {
        b.waiting = 0;
        b.lastcount = b.count;
        b.count = 0;
        size_t per = b.warps.empty() ? 0 : cusim_blockDim.x;
        for (size_t i = 0; i < per; i++) {
            int t = bi * (int) per + (int) i;
            if (T[t].state == BARRIER) state(t, RUN);
        }
    }
}

void on_fault(int sig) {
    if (!inside) { signal(sig, SIG_DFL); raise(sig); return; }
    report("illegal-access", sig == SIGFPE ? "an integer division by zero" : "a thread accesses memory that it has not been given");
    siglongjmp(escape, 1);
}

}  // namespace

extern "C" {

void *cusim_dyn_shared(void) { return cur < 0 ? arena : B[T[cur].block].dyn; }

void cusim_syncthreads(int) {
    int t = cur;
    Block &b = B[T[t].block];
    b.waiting++;
    state(t, BARRIER);
    release_barrier(b, T[t].block);
    yield_();
}

int cusim_syncthreads_count(int pred) {
    int t = cur;
    Block &b = B[T[t].block];
    if (pred) b.count++;
    cusim_syncthreads(0);
    return B[T[t].block].lastcount;
}

uint64_t cusim_exchange(unsigned mask, uint64_t v, int op, int arg, int width, int size) {
    int t = cur;
    Block &b = B[T[t].block];
    Warp &w = b.warps[T[t].tid / 32];
    int lane = T[t].tid % 32;
    if (!(mask >> lane & 1)) {
        report("lanes", "lane %ld takes part in an exchange that does not name it", lane);
        siglongjmp(escape, 1);
    }
    if (w.arrived == 0) { w.mask = mask; w.op = op; w.arg = arg; w.width = width; w.size = size; w.votes[w.gen & 1] = 0; }
    else if (w.mask != mask || w.op != op || w.width != width || w.size != size || ((op == 1 || op == 2 || op == 3) && w.arg != arg)) {
        report("lanes", "lanes of one warp meet in different exchanges (lane %ld)", lane);
        siglongjmp(escape, 1);
    }
    unsigned g = w.gen & 1;
    w.slot[g][lane] = v;
    if (op == 5 && v) w.votes[g] |= 1u << lane;
    w.arrived |= 1u << lane;
    if (w.arrived == w.mask) {
        w.arrived = 0;
        w.gen++;
        int base = t - lane;
        for (int l = 0; l < 32; l++)
            if (l != lane && (mask >> l & 1)) state(base + l, RUN);
        if (policy == 1) { yield_(); }
    } else {
        state(t, EXCHANGE);
        yield_();
    }
    Warp &x = B[T[t].block].warps[T[t].tid / 32];
    if (op == 5) return x.votes[g];
    if (op == 4) return 0;
    int seg = lane / width * width, src = lane;
    if (op == 0) src = seg + (arg & (width - 1));
    if (op == 1) src = lane - arg < seg ? lane : lane - arg;
    if (op == 2) src = lane + arg >= seg + width ? lane : lane + arg;
    if (op == 3) src = (lane ^ arg) >= seg + width ? lane : (lane ^ arg);
    if (!(mask >> src & 1)) {
        report("lanes", "lane %ld reads the value of lane %ld, which does not take part", lane, src);
        siglongjmp(escape, 1);
    }
    return x.slot[g][src];
}

void cusim_syncwarp(unsigned mask) { cusim_exchange(mask, 0, 4, 0, 32, 0); }
unsigned cusim_ballot(unsigned mask, int p) { return (unsigned) cusim_exchange(mask, p ? 1 : 0, 5, 0, 32, 0); }
void cusim_fence(void) {}

#define ATOMIC(NAME, TYPE, EXPR) TYPE NAME(TYPE *p, TYPE v) { access(p, sizeof(TYPE), true); TYPE o = *p; *p = EXPR; return o; }
ATOMIC(cusim_atomicAddf, float, o + v)
ATOMIC(cusim_atomicAddd, double, o + v)
ATOMIC(cusim_atomicAddi, int, o + v)
ATOMIC(cusim_atomicAddl, unsigned long long, o + v)
ATOMIC(cusim_atomicMaxi, int, o > v ? o : v)
ATOMIC(cusim_atomicMini, int, o < v ? o : v)
ATOMIC(cusim_atomicExchi, int, v)
int cusim_atomicCASi(int *p, int c, int v) { access(p, 4, true); int o = *p; if (o == c) *p = v; return o; }
unsigned long long cusim_atomicCASl(unsigned long long *p, unsigned long long c, unsigned long long v) { access(p, 8, true); unsigned long long o = *p; if (o == c) *p = v; return o; }

// hooks of -fsanitize=thread
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *p, long n) { access(p, n, false); }
void __tsan_write_range(void *p, long n) { access(p, n, true); }
#define HOOK(N) \
    void __tsan_read##N(void *p) { access(p, N, false); } \
    void __tsan_write##N(void *p) { access(p, N, true); } \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false); } \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true); } \
    void __tsan_volatile_read##N(void *p) { access(p, N, false); } \
    void __tsan_volatile_write##N(void *p) { access(p, N, true); } \
    void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)

struct cusim_result {
    uint64_t switches, accesses, preemptions, hash;
    char cls[32], msg[256];
};

// policy: 0 random order of threads, 1 random at every step, 2 ascending, 3 descending, 4 one thread last,
//         5 one warp last, 6 one thread first, 7 warps in random order
int cusim_launch(void *fn, void **args, int nargs, int grid, int block, int shared, uint64_t seed, int pol, double p,
                 int poison, uint64_t limit, cusim_result *res) {
    size_t n = (size_t) grid * block;
    size_t sec = __stop_cushared - __start_cushared;
    rng_state = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    for (int i = 0; i < 8; i++) rnd();
    policy = pol;
    preempt_p = p;
    limit_accesses = limit;
    switches = accesses = preemptions = 0;
    hash_ = 1469598103934665603ULL;
    problem[0] = pcls[0] = 0;
    entry = (kernel_t) fn;
    for (int i = 0; i < 8; i++) kargs[i] = i < nargs ? args[i] : nullptr;
    cusim_blockDim = {(unsigned) block, 1, 1};
    cusim_gridDim = {(unsigned) grid, 1, 1};
    dyn_size = shared;
    stride = (shared + 2 * GUARD + 4095) / 4096 * 4096;
    arena_size = stride * grid;
    arena = (char *) mmap(nullptr, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stacks_size = n * STACK;
    stacks = (char *) mmap(nullptr, stacks_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || stacks == MAP_FAILED) return -1;
    memset(arena, poison, arena_size);
    T.assign(n, Thread());
    B.assign(grid, Block());
    int nw = (block + 31) / 32;
    for (int b = 0; b < grid; b++) {
        B[b].dyn = arena + stride * b + GUARD;
        B[b].section.assign(sec, (char) poison);
        B[b].waiting = B[b].count = B[b].lastcount = 0;
        B[b].alive = block;
        B[b].warps.assign(nw, Warp());
        memset(B[b].warps.data(), 0, nw * sizeof(Warp));
    }
    loaded = -1;
    // order
    rank_of.assign(n, 0);
    at_rank.resize(n);
    for (size_t i = 0; i < n; i++) at_rank[i] = (int) i;
    if (pol == 0 || pol == 1)
        for (size_t i = n; i > 1; i--) std::swap(at_rank[i - 1], at_rank[rnd() % i]);
    if (pol == 3)
        for (size_t i = 0; i < n / 2; i++) std::swap(at_rank[i], at_rank[n - 1 - i]);
    if (pol == 4 || pol == 6) {
        // mostly a thread with a special part: the first of its block or of its warp
        int t = (int) (rnd() % grid) * block + (uni() < 0.5 ? 0 : (int) (rnd() % block));
        if (uni() < 0.3) t = t / 32 * 32;
        std::vector<int> v;
        if (pol == 6) v.push_back(t);
        for (size_t i = 0; i < n; i++) if ((int) i != t) v.push_back((int) i);
        if (pol == 4) v.push_back(t);
        at_rank = v;
    }
    if (pol == 5 || pol == 7) {
        int tw = (int) (n / 32);
        std::vector<int> ws(tw ? tw : 1), v;
        for (size_t i = 0; i < ws.size(); i++) ws[i] = (int) i;
        if (pol == 7) for (size_t i = ws.size(); i > 1; i--) std::swap(ws[i - 1], ws[rnd() % i]);
        else std::swap(ws[rnd() % ws.size()], ws.back());
        std::vector<char> seen(n, 0);
        for (int w : ws) for (int l = 0; l < 32; l++) { size_t t = (size_t) w * 32 + l; if (t < n) { v.push_back((int) t); seen[t] = 1; } }
        for (size_t i = 0; i < n; i++) if (!seen[i]) v.push_back((int) i);
        at_rank = v;
    }
    for (size_t i = 0; i < n; i++) rank_of[at_rank[i]] = (int) i;
    ready.assign((n + 63) / 64, 0);
    for (size_t i = 0; i < n; i++) {
        Thread &t = T[i];
        t.block = (int) (i / block);
        t.tid = (int) (i % block);
        void **sp = (void **) (stacks + (i + 1) * STACK);
        *--sp = nullptr;
        *--sp = (void *) trampoline;         // return address; the stack is then aligned as after a call (8 below a multiple of 16)
        for (int k = 0; k < 6; k++) *--sp = nullptr;
        t.sp = sp;
        state((int) i, RUN);
    }
    new_countdown();

    struct sigaction sa, old_segv, old_bus, old_fpe;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_fault;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    stack_t alt, oldalt;
    std::vector<char> altstack(1 << 16);
    alt.ss_sp = altstack.data();
    alt.ss_size = altstack.size();
    alt.ss_flags = 0;
    sigaltstack(&alt, &oldalt);
    sigaction(SIGSEGV, &sa, &old_segv);
    sigaction(SIGBUS, &sa, &old_bus);
    sigaction(SIGFPE, &sa, &old_fpe);
    cur = -1;
    if (sigsetjmp(escape, 1) == 0) {
        inside = true;
        size_t done = 0;
        while (done < n) {
            int t = -1;
            if (policy == 1) {
                size_t at = rnd() % n;
                size_t wi = at >> 6;
                uint64_t m = ready[wi] & (~0ULL << (at & 63));
                for (size_t k = 0; k <= ready.size() && !m; k++) { wi = (wi + 1) % ready.size(); m = ready[wi]; }
                if (m) t = at_rank[wi * 64 + __builtin_ctzll(m)];
            } else {
                for (size_t wi = 0; wi < ready.size(); wi++)
                    if (ready[wi]) { t = at_rank[wi * 64 + __builtin_ctzll(ready[wi])]; break; }
            }
            if (t < 0) {
                long nb = 0, ne = 0;
                for (Thread &x : T) { nb += x.state == BARRIER; ne += x.state == EXCHANGE; }
                report("hang", "the kernel hangs: %ld threads wait at a barrier, %ld in a warp exchange", nb, ne);
                break;
            }
            hash_ = (hash_ ^ (uint64_t) t) * 1099511628211ULL;
            cur = t;
            load(t);
            cusim_switch(&main_sp, T[t].sp);
            cur = -1;
            if (T[t].state == DONE) {
                done++;
                B[T[t].block].alive--;
                release_barrier(B[T[t].block], T[t].block);
            }
        }
    }
    inside = false;
    cur = -1;
    sigaction(SIGSEGV, &old_segv, nullptr);
    sigaction(SIGBUS, &old_bus, nullptr);
    sigaction(SIGFPE, &old_fpe, nullptr);
    sigaltstack(&oldalt, nullptr);
    munmap(arena, arena_size);
    munmap(stacks, stacks_size);
    arena = stacks = nullptr;
    res->switches = switches;
    res->accesses = accesses;
    res->preemptions = preemptions;
    res->hash = hash_;
    memcpy(res->cls, pcls, sizeof res->cls);
    memcpy(res->msg, problem, sizeof res->msg);
    return problem[0] ? 1 : 0;
}

}  // extern "C"
