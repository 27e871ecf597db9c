#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <unordered_map>
#include <vector>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_pthread_mutex_lock(void *);
int __real_pthread_mutex_unlock(void *);
int __real_pthread_mutex_trylock(void *);
extern char __data_start, _end;
}

namespace sim {

Options options;

// ------------------------------------------------------------------ shared result block
static const size_t MAX_CHOICES = 1 << 20;
static const size_t MAX_COUNTERS = 256;

struct Counter { char name[56]; uint64_t n; };

struct Shared {
    uint32_t n_choices;
    uint32_t overflow;
    uint32_t status;          // 0 running, 1 ok, 2 violation
    uint32_t nontrivial;
    uint64_t event_hash;
    uint64_t sched_hash;
    uint64_t n_events, n_switches, n_preemptions, n_accesses, sim_steps, n_faults;
    char cls[128];
    char msg[2048];
    uint32_t choices[MAX_CHOICES];
    Counter counters[MAX_COUNTERS];
    char ops[4096];           // short human readable digest of the run
    uint32_t ops_len;
};
static Shared *sh;

// ------------------------------------------------------------------ PRNG and choice stream
static uint64_t rng_state[4];
static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static void rng_seed(uint64_t s) { for (int i = 0; i < 4; ++i) rng_state[i] = splitmix(s); }
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng()
{
    uint64_t *s = rng_state;
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}

static bool replaying;
static std::vector<uint32_t> *replay_choices;
static size_t replay_pos;

static void record(uint32_t v)
{
    if (sh->n_choices < MAX_CHOICES) sh->choices[sh->n_choices++] = v; else sh->overflow = 1;
}
static bool next_replay(uint32_t *v)
{
    if (!replaying) return false;
    *v = replay_pos < replay_choices->size() ? (*replay_choices)[replay_pos] : 0;
    ++replay_pos;
    return true;
}

// ---- tape: the decisions of one execution, to be repeated by a second one
// under other decisions of the environment (heap placement and content)
static int tape_mode;            // 0: off, 1: recording, 2: playing
static bool untaped;
static std::vector<uint32_t> *tape;
static size_t tape_pos;
void tape_record() { if (!tape) { tape = new std::vector<uint32_t>(); tape->reserve(1 << 20); } tape->clear(); tape_mode = 1; }
void tape_play() { tape_pos = 0; tape_mode = 2; }
void tape_off() { tape_mode = 0; }
Untaped::Untaped() : saved(untaped) { untaped = true; }
Untaped::~Untaped() { untaped = saved; }
static bool from_tape(uint32_t *v)
{
    if (tape_mode != 2 || untaped) return false;
    if (tape_pos >= tape->size()) fail("diverged", "repeating the same operations took another path than before");
    *v = (*tape)[tape_pos++];
    return true;
}
static void to_tape(uint32_t v)
{
    if (tape_mode != 1 || untaped) return;
    if (tape->size() < tape->capacity()) tape->push_back(v);
}

uint64_t choose(uint64_t n)
{
    if (n <= 1) return 0;
    uint32_t v;
    if (from_tape(&v)) return v % n;
    if (sh->overflow) v = 0;
    else {
        if (next_replay(&v)) v = v % n; else v = uint32_t(rng() % n);
        record(v);
    }
    to_tape(v);
    return v;
}
uint64_t range(uint64_t lo, uint64_t hi) { return lo + choose(hi - lo + 1); }
bool chance(unsigned num, unsigned den)
{
    if (num == 0) return false;
    uint32_t v;
    if (from_tape(&v)) return v != 0;
    if (sh->overflow) v = 0;
    else {
        if (next_replay(&v)) v = v ? 1 : 0; else v = (rng() % den) < num;
        record(v);
    }
    to_tape(v);
    return v;
}
size_t weighted(const unsigned *w, size_t n)
{
    uint32_t v;
    if (from_tape(&v)) return v % n;
    if (sh->overflow) {
        v = 0;
    } else if (next_replay(&v)) {
        v = v % n;
    } else {
        uint64_t sum = 0;
        for (size_t i = 0; i < n; ++i) sum += w[i];
        uint64_t r = rng() % sum;
        v = 0;
        while (r >= w[v]) { r -= w[v]; ++v; }
    }
    // never pick an operation disabled for this run
    for (size_t i = 0; i < n && w[v] == 0; ++i) v = (v + 1) % n;
    if (!sh->overflow) record(v);
    to_tape(v);
    return v;
}

// ------------------------------------------------------------------ log, hash, counters
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
    x *= 0xff51afd7ed558ccdull; x ^= x >> 33;
    return x;
}
uint64_t hash_bytes(const void *p, size_t n)
{
    uint64_t h = n;
    const unsigned char *c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
    return h;
}
static bool g_trace;
bool tracing() { return g_trace; }

struct Fiber;
static Fiber *cur;
static int cur_id();

void event(const char *fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (size_t(n) >= sizeof(buf)) n = sizeof(buf) - 1;
    sh->event_hash = mix(sh->event_hash, hash_bytes(buf, n) + cur_id());
    ++sh->n_events;
    if (sh->ops_len + n + 8 < sizeof(sh->ops)) {
        sh->ops_len += snprintf(sh->ops + sh->ops_len, sizeof(sh->ops) - sh->ops_len, "T%d:%s; ", cur_id(), buf);
    }
    if (g_trace) fprintf(stderr, "[%6llu] T%d %s\n", (unsigned long long)sh->n_events, cur_id(), buf);
}
void observe(uint64_t v) { sh->event_hash = mix(sh->event_hash, v); }
void mark_nontrivial() { sh->nontrivial = 1; }

void count(const char *name, uint64_t n)
{
    size_t h = hash_bytes(name, strlen(name)) % MAX_COUNTERS;
    for (size_t i = 0; i < MAX_COUNTERS; ++i) {
        Counter& c = sh->counters[(h + i) % MAX_COUNTERS];
        if (c.name[0] == 0) { strncpy(c.name, name, sizeof(c.name) - 1); }
        if (strcmp(c.name, name) == 0) { c.n += n; return; }
    }
}

void fail(const char *cls, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    snprintf(sh->cls, sizeof(sh->cls), "%s", cls);
    vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap);
    va_end(ap);
    sh->status = 2;
    if (g_trace) fprintf(stderr, "VIOLATION class=%s %s\n", sh->cls, sh->msg);
    _exit(42);
}

// ------------------------------------------------------------------ memory map
static const uintptr_t ARENA_BASE = uintptr_t(1) << 40;
static const size_t ARENA_SIZE = size_t(256) << 20;
static const uintptr_t STACK_BASE = (uintptr_t(1) << 40) + (uintptr_t(1) << 36);
static const int MAX_FIBERS = 8;
static const size_t STACK_SIZE = size_t(1) << 20;
static unsigned char *addr_shadow;     // 1 byte per 8 bytes: 8 all addressable, k first k bytes, 0 none

struct Race { uint32_t w, r0, r1, pad; };
static Race *race_arena, *race_globals;
static uintptr_t globals_lo, globals_hi;

static void *map_at(uintptr_t at, size_t n)
{
    void *p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED) { perror("sim: mmap"); _exit(3); }
    return p;
}

// ------------------------------------------------------------------ fibers
struct Fiber {
    int id;
    void *sp;
    char *stack;
    std::function<void()> body;
    bool done, started;
    int barrier_id;              // waiting for
    void *waiting_mutex;
    int lib_depth;
    int quiet;                   // >0: no tracking/preemption (static init)
    const char *op_name;
    uint32_t vc[MAX_FIBERS];
    char eh_globals[16];
    std::vector<char> tls;
    std::vector<std::pair<void(*)(void*), void*> > tls_dtors;
    uint64_t arm_left[FAULT_KINDS];
    bool fired;
};
static Fiber fibers[MAX_FIBERS];
static int n_fibers;
static bool concurrent;          // more than one fiber may run
static bool race_on;
static unsigned preempt_mean;
static int64_t preempt_left;
static int virtual_thread = -1;
static uint32_t epoch = 1;

static int cur_id() { return cur ? cur->id : 0; }
int self() { return cur_id(); }
bool in_lib() { return cur && cur->lib_depth > 0; }
void set_race_checks(bool on) { race_on = on; }
void set_preemption_mean(unsigned m) { preempt_mean = m; }

extern "C" char *__cxa_get_globals();

// static TLS of the executable (so that thread_local variables are per fiber)
static char *tls_addr; static size_t tls_size; static const char *tls_image; static size_t tls_image_size;
static int find_tls(struct dl_phdr_info *info, size_t, void *)
{
    static bool first = true;
    if (!first) return 0;
    first = false;
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data) {
            tls_addr = static_cast<char*>(info->dlpi_tls_data);
            tls_size = info->dlpi_phdr[i].p_memsz;
            tls_image = reinterpret_cast<const char*>(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
            tls_image_size = info->dlpi_phdr[i].p_filesz;
        }
    }
    return 1;
}

extern "C" void sim_switch(void **from, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

static void switch_to(Fiber *next)
{
    Fiber *prev = cur;
    if (prev == next) return;
    char *g = __cxa_get_globals();
    memcpy(prev->eh_globals, g, 16);
    if (tls_size) { memcpy(prev->tls.data(), tls_addr, tls_size); memcpy(tls_addr, next->tls.data(), tls_size); }
    memcpy(g, next->eh_globals, 16);
    cur = next;
    ++sh->n_switches;
    sh->sched_hash = mix(sh->sched_hash, mix(next->id, sh->sim_steps));
    sim_switch(&prev->sp, next->sp);
}

static uint64_t draw_gap()
{
    // number of shared accesses until the next preemption; 0: none
    if (preempt_mean == 0) return 0;
    uint32_t v;
    if (sh->overflow) return 0;
    if (next_replay(&v)) { record(v); return v; }
    // geometric-ish with occasional very short gaps
    uint64_t r = rng() % 8;
    uint64_t m = preempt_mean;
    if (r == 0) v = 1 + rng() % 3;
    else if (r < 6) v = 1 + rng() % (2 * m);
    else v = 1 + rng() % (8 * m);
    record(v);
    return v;
}

static void runnable(std::vector<int>& r)
{
    r.clear();
    for (int i = 1; i < n_fibers; ++i) {
        if (!fibers[i].done && fibers[i].barrier_id == 0 && fibers[i].waiting_mutex == 0) r.push_back(i);
    }
}

// chooses the next fiber to run; current one may be blocked or finished
struct Quiesce { Fiber *f; int depth; Quiesce() : f(cur), depth(cur->lib_depth) { cur->lib_depth = 0; } ~Quiesce() { f->lib_depth = depth; } };
static void schedule(bool exclude_self)
{
    Quiesce q;
    static std::vector<int> r;
    runnable(r);
    int me = cur_id();
    if (exclude_self) r.erase(std::remove(r.begin(), r.end(), me), r.end());
    if (r.empty()) {
        if (exclude_self && me != 0 && !cur->done && cur->barrier_id == 0 && cur->waiting_mutex == 0) return;
        for (int i = 1; i < n_fibers; ++i) {
            if (!fibers[i].done) fail("deadlock", "all simulated threads are blocked");
        }
        switch_to(&fibers[0]);
        return;
    }
    int next = r[choose(r.size())];
    preempt_left = draw_gap();
    switch_to(&fibers[next]);
}

static void bump(Fiber *f) { ++f->vc[f->id]; }
static void vc_join(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAX_FIBERS; ++i) a[i] = std::max(a[i], b[i]); }

static void fiber_main()
{
    Fiber *f = cur;
    try {
        f->body();
    } catch (const std::exception& e) {
        fail("uncaught-exception", "simulated thread %d ended with exception: %s", f->id, e.what());
    } catch (...) {
        fail("uncaught-exception", "simulated thread %d ended with unknown exception", f->id);
    }
    while (!f->tls_dtors.empty()) {
        std::pair<void(*)(void*), void*> d = f->tls_dtors.back();
        f->tls_dtors.pop_back();
        d.first(d.second);
    }
    f->done = true;
    bump(f);
    schedule(true);
    abort();
}

static void make_fiber(Fiber *f, int id)
{
    f->id = id;
    f->stack = reinterpret_cast<char*>(STACK_BASE + size_t(id) * STACK_SIZE * 2);
    f->done = false; f->started = false; f->barrier_id = 0; f->waiting_mutex = 0;
    f->lib_depth = 0; f->quiet = 0; f->op_name = "";
    memset(f->vc, 0, sizeof(f->vc));
    memset(f->eh_globals, 0, 16);
    memset(f->arm_left, 0, sizeof(f->arm_left));
    f->fired = false;
    f->tls.assign(tls_size, 0);
    if (tls_image_size) memcpy(f->tls.data(), tls_image, tls_image_size);
    f->vc[id] = 1;
    uintptr_t top = reinterpret_cast<uintptr_t>(f->stack) + STACK_SIZE - 64;
    void **sp = reinterpret_cast<void**>(top);
    *--sp = 0;                                    // fake return address, keeps alignment
    *--sp = reinterpret_cast<void*>(&fiber_main);
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f->sp = sp;
}

void spawn(std::function<void()> body)
{
    if (n_fibers == MAX_FIBERS) { fprintf(stderr, "sim: too many fibers\n"); _exit(3); }
    Fiber *f = &fibers[n_fibers];
    make_fiber(f, n_fibers);
    fill_garbage(f->stack + STACK_SIZE - (64 << 10), (64 << 10) - 256);
    f->body = std::move(body);
    ++n_fibers;
}

void join_all()
{
    if (n_fibers <= 1) return;
    Fiber *m = &fibers[0];
    for (int i = 1; i < n_fibers; ++i) { vc_join(fibers[i].vc, m->vc); }
    bump(m);
    concurrent = true;
    schedule(true);
    concurrent = false;
    for (int i = 1; i < n_fibers; ++i) { vc_join(m->vc, fibers[i].vc); fibers[i].body = std::function<void()>(); }
    bump(m);
    n_fibers = 1;
    count("sched.joins");
}

void yield()
{
    if (!concurrent || cur->id == 0) return;
    Quiesce q;
    static std::vector<int> r;
    runnable(r);
    if (r.size() < 2) return;
    // 0: keep running
    int k = int(choose(r.size()));
    std::vector<int>::iterator me = std::find(r.begin(), r.end(), cur->id);
    r.erase(me);
    if (k == 0) return;
    preempt_left = draw_gap();
    switch_to(&fibers[r[k - 1]]);
}

static std::map<int, int> barrier_arrived;
void barrier(int id, int participants)
{
    if (!concurrent || participants <= 1) return;
    Quiesce q;
    Fiber *f = cur;
    ++barrier_arrived[id];
    if (barrier_arrived[id] == participants) {
        uint32_t all[MAX_FIBERS] = {0};
        vc_join(all, f->vc);
        for (int i = 1; i < n_fibers; ++i) if (fibers[i].barrier_id == id + 1) vc_join(all, fibers[i].vc);
        for (int i = 1; i < n_fibers; ++i) {
            if (fibers[i].barrier_id == id + 1) { vc_join(fibers[i].vc, all); bump(&fibers[i]); fibers[i].barrier_id = 0; }
        }
        vc_join(f->vc, all); bump(f);
        barrier_arrived.erase(id);
        yield();
        return;
    }
    f->barrier_id = id + 1;
    schedule(true);
}

LibOp::LibOp(const char *name) : saved(cur->lib_depth), saved_name(cur->op_name)
{
    cur->lib_depth = 1;
    cur->op_name = name;
}
LibOp::~LibOp() { cur->lib_depth = saved; cur->op_name = saved_name; }
Outside::Outside() : saved(cur->lib_depth) { cur->lib_depth = 0; }
Outside::~Outside() { cur->lib_depth = saved; }

// ------------------------------------------------------------------ mutexes (should the library ever use any)
struct SimMutex { int owner; uint32_t vc[MAX_FIBERS]; };
static std::unordered_map<void*, SimMutex> *mutexes;
static bool sim_threads_active() { return cur && cur->lib_depth > 0; }
static void sim_lock(void *m)
{
    Quiesce q;
    SimMutex& s = (*mutexes)[m];
    while (s.owner != 0) {
        if (s.owner == cur->id + 1) fail("deadlock", "thread locks a mutex it already holds");
        cur->waiting_mutex = m;
        schedule(true);
    }
    s.owner = cur->id + 1;
    vc_join(cur->vc, s.vc);
}
static void sim_unlock(void *m)
{
    Quiesce q;
    SimMutex& s = (*mutexes)[m];
    s.owner = 0;
    vc_join(s.vc, cur->vc);
    bump(cur);
    for (int i = 0; i < n_fibers; ++i) if (fibers[i].waiting_mutex == m) fibers[i].waiting_mutex = 0;
}

// ------------------------------------------------------------------ seeded garbage
static uint64_t garbage;
void set_garbage_seed(uint64_t s) { garbage = s; }
void fill_garbage(void *p, size_t n)
{
    uint64_t x = garbage * 0x9e3779b97f4a7c15ull + 0x1234567;
    garbage = garbage * 6364136223846793005ull + 1442695040888963407ull;
    char *c = static_cast<char*>(p);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        memcpy(c + i, &x, 8);
    }
    for (; i < n; ++i) { c[i] = char(x >> (8 * (i & 7))); }
}

// ------------------------------------------------------------------ simulated heap
struct Block { uintptr_t start; size_t size, left, right; bool harness; const char *op; uint64_t seq; int kind; };
static std::map<uintptr_t, Block> *live;
static std::vector<Block> *recycled;
static uintptr_t arena_next;
static uint64_t alloc_seq;
static HeapStats hs;
static uint64_t memory_limit = ~uint64_t(0);
static heap_hook on_heap;
static bool vary_placement = true;

HeapStats heap() { return hs; }
void set_memory_limit(uint64_t b) { memory_limit = b; }
void set_heap_hook(heap_hook h) { on_heap = h; }
void set_placement(bool v) { vary_placement = v; }
static bool arena_addr(uintptr_t a) { return a - ARENA_BASE < ARENA_SIZE; }
// Very large blocks live outside of the arena, in memory which is reserved, but only backed where it is touched:
static const uintptr_t GIANT_BASE = uintptr_t(1) << 44;
static const size_t GIANT_SPAN = size_t(1) << 43, GIANT_MAX = size_t(1) << 38;
static bool giants_allowed;
static uint64_t giant_bytes;
static uintptr_t giant_next = GIANT_BASE;
bool allow_giants(bool v)
{
    if (v) {
        void *m = mmap(0, size_t(1) << 38, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return false;
        munmap(m, size_t(1) << 38);
    }
    giants_allowed = v;
    return true;
}
static bool giant_addr(uintptr_t a) { return a - GIANT_BASE < GIANT_SPAN; }
bool in_arena(const void *p) { return arena_addr(reinterpret_cast<uintptr_t>(p)) || giant_addr(reinterpret_cast<uintptr_t>(p)); }
bool in_stack(const void *p) { return reinterpret_cast<uintptr_t>(p) - STACK_BASE < size_t(MAX_FIBERS) * STACK_SIZE * 2; }

static const unsigned char RZ = 0xa5;

static void set_addressable(uintptr_t a, size_t n)
{
    size_t i = (a - ARENA_BASE) >> 3;      // a is 16 aligned
    memset(addr_shadow + i, 8, n >> 3);
    if (n & 7) addr_shadow[i + (n >> 3)] = n & 7;
}
static void set_unaddressable(uintptr_t a, size_t n) { memset(addr_shadow + ((a - ARENA_BASE) >> 3), 0, (n + 7) >> 3); }

void forget_accesses(const void *p, size_t n)
{
    if (!race_on || n == 0) return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (arena_addr(a)) memset(static_cast<void*>(race_arena + (a - ARENA_BASE)), 0, n * sizeof(Race));
}

[[noreturn]] static void inconclusive(const char *why)
{
    count(why);
    sh->status = 1;
    sh->nontrivial = 0;
    if (g_trace) fprintf(stderr, "run ended without a verdict (%s)\n", why);
    fflush(0);
    _exit(0);
}

static void *giant_alloc(size_t n, size_t align)
{
    if (n > GIANT_MAX || align > 65536 || hs.live_bytes + n > memory_limit) return 0;
    size_t left = vary_placement ? 16 * choose(4096) : 0;
    left = (left + align - 1) / align * align;
    size_t whole = (left + n + 65535) & ~size_t(65535);
    if (giant_next + whole + (size_t(1) << 33) > GIANT_BASE + GIANT_SPAN) return 0;
    void *m = mmap(reinterpret_cast<void*>(giant_next), whole, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m == MAP_FAILED) return 0;
    Block b;
    b.start = giant_next + left; b.size = n; b.left = b.right = 0; b.harness = false; b.op = cur ? cur->op_name : ""; b.seq = ++alloc_seq; b.kind = 1;
    giant_next += (whole + (size_t(1) << 33)) & ~((size_t(1) << 33) - 1);
    (*live)[b.start] = b;
    ++hs.live_blocks; hs.live_bytes += n; ++hs.allocs;
    giant_bytes += n;
    count("heap.giant_blocks");
    if (on_heap) on_heap(true, reinterpret_cast<void*>(b.start), n);
    return reinterpret_cast<void*>(b.start);
}

static void *arena_alloc(size_t n, bool harness, size_t align = 16)
{
    Untaped decisions_of_the_heap;
    if (giants_allowed && !harness && n > ARENA_SIZE / 4) return giant_alloc(n, align);
    if (n > ARENA_SIZE / 4 || hs.live_bytes + n > memory_limit) return 0;
    size_t rn = (n + 15) & ~size_t(15);
    Block b;
    b.start = 0;
    if (vary_placement && !recycled->empty() && chance(1, 4)) {
        // hand out recently released memory again (stale content stays visible)
        for (size_t i = recycled->size(); i-- > 0; ) {
            Block& c = (*recycled)[i];
            size_t cn = (c.size + 15) & ~size_t(15);
            if (cn >= rn && cn <= 4 * rn + 64 && c.start % align == 0) {
                b = c;
                b.right = c.right + (cn - rn);
                recycled->erase(recycled->begin() + i);
                count("heap.recycled");
                break;
            }
        }
    }
    bool recycled_block = b.start != 0;
    if (!recycled_block) {
        size_t left = 64, right = 64;
        if (vary_placement) {
            // every residue of the address modulo 16 bytes .. 4 kB occurs
            size_t kind = choose(4);
            left = 64 + 16 * (kind == 0 ? 0 : kind == 1 ? choose(4) : choose(256));
        }
        uintptr_t start = arena_next + left;
        start = (start + align - 1) & ~uintptr_t(align - 1);
        if (start + rn + right > ARENA_BASE + ARENA_SIZE) {
            // all addresses have been used up, although little memory is in use:
            // this says nothing about the library, so the run ends here
            if (hs.live_bytes - giant_bytes < ARENA_SIZE / 4 || giants_allowed) inconclusive("reach.addresses_used_up");
            return 0;
        }
        b.start = start; b.left = start - arena_next; b.right = right;
        arena_next = start + rn + right;
    }
    b.size = n; b.harness = harness; b.op = cur ? cur->op_name : ""; b.seq = ++alloc_seq;
    b.kind = 0;
    char *p = reinterpret_cast<char*>(b.start);
    memset(p - b.left, RZ, b.left);
    if (!recycled_block) fill_garbage(p, n);
    memset(p + n, RZ, rn - n + b.right);
    set_unaddressable(b.start, rn);
    set_addressable(b.start, n);
    forget_accesses(p, n);
    (*live)[b.start] = b;
    if (!harness) { ++hs.live_blocks; hs.live_bytes += n; ++hs.allocs; }
    if (on_heap && !harness) on_heap(true, p, n);
    return p;
}

static void check_redzone(const Block& b)
{
    if (b.kind == 1) return;
    const unsigned char *p = reinterpret_cast<const unsigned char*>(b.start);
    size_t rn = (b.size + 15) & ~size_t(15);
    for (size_t i = 1; i <= b.left; ++i) {
        if (p[-ptrdiff_t(i)] != RZ) fail("heap-overflow", "%zu bytes before a block of %zu bytes allocated in %s were overwritten", i, b.size, b.op);
    }
    for (size_t i = b.size; i < rn + b.right; ++i) {
        if (p[i] != RZ) fail("heap-overflow", "%zu bytes behind a block of %zu bytes allocated in %s were overwritten", i - b.size, b.size, b.op);
    }
}
void check_redzones() { for (std::map<uintptr_t, Block>::iterator i = live->begin(); i != live->end(); ++i) check_redzone(i->second); }

static void track(uintptr_t a, size_t n, bool w);

static void arena_free(void *p, size_t expected, bool sized)
{
    Quiesce q;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    std::map<uintptr_t, Block>::iterator i = live->find(a);
    if (i == live->end()) {
        fail("bad-free", "%s releases memory which is not (or no longer) allocated", cur->op_name);
    }
    Block b = i->second;
    if (sized && b.size != expected) {
        fail("bad-free", "block of %zu bytes released as %zu bytes in %s", b.size, expected, cur->op_name);
    }
    check_redzone(b);
    if (b.kind == 1) {
        live->erase(i);
        --hs.live_blocks; hs.live_bytes -= b.size; ++hs.frees;
        giant_bytes -= b.size;
        if (on_heap) on_heap(false, p, b.size);
        uintptr_t base = b.start & ~uintptr_t(65535);
        munmap(reinterpret_cast<void*>(base), b.start + b.size - base);
        return;
    }
    if (race_on && concurrent) track(a, b.size, true);
    live->erase(i);
    set_unaddressable(b.start, b.size);
    if (!b.harness) { --hs.live_blocks; hs.live_bytes -= b.size; ++hs.frees; }
    if (on_heap && !b.harness) on_heap(false, p, b.size);
    recycled->push_back(b);
    if (recycled->size() > 16) recycled->erase(recycled->begin());
}

void *heap_alloc(size_t n)
{
    Outside o;
    uint64_t saved = memory_limit; memory_limit = ~uint64_t(0);
    void *p = arena_alloc(n, true);
    memory_limit = saved;
    if (!p) { fprintf(stderr, "sim: arena exhausted\n"); _exit(3); }
    return p;
}
void heap_free(void *p) { Outside o; arena_free(p, 0, false); }
bool in_heap(const void *p, size_t n)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    std::map<uintptr_t, Block>::iterator i = live->upper_bound(a);
    if (i == live->begin()) return false;
    --i;
    return a >= i->second.start && a + n <= i->second.start + i->second.size && a + n >= a;
}
uint64_t block_size(const void *p)
{
    std::map<uintptr_t, Block>::iterator i = live->find(reinterpret_cast<uintptr_t>(p));
    return i == live->end() ? ~uint64_t(0) : i->second.size;
}
void check_no_leaks(const char *when)
{
    check_redzones();
    for (std::map<uintptr_t, Block>::iterator i = live->begin(); i != live->end(); ++i) {
        if (!i->second.harness) {
            fail("leak", "%s: %llu blocks leaked, e.g. %zu bytes allocated in %s (allocation #%llu)", when,
                 (unsigned long long)hs.live_blocks, i->second.size, i->second.op, (unsigned long long)i->second.seq);
        }
    }
}

// ------------------------------------------------------------------ faults
void arm(fault_kind k, uint64_t nth) { cur->arm_left[k] = nth; cur->fired = false; }
void disarm() { for (int i = 0; i < FAULT_KINDS; ++i) cur->arm_left[i] = 0; cur->fired = false; }
bool fault_fired() { return cur->fired; }
static const char *fault_names[] = { "fault.allocation_failed", "fault.member_constructor_threw", "fault.member_copy_threw", "fault.device_allocation_failed" };
bool fault_point(fault_kind k)
{
    if (!cur || cur->arm_left[k] == 0) return false;
    if (--cur->arm_left[k] != 0) return false;
    cur->fired = true;
    ++sh->n_faults;
    count(fault_names[k]);
    event("FAULT %s", fault_names[k]);
    sh->nontrivial = 1;
    return true;
}

static void *lib_alloc(size_t n, size_t align)
{
    int depth = cur->lib_depth;
    cur->lib_depth = 0;
    void *p = 0;
    if (!fault_point(FAULT_ALLOC)) {
        p = arena_alloc(n, false, align);
        if (!p) { count("fault.memory_exhausted"); cur->fired = true; sh->nontrivial = 1; event("FAULT memory exhausted"); }
    }
    cur->lib_depth = depth;
    return p;
}

// ------------------------------------------------------------------ probes
static std::unordered_map<uintptr_t, int> *probes;
void probe_born(const void *p)
{
    Outside o;
    if (!probes->insert(std::make_pair(reinterpret_cast<uintptr_t>(p), 1)).second) {
        fail("lifetime", "member object constructed on top of a live one (%s)", cur->op_name);
    }
}
void probe_dead(const void *p)
{
    Outside o;
    if (probes->erase(reinterpret_cast<uintptr_t>(p)) == 0) {
        fail("lifetime", "member object destroyed which was not alive (%s)", cur->op_name);
    }
}
void probe_used(const void *p, const char *how)
{
    Outside o;
    if (probes->count(reinterpret_cast<uintptr_t>(p)) == 0) {
        fail("lifetime", "%s a member object which is not alive (%s)", how, cur->op_name);
    }
}
bool probe_alive(const void *p) { Outside o; return probes->count(reinterpret_cast<uintptr_t>(p)) != 0; }
uint64_t probes_live() { return probes->size(); }
void check_no_probes(const char *when)
{
    if (!probes->empty()) fail("lifetime", "%s: %zu member objects were never destroyed", when, probes->size());
}

// ------------------------------------------------------------------ memory accesses
static access_hook on_access;
void set_access_hook(access_hook h) { on_access = h; }
void set_virtual_thread(int id) { virtual_thread = id; }
void new_epoch() { ++epoch; }

static bool ordered(uint32_t rec)
{
    uint32_t tid = rec >> 16, clk = rec & 0xffff;
    if (virtual_thread >= 0) return clk < (epoch & 0xffff) || tid == uint32_t(virtual_thread) + 1;
    if (tid == 0) return true;
    --tid;
    if (int(tid) == cur->id) return true;
    return cur->vc[tid] >= clk;
}
static void race_fail(uintptr_t a, bool w, uint32_t rec, const char *prev)
{
    int me = virtual_thread >= 0 ? virtual_thread : cur->id;
    fail("data-race", "thread %d %s in %s while thread %d %s the same memory, unordered (offset %lld)", me, w ? "writes" : "reads",
         cur->op_name, int(rec >> 16) - 1, prev, (long long)(arena_addr(a) ? a - ARENA_BASE : a - globals_lo));
}
static void race_check(Race *r, uintptr_t a, size_t n, bool w)
{
    uint32_t mine = virtual_thread >= 0
        ? ((uint32_t(virtual_thread) + 1) << 16) | (epoch & 0xffff)
        : ((uint32_t(cur->id) + 1) << 16) | (cur->vc[cur->id] & 0xffff);
    for (size_t i = 0; i < n; ++i, ++r) {
        if (r->w && r->w != mine && !ordered(r->w)) race_fail(a + i, w, r->w, "wrote");
        if (w) {
            if (r->r0 && r->r0 != mine && !ordered(r->r0)) race_fail(a + i, w, r->r0, "read");
            if (r->r1 && r->r1 != mine && !ordered(r->r1)) race_fail(a + i, w, r->r1, "read");
            r->w = mine; r->r0 = r->r1 = 0;
        } else {
            if ((r->r0 >> 16) == (mine >> 16) || r->r0 == 0 || ordered(r->r0)) r->r0 = mine; else r->r1 = mine;
        }
    }
}
static void track(uintptr_t a, size_t n, bool w)
{
    if (arena_addr(a)) race_check(race_arena + (a - ARENA_BASE), a, n, w);
    else if (a >= globals_lo && a < globals_hi) race_check(race_globals + (a - globals_lo), a, n, w);
}
static Race *race_device; static uintptr_t race_device_lo; static size_t race_device_n;
void device_access(uintptr_t a, size_t n, bool w)
{
    if (!race_device) {
        race_device_lo = (uintptr_t(1) << 40) + (uintptr_t(1) << 37); race_device_n = size_t(64) << 20;
        race_device = static_cast<Race*>(map_at(0, race_device_n * sizeof(Race)));
    }
    if (a - race_device_lo < race_device_n) race_check(race_device + (a - race_device_lo), a, n, w);
}

static uint64_t MAX_STEPS = 60u * 1000 * 1000;
void set_step_limit(uint64_t n) { MAX_STEPS = n; }

static void describe_bad(uintptr_t a, size_t n, bool w)
{
    std::map<uintptr_t, Block>::iterator i = live->upper_bound(a);
    if (i != live->begin()) {
        --i;
        Block& b = i->second;
        size_t rn = (b.size + 15) & ~size_t(15);
        if (a < b.start + rn + b.right) {
            fail("heap-overflow", "%s of %zu bytes at offset %llu of a block of %zu bytes in %s", w ? "write" : "read", n,
                 (unsigned long long)(a - b.start), b.size, cur->op_name);
        }
    }
    fail("heap-invalid", "%s of %zu bytes in memory which is not allocated (released or never handed out) in %s", w ? "write" : "read", n, cur->op_name);
}

static inline void access(uintptr_t a, size_t n, bool w)
{
    Fiber *f = cur;
    if (!f || f->lib_depth == 0) return;
    if (on_access) { int d = f->lib_depth; f->lib_depth = 0; on_access(a, n, w); f->lib_depth = d; }
    if (++sh->sim_steps > MAX_STEPS && giants_allowed) inconclusive("reach.giant_run_too_long");
    if (sh->sim_steps > MAX_STEPS) fail("no-progress", "%s performed more than %llu memory accesses", f->op_name, (unsigned long long)MAX_STEPS);
    if (a - STACK_BASE < size_t(MAX_FIBERS) * STACK_SIZE * 2) {
        int owner = int((a - STACK_BASE) / (STACK_SIZE * 2));
        if (owner != f->id && owner != 0 && f->id != 0 && concurrent) {
            fail("foreign-stack", "thread %d %s the stack of thread %d in %s", f->id, w ? "writes to" : "reads from", owner, f->op_name);
        }
        return;
    }
    bool arena = arena_addr(a);
    if (arena) {
        const unsigned char *s = addr_shadow + ((a - ARENA_BASE) >> 3);
        uintptr_t x = a, e = a + n;
        while (x < e) {
            size_t in = x & 7;
            size_t lim = *s;
            size_t upto = std::min<size_t>(8, in + (e - x));
            if (upto > lim) describe_bad(a, n, w);
            x += upto - in;
            ++s;
        }
    } else if (giant_addr(a)) {
        if (n > (size_t(64) << 20)) inconclusive("reach.giant_block_touched_as_a_whole");
        if (!in_heap(reinterpret_cast<void*>(a), n)) describe_bad(a, n, w);
        return;
    } else if (!(a >= globals_lo && a < globals_hi)) {
        return;
    }
    if (f->quiet) return;
    if (concurrent && preempt_left > 0 && f->id != 0 && --preempt_left == 0) {
        ++sh->n_preemptions;
        sh->nontrivial = 1;
        schedule(true);
    }
    // the access itself takes place after the scheduling point:
    if (race_on && (concurrent || virtual_thread >= 0)) {
        ++sh->n_accesses;
        track(a, n, w);
    }
}

} // namespace sim

using sim::access;
extern "C" {
#define SIM_ACC(N) \
    void __asan_load##N##_noabort(uintptr_t a) { access(a, N, false); } \
    void __asan_store##N##_noabort(uintptr_t a) { access(a, N, true); }
SIM_ACC(1) SIM_ACC(2) SIM_ACC(4) SIM_ACC(8) SIM_ACC(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { if (n) access(a, n, false); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { if (n) access(a, n, true); }
void *__asan_memcpy(void *d, const void *s, size_t n)
{
    if (n) { access(reinterpret_cast<uintptr_t>(s), n, false); access(reinterpret_cast<uintptr_t>(d), n, true); }
    return memmove(d, s, n);
}
void *__asan_memmove(void *d, const void *s, size_t n) { return __asan_memcpy(d, s, n); }
void *__asan_memset(void *d, int c, size_t n) { if (n) access(reinterpret_cast<uintptr_t>(d), n, true); return memset(d, c, n); }
void __asan_handle_no_return() {}

// C-level allocation from instrumented code
void *__wrap_malloc(size_t n)
{
    if (!sim::in_lib()) return __real_malloc(n);
    void *p = sim::lib_alloc(n, 16);
    if (!p) errno = ENOMEM;
    return p;
}
void __wrap_free(void *p)
{
    if (p && sim::in_arena(p)) { sim::arena_free(p, 0, false); return; }
    __real_free(p);
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (!sim::in_lib()) return __real_calloc(a, b);
    if (b && a > SIZE_MAX / b) return 0;
    void *p = sim::lib_alloc(a * b, 16);
    if (p) memset(p, 0, a * b);
    return p;
}
void *__wrap_realloc(void *o, size_t n)
{
    if (!sim::in_lib() && !(o && sim::in_arena(o))) return __real_realloc(o, n);
    void *p = sim::lib_alloc(n, 16);
    if (p && o) { size_t m = sim::block_size(o); memcpy(p, o, m < n ? m : n); __wrap_free(o); }
    return p;
}
int __wrap_posix_memalign(void **r, size_t al, size_t n)
{
    if (!sim::in_lib()) return __real_posix_memalign(r, al, n);
    void *p = sim::lib_alloc(n, al < 16 ? 16 : al);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n)
{
    if (!sim::in_lib()) return __real_aligned_alloc(al, n);
    return sim::lib_alloc(n, al < 16 ? 16 : al);
}
int __wrap_pthread_mutex_lock(void *m) { if (sim::sim_threads_active()) { sim::sim_lock(m); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(void *m) { if (sim::sim_threads_active()) { sim::sim_unlock(m); return 0; } return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(void *m)
{
    if (!sim::sim_threads_active()) return __real_pthread_mutex_trylock(m);
    if ((*sim::mutexes)[m].owner) return EBUSY;
    sim::sim_lock(m);
    return 0;
}
// function-local statics: initialisation is atomic for all simulated threads
int __cxa_guard_acquire(uint64_t *g)
{
    if (*reinterpret_cast<volatile char*>(g)) return 0;
    if (sim::cur) ++sim::cur->quiet;
    return 1;
}
void __cxa_guard_release(uint64_t *g) { *reinterpret_cast<volatile char*>(g) = 1; if (sim::cur) --sim::cur->quiet; }
void __cxa_guard_abort(uint64_t *) { if (sim::cur) --sim::cur->quiet; }
int __cxa_thread_atexit(void (*d)(void*), void *o, void*)
{
    if (sim::cur) sim::cur->tls_dtors.push_back(std::make_pair(d, o));
    return 0;
}
}

static void *sim_new(size_t n, size_t align)
{
    if (!sim::in_lib()) {
        void *p = align > 16 ? 0 : __real_malloc(n ? n : 1);
        if (align > 16 && __real_posix_memalign(&p, align, n ? n : 1)) p = 0;
        if (!p) throw std::bad_alloc();
        return p;
    }
    void *p = sim::lib_alloc(n, align < 16 ? 16 : align);
    if (!p) throw std::bad_alloc();
    return p;
}
static void sim_delete(void *p, size_t n, bool sized)
{
    if (!p) return;
    if (sim::in_arena(p)) { sim::arena_free(p, n, sized); return; }
    __real_free(p);
}
void *operator new(size_t n) { return sim_new(n, 16); }
void *operator new[](size_t n) { return sim_new(n, 16); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n, 16); } catch (...) { return 0; } }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n, 16); } catch (...) { return 0; } }
void *operator new(size_t n, std::align_val_t a) { return sim_new(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return sim_new(n, size_t(a)); }
void operator delete(void *p) noexcept { sim_delete(p, 0, false); }
void operator delete[](void *p) noexcept { sim_delete(p, 0, false); }
void operator delete(void *p, size_t n) noexcept { sim_delete(p, n, true); }
void operator delete[](void *p, size_t n) noexcept { sim_delete(p, n, true); }
void operator delete(void *p, std::align_val_t) noexcept { sim_delete(p, 0, false); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_delete(p, 0, false); }
void operator delete(void *p, size_t n, std::align_val_t) noexcept { sim_delete(p, n, true); }
void operator delete[](void *p, size_t n, std::align_val_t) noexcept { sim_delete(p, n, true); }

// ------------------------------------------------------------------ one run
namespace sim {

static void *host_sp;
static void main_fiber()
{
    try {
        sim_run();
    } catch (const std::exception& e) {
        fail("uncaught-exception", "operation failed unexpectedly: %s", e.what());
    } catch (...) {
        fail("uncaught-exception", "operation failed unexpectedly (unknown exception)");
    }
    check_redzones();
    sh->status = 1;
    if (g_trace) fprintf(stderr, "run completed, event hash %016llx\n", (unsigned long long)sh->event_hash);
    fflush(0);
    _exit(0);
}

static void execute_child()
{
    live = new std::map<uintptr_t, Block>();
    recycled = new std::vector<Block>();
    probes = new std::unordered_map<uintptr_t, int>();
    mutexes = new std::unordered_map<void*, SimMutex>();
    arena_next = ARENA_BASE;
    set_garbage_seed(choose(1u << 30));
    make_fiber(&fibers[0], 0);
    n_fibers = 1;
    fill_garbage(fibers[0].stack + STACK_SIZE - (128 << 10), (128 << 10) - 256);
    if (tls_size) memcpy(fibers[0].tls.data(), tls_addr, tls_size);
    void **sp = static_cast<void**>(fibers[0].sp);
    sp[6] = reinterpret_cast<void*>(&main_fiber);
    cur = &fibers[0];
    sim_switch(&host_sp, fibers[0].sp);
}

struct Result { int status; std::string cls, msg; uint64_t hash, sched; std::vector<uint32_t> choices; };

static unsigned run_timeout = 60;

static void reset_shared()
{
    sh->n_choices = 0; sh->overflow = 0; sh->status = 0; sh->nontrivial = 0;
    sh->event_hash = 0; sh->sched_hash = 0;
    sh->n_events = sh->n_switches = sh->n_preemptions = sh->n_accesses = sh->sim_steps = sh->n_faults = 0;
    sh->cls[0] = 0; sh->msg[0] = 0; sh->ops[0] = 0; sh->ops_len = 0;
}

// forks, executes one run, returns 0 ok / 2 violation / 3 harness error
static int run_forked(uint64_t seed, uint64_t index, const std::vector<uint32_t> *choices, bool trace)
{
    reset_shared();
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        g_trace = trace;
        replaying = choices != 0;
        replay_choices = const_cast<std::vector<uint32_t>*>(choices);
        replay_pos = 0;
        uint64_t s = seed * 0x9e3779b97f4a7c15ull + index * 0xd1342543de82ef95ull + 77;
        rng_seed(s);
        struct rlimit rl = { run_timeout, run_timeout + 5 };
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit core = { 0, 0 };
        setrlimit(RLIMIT_CORE, &core);
        execute_child();
        _exit(3);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 3;       // out of memory: not the run's fault
    if (WIFSIGNALED(st)) {
        int sig = WTERMSIG(st);
        const char *n = sig == SIGXCPU ? "no-progress" : "crash";
        if (sh->status != 2) {
            snprintf(sh->cls, sizeof(sh->cls), "%s", n);
            snprintf(sh->msg, sizeof(sh->msg), "run ended by signal %d (%s)", sig, strsignal(sig));
        }
        if (sig == SIGXCPU) sh->event_hash = hash_bytes(sh->choices, sh->n_choices * 4);
        sh->status = 2;
        return 2;
    }
    int code = WEXITSTATUS(st);
    if (code == 42 && sh->status == 2) return 2;
    if (code == 0 && sh->status == 1) return 0;
    if (code == 3) return 3;
    // exit() called behind our back
    snprintf(sh->cls, sizeof(sh->cls), "crash");
    snprintf(sh->msg, sizeof(sh->msg), "run exited prematurely with code %d", code);
    sh->status = 2;
    return 2;
}

static void put_string(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void write_candidate(const char *path, uint64_t seed, uint64_t index)
{
    FILE *f = fopen(path, "w");
    if (!f) { perror(path); exit(3); }
    fprintf(f, "{\"seed\": %llu, \"run\": %llu, \"class\": ", (unsigned long long)seed, (unsigned long long)index);
    put_string(f, sh->cls);
    fprintf(f, ", \"message\": ");
    put_string(f, sh->msg);
    fprintf(f, ", \"event_hash\": \"%016llx\", \"sched_hash\": \"%016llx\", \"steps\": %llu, \"digest\": ",
            (unsigned long long)sh->event_hash, (unsigned long long)sh->sched_hash, (unsigned long long)sh->sim_steps);
    put_string(f, sh->ops);
    fprintf(f, ", \"choices\": [");
    for (uint32_t i = 0; i < sh->n_choices; ++i) fprintf(f, "%s%u", i ? "," : "", sh->choices[i]);
    fprintf(f, "]}\n");
    fclose(f);
}

static std::vector<uint32_t> read_choices(const char *path)
{
    FILE *f = fopen(path, "r");
    if (!f) { perror(path); exit(3); }
    std::string s;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) s.append(buf, n);
    fclose(f);
    size_t p = s.find("\"choices\": [");
    std::vector<uint32_t> r;
    if (p == std::string::npos) { fprintf(stderr, "no choices in %s\n", path); exit(3); }
    const char *c = s.c_str() + p + 12;
    while (*c && *c != ']') {
        char *e;
        unsigned long v = strtoul(c, &e, 10);
        if (e == c) { ++c; continue; }
        r.push_back(uint32_t(v));
        c = e;
    }
    return r;
}

// -------------------------------------------------------------- minimisation
static bool still_fails(const std::vector<uint32_t>& c, const std::string& cls, int& budget)
{
    if (budget <= 0) return false;
    --budget;
    return run_forked(0, 0, &c, false) == 2 && cls == sh->cls;
}
static void strip(std::vector<uint32_t>& c) { while (!c.empty() && c.back() == 0) c.pop_back(); }

static std::vector<uint32_t> minimise(std::vector<uint32_t> c, const std::string& cls, int budget, double deadline)
{
    struct timespec ts;
    #define OUT_OF_TIME (clock_gettime(CLOCK_MONOTONIC, &ts), ts.tv_sec + 1e-9 * ts.tv_nsec > deadline)
    strip(c);
    // 1. shortest failing prefix (rest 0)
    {
        size_t lo = 0, hi = c.size();
        while (lo < hi && !OUT_OF_TIME) {
            size_t mid = (lo + hi) / 2;
            std::vector<uint32_t> t(c.begin(), c.begin() + mid);
            if (still_fails(t, cls, budget)) hi = mid; else lo = mid + 1;
        }
        std::vector<uint32_t> t(c.begin(), c.begin() + hi);
        if (still_fails(t, cls, budget)) c = t;
    }
    bool progress = true;
    while (progress && budget > 0 && !OUT_OF_TIME) {
        progress = false;
        // 2. delete chunks
        for (size_t len = std::max<size_t>(1, c.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= c.size() && budget > 0 && !OUT_OF_TIME; ) {
                std::vector<uint32_t> t(c);
                t.erase(t.begin() + i, t.begin() + i + len);
                if (still_fails(t, cls, budget)) { c = t; strip(c); progress = true; } else i += len;
            }
            if (len == 1) break;
        }
        // 3. zero chunks
        for (size_t len = std::max<size_t>(1, c.size() / 4); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= c.size() && budget > 0 && !OUT_OF_TIME; i += len) {
                bool z = true;
                for (size_t j = i; j < i + len; ++j) z = z && c[j] == 0;
                if (z) continue;
                std::vector<uint32_t> t(c);
                std::fill(t.begin() + i, t.begin() + i + len, 0);
                if (still_fails(t, cls, budget)) { c = t; progress = true; }
            }
            if (len == 1) break;
        }
        strip(c);
        // 4. lower values
        for (size_t i = 0; i < c.size() && budget > 0 && !OUT_OF_TIME; ++i) {
            uint32_t lo = 0;
            while (c[i] > lo && budget > 0) {
                std::vector<uint32_t> t(c);
                t[i] = lo + (c[i] - lo) / 2;
                if (still_fails(t, cls, budget)) { c = t; progress = true; } else lo = t[i] + 1;
            }
        }
        strip(c);
    }
    return c;
}

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

} // namespace sim

int main(int argc, char **argv)
{
    using namespace sim;
    // same addresses in every process
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    uint64_t seed = 1, start = 0, step = 1, runs = 100;
    double time_limit = 1e9;
    std::string mode = "search", out, file;
    int budget = 1500;
    bool trace = false;
    options.tier = "quick";
    options.variant = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--start") start = strtoull(argv[++i], 0, 10);
        else if (a == "--step") step = strtoull(argv[++i], 0, 10);
        else if (a == "--runs") runs = strtoull(argv[++i], 0, 10);
        else if (a == "--time") time_limit = atof(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--tier") options.tier = argv[++i];
        else if (a == "--variant") options.variant = atoi(argv[++i]);
        else if (a == "--replay") { mode = "replay"; file = argv[++i]; }
        else if (a == "--minimise") { mode = "minimise"; file = argv[++i]; }
        else if (a == "--one") { mode = "one"; start = strtoull(argv[++i], 0, 10); }
        else if (a == "--budget") budget = atoi(argv[++i]);
        else if (a == "--trace") trace = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    sh = static_cast<Shared*>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    map_at(ARENA_BASE, ARENA_SIZE);
    map_at(STACK_BASE, size_t(MAX_FIBERS) * STACK_SIZE * 2);
    addr_shadow = static_cast<unsigned char*>(map_at(0, ARENA_SIZE / 8 + 4096));
    race_arena = static_cast<Race*>(map_at(0, ARENA_SIZE * sizeof(Race)));
    globals_lo = reinterpret_cast<uintptr_t>(&__data_start);
    globals_hi = reinterpret_cast<uintptr_t>(&_end);
    race_globals = static_cast<Race*>(map_at(0, (globals_hi - globals_lo + 64) * sizeof(Race)));
    dl_iterate_phdr(find_tls, 0);

    if (mode == "one") {
        int r = run_forked(seed, start, 0, trace);
        printf("status=%d class=%s msg=%s hash=%016llx choices=%u steps=%llu switches=%llu\n", r, sh->cls, sh->msg,
               (unsigned long long)sh->event_hash, sh->n_choices, (unsigned long long)sh->sim_steps, (unsigned long long)sh->n_switches);
        if (!out.empty()) write_candidate(out.c_str(), seed, start);
        return r;
    }
    if (mode == "replay") {
        std::vector<uint32_t> c = read_choices(file.c_str());
        int r = run_forked(seed, start, &c, trace);
        if (!out.empty()) write_candidate(out.c_str(), seed, start);
        printf("status=%d class=%s hash=%016llx msg=%s\n", r, sh->cls, (unsigned long long)sh->event_hash, sh->msg);
        return r;
    }
    if (mode == "minimise") {
        std::vector<uint32_t> c = read_choices(file.c_str());
        int r = run_forked(seed, start, &c, false);
        if (r != 2) { fprintf(stderr, "candidate does not fail on replay (status %d)\n", r); return 4; }
        std::string cls = sh->cls;
        std::vector<uint32_t> m = minimise(c, cls, budget, now() + time_limit);
        r = run_forked(seed, start, &m, false);
        if (r != 2 || cls != sh->cls) { m = c; r = run_forked(seed, start, &m, false); }
        if (r != 2) return 4;
        write_candidate(out.c_str(), seed, start);
        printf("minimised %zu -> %zu choices\n", c.size(), m.size());
        return 0;
    }
    // search
    double t0 = now();
    uint64_t done = 0, nontrivial = 0, switches = 0, preempt = 0, accesses = 0, steps = 0, faults = 0, events = 0, max_steps = 0;
    double longest = 0;
    std::vector<uint64_t> hashes, scheds;
    FILE *samples = out.empty() ? 0 : fopen((out + ".samples").c_str(), "w");
    int nsamples = 0;
    int rc = 0;
    for (uint64_t i = 0; i < runs; ++i) {
        if ((i & 7) == 0 && now() - t0 > time_limit) break;
        uint64_t index = start + i * step;
        double begin = now();
        int r = run_forked(seed, index, 0, false);
        longest = std::max(longest, now() - begin);
        max_steps = std::max(max_steps, sh->sim_steps);
        if (r == 3) { fprintf(stderr, "harness error in run %llu\n", (unsigned long long)index); return 3; }
        ++done;
        switches += sh->n_switches; preempt += sh->n_preemptions; accesses += sh->n_accesses; steps += sh->sim_steps; faults += sh->n_faults; events += sh->n_events;
        if (sh->nontrivial) { ++nontrivial; hashes.push_back(mix(sh->event_hash, sh->sched_hash)); }
        if (sh->n_switches) scheds.push_back(sh->sched_hash);
        if (samples && sh->nontrivial && nsamples < 3) { ++nsamples; fprintf(samples, "run %llu: %s\n", (unsigned long long)index, sh->ops); fflush(samples); }
        if (r == 2) {
            if (!out.empty()) write_candidate((out + ".cand").c_str(), seed, index);
            rc = 2;
            break;
        }
    }
    if (samples) fclose(samples);
    std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    std::sort(scheds.begin(), scheds.end()); scheds.erase(std::unique(scheds.begin(), scheds.end()), scheds.end());
    if (!out.empty()) {
        FILE *f = fopen((out + ".hashes").c_str(), "wb");
        fwrite(hashes.data(), 8, hashes.size(), f); fclose(f);
        f = fopen((out + ".scheds").c_str(), "wb");
        fwrite(scheds.data(), 8, scheds.size(), f); fclose(f);
        f = fopen((out + ".json").c_str(), "w");
        fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"switches\": %llu, \"preemptions\": %llu, \"race_checked_accesses\": %llu, \"steps\": %llu, \"faults\": %llu, \"events\": %llu, \"wall\": %.3f, \"max_steps\": %llu, \"longest\": %.3f, \"counters\": {",
                (unsigned long long)done, (unsigned long long)nontrivial, (unsigned long long)switches, (unsigned long long)preempt,
                (unsigned long long)accesses, (unsigned long long)steps, (unsigned long long)faults, (unsigned long long)events, now() - t0, (unsigned long long)max_steps, longest);
        bool first = true;
        for (size_t i = 0; i < MAX_COUNTERS; ++i) {
            if (sh->counters[i].name[0]) {
                fprintf(f, "%s", first ? "" : ", "); first = false;
                put_string(f, sh->counters[i].name);
                fprintf(f, ": %llu", (unsigned long long)sh->counters[i].n);
            }
        }
        fprintf(f, "}}\n");
        fclose(f);
    }
    return rc;
}
