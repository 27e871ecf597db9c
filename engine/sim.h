// Deterministic simulator for LibFlatArray: public interface for workloads.
//
// One process executes one run. Every decision (which fiber runs next, when it
// is preempted, which operation comes next, where a block of memory is placed,
// what garbage it contains, which allocation/member operation/message/system
// call fails) is drawn from one choice stream. In search mode the stream comes
// from a PRNG seeded by (VERIF_SEED, run index) and is recorded; in replay mode
// it comes from a file. Exhausted streams yield 0, and 0 always is the simplest
// choice (no fault, no preemption, smallest size), which is what minimisation
// relies on.
#ifndef SIM_H
#define SIM_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace sim {

// ---------------------------------------------------------------- choices
uint64_t choose(uint64_t n);                    // [0, n)
uint64_t range(uint64_t lo, uint64_t hi);       // [lo, hi], simplest: lo
bool chance(unsigned num, unsigned den);        // true with probability num/den
size_t weighted(const unsigned *weights, size_t n);
template<size_t N> size_t weighted(const unsigned (&w)[N]) { return weighted(w, N); }
template<typename T, size_t N> const T& pick(const T (&a)[N]) { return a[choose(N)]; }

// The decisions of the workload (not those of the heap) can be recorded and
// repeated within one run, to compare two executions of the same operations.
void tape_record();
void tape_play();
void tape_off();
struct Untaped { Untaped(); ~Untaped(); Untaped(const Untaped&) = delete; bool saved; };

// ---------------------------------------------------------------- log, violations, counters
void event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const char *name, uint64_t n = 1);
void observe(uint64_t v);        // feeds the event hash with an observed value
void mark_nontrivial();
bool tracing();
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void *p, size_t n);

// ---------------------------------------------------------------- fibers (simulated threads)
int self();                                     // 0: main
void spawn(std::function<void()> body);         // registered, starts at join_all()
void join_all();                                // runs all spawned fibers to completion
void yield();                                   // explicit scheduling point
void barrier(int id, int participants);
void set_race_checks(bool on);
void set_preemption_mean(unsigned mean);        // mean number of shared accesses between preemptions; 0: off
void set_step_limit(uint64_t accesses);         // a run with more memory accesses of library code makes no progress

// Code of the library under test (and the user code it calls back) runs inside
// a LibOp scope. Only there memory accesses are checked/preempted, allocations
// come from the simulated heap and faults may be injected.
struct LibOp { explicit LibOp(const char *name); ~LibOp(); LibOp(const LibOp&) = delete; int saved; const char *saved_name; };
// Harness code called from within the library (user functors, probes, iterators)
struct Outside { Outside(); ~Outside(); Outside(const Outside&) = delete; int saved; };
bool in_lib();

// ---------------------------------------------------------------- simulated heap
struct HeapStats { uint64_t live_blocks, live_bytes, allocs, frees; };
HeapStats heap();                                    // blocks allocated by library code
void *heap_alloc(size_t n);                          // harness-owned object/buffer placed in the arena (never fails, not a leak)
void heap_free(void *p);
void set_memory_limit(uint64_t bytes);
bool in_heap(const void *p, size_t n);               // completely inside one live block
uint64_t block_size(const void *p);                  // size of live block starting at p, ~0 if none
void check_no_leaks(const char *when);
void check_redzones();
typedef void (*heap_hook)(bool alloc, void *p, size_t n);
void set_heap_hook(heap_hook h);
void set_placement(bool vary);                       // vary addresses/recycling (default on)

// fault injection: fail the n-th (1-based) fallible step of the given kind from now on; 0 disarms
enum fault_kind { FAULT_ALLOC = 0, FAULT_MEMBER_CTOR, FAULT_MEMBER_COPY, FAULT_DEVICE_ALLOC, FAULT_KINDS };
void arm(fault_kind k, uint64_t nth);
void disarm();
bool fault_fired();                                  // since last arm()/disarm()
bool fault_point(fault_kind k);                      // true: this step shall fail now

// ---------------------------------------------------------------- lifetime registry of member objects
void probe_born(const void *p);
void probe_dead(const void *p);
void probe_used(const void *p, const char *how);
bool probe_alive(const void *p);
uint64_t probes_live();
void check_no_probes(const char *when);

// ---------------------------------------------------------------- hooks used by the device simulation
typedef void (*access_hook)(uintptr_t addr, size_t n, bool write);
void set_access_hook(access_hook h);
void set_virtual_thread(int id);                     // race detection between device threads; -1: off
void new_epoch();
void forget_accesses(const void *p, size_t n);
void device_access(uintptr_t addr, size_t n, bool write);   // race check for memory outside of the arena
bool in_arena(const void *p);
bool allow_giants(bool v);                           // requests of up to 256 GiB are served (otherwise: 64 MiB)
bool in_stack(const void *p);

// ---------------------------------------------------------------- seeded garbage
void fill_garbage(void *p, size_t n);
void set_garbage_seed(uint64_t s);

// ---------------------------------------------------------------- run entry, provided by the workload
struct Options { std::string tier; int variant; };
extern Options options;
}

void sim_run();              // one run; provided by the workload

#endif
