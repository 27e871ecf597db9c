// C08: aligned_allocator on arbitrary heap addresses, containers with other allocators, threads
#include "sequences.h"
#include <map>

// ---------------------------------------------------------------- blocks obtained directly from the allocator
struct Odd { unsigned char b[24]; };
struct RawAlloc
{
    size_t align, elem;
    const char *name;
    void *(*allocate)(size_t n);
    void (*deallocate)(void *p, size_t n);
    size_t (*max_size)();
};
template<typename T, size_t A> struct Raw
{
    typedef LibFlatArray::aligned_allocator<T, A> Alloc;
    static void *allocate(size_t n) { return Alloc().allocate(n); }
    static void deallocate(void *p, size_t n)
    {
        Alloc a; const Alloc b;
        if (!(a == b) || b != a) sim::fail("unequal", "allocators which release each other's blocks compare unequal");
        a.deallocate(static_cast<T*>(p), n);
    }
    static size_t max_size() { return Alloc().max_size(); }
    static RawAlloc make(const char *name) { RawAlloc r = { A, sizeof(T), name, &allocate, &deallocate, &max_size }; return r; }
};
#define RAW(T, A) Raw<T, A>::make(#T "," #A)
static RawAlloc raw_allocator(size_t i)
{
    switch (i) {
    case 0: return RAW(char, 64);
    case 1: return RAW(char, 4096);
    case 2: return RAW(double, 16);
    case 3: return RAW(double, 32);
    case 4: return RAW(int, 64);
    case 5: return RAW(char, 8);
    case 6: return RAW(Odd, 128);
    case 7: return RAW(Odd, 4096);
    case 8: return RAW(short, 512);
    case 9: return RAW(char, 16);
    case 10: return RAW(float, 1024);
    case 11: return RAW(long, 2048);
    case 12: return RAW(char, 1);
    case 13: return RAW(char, 2);
    case 14: return RAW(int, 4);
    case 15: return RAW(char, 65536);
    default: return RAW(double, 256);
    }
}
struct RawBlock { RawAlloc a; unsigned char *p; size_t n; uint64_t seed; };

static void fill(RawBlock& b)
{
    for (size_t i = 0; i < b.n * b.a.elem; ++i) b.p[i] = static_cast<unsigned char>(sim::mix(b.seed, i));
}
static void verify(const RawBlock& b, const char *when)
{
    for (size_t i = 0; i < b.n * b.a.elem; ++i) if (b.p[i] != static_cast<unsigned char>(sim::mix(b.seed, i)))
        sim::fail("wrong-content", "byte %zu of a block of %zu x %s changed (%s)", i, b.n, b.a.name, when);
}
static size_t raw_size()
{
    switch (sim::choose(5)) {
    case 0: return sim::range(0, 4);
    case 1: return sim::range(1, 64);
    case 2: return sim::range(1, 500);
    case 3: { static const size_t e[] = { 8, 16, 32, 64, 4096, 4095, 4097, 1, 63, 65, 24 }; return sim::pick(e); }
    default: return sim::range(1, 12);
    }
}
// returns false if the request failed because of an injected fault
static bool obtain(std::vector<RawBlock>& blocks, const std::vector<std::vector<RawBlock>*>& all, bool faulty, uint64_t seed)
{
    RawBlock b;
    b.a = raw_allocator(sim::choose(17));
    b.n = raw_size();
    b.seed = seed;
    b.p = 0;
    sim::event("allocate %zu x %s", b.n, b.a.name);
    if (faulty && sim::chance(1, 3)) sim::arm(sim::FAULT_ALLOC, 1);
    uint64_t before = sim::heap().live_blocks;
    bool alone = sim::self() == 0;
    Outcome o = attempt("allocate", [&] { b.p = static_cast<unsigned char*>(b.a.allocate(b.n)); });
    if (o == THREW) sim::fail("unexpected-error", "allocating %zu x %s failed although there is enough memory", b.n, b.a.name);
    if (o == FAULTED) {
        if (alone && sim::heap().live_blocks != before) sim::fail("leak", "failed allocation left memory behind");
        sim::count("reach.raw_allocation_failed");
        return false;
    }
    if (!b.p) sim::fail("no-memory", "allocating %zu x %s returned null", b.n, b.a.name);
    if (reinterpret_cast<uintptr_t>(b.p) % b.a.align) sim::fail("misaligned", "block of %zu x %s is not aligned", b.n, b.a.name);
    size_t bytes = b.n * b.a.elem;
    if (bytes && !sim::in_heap(b.p, bytes)) sim::fail("out-of-block", "block of %zu x %s is not completely inside memory obtained from the heap", b.n, b.a.name);
    for (size_t v = 0; v < all.size(); ++v) for (size_t i = 0; i < all[v]->size(); ++i) {
        const RawBlock& c = (*all[v])[i];
        size_t cb = c.n * c.a.elem;
        if (bytes && cb && b.p < c.p + cb && c.p < b.p + bytes) sim::fail("overlap", "two live blocks overlap (%zu x %s and %zu x %s)", b.n, b.a.name, c.n, c.a.name);
    }
    // user code writes to all of it
    { sim::LibOp op("use block"); fill(b); }
    blocks.push_back(b);
    return true;
}
static void release(std::vector<RawBlock>& blocks, size_t i)
{
    RawBlock b = blocks[i];
    blocks.erase(blocks.begin() + long(i));
    sim::event("deallocate %zu x %s", b.n, b.a.name);
    { sim::LibOp op("use block"); verify(b, "before release"); }
    uint64_t before = sim::heap().live_blocks;
    Outcome o = attempt("deallocate", [&] { b.a.deallocate(b.p, b.n); });
    if (o != OK) sim::fail("unexpected-error", "deallocating failed");
    if (sim::self() == 0 && sim::heap().live_blocks != before - 1) sim::fail("leak", "deallocating a block released %lld heap blocks", (long long)(before - sim::heap().live_blocks));
}
static void unsatisfiable()
{
    RawAlloc a = raw_allocator(sim::choose(17));
    size_t n;
    size_t top = ~size_t(0) / a.elem;
    switch (sim::choose(5)) {
    case 0: n = ~size_t(0) - sim::choose(70); break;
    case 1: n = top - sim::choose(3); break;
    case 2: n = top - (a.align + 8) / a.elem + sim::choose(5) - 2; break;
    case 3: { sim::LibOp op("max_size"); n = a.max_size(); break; }
    default: n = top + 1 + sim::choose(200); if (n <= top) n = top; break;      // n * sizeof(T) wraps to something small
    }
    sim::event("allocate %zu x %s (unsatisfiable)", n, a.name);
    uint64_t before = sim::heap().live_blocks;
    void *p = 0;
    Outcome o = attempt("allocate", [&] { p = a.allocate(n); });
    if (o == OK) sim::fail("not-refused", "allocating %zu x %s, more than the address space, was accepted", n, a.name);
    if (sim::self() == 0 && sim::heap().live_blocks != before) sim::fail("leak", "unsatisfiable allocation left memory behind");
    sim::count("reach.unsatisfiable");
}
// blocks of several GiB, whose size does not fit 32 bits: either they are usable or there is not enough memory
static void enormous()
{
    RawAlloc a = raw_allocator(sim::choose(17));
    size_t n = ((size_t(1) << sim::range(29, 36)) + sim::choose(600) - 300) / a.elem;
    if (sim::choose(3) == 0) n = (size_t(1) << sim::range(29, 32)) + sim::choose(40);
    bool plenty = sim::choose(3) != 0;
    sim::event("allocate %zu x %s (%s)", n, a.name, plenty ? "enough memory" : "not enough memory");
    uint64_t before = sim::heap().live_blocks;
    unsigned char *p = 0;
    sim::allow_giants(plenty);
    Outcome o = attempt("allocate", [&] { p = static_cast<unsigned char*>(a.allocate(n)); });
    sim::allow_giants(false);
    if (o == THREW) sim::fail("unexpected-error", "allocating %zu x %s failed although there is enough memory", n, a.name);
    if (o == FAULTED) {
        if (sim::heap().live_blocks != before) sim::fail("leak", "failed allocation left memory behind");
        return;
    }
    size_t bytes = n * a.elem;
    if (!p) sim::fail("no-memory", "allocating %zu x %s returned null", n, a.name);
    if (reinterpret_cast<uintptr_t>(p) % a.align) sim::fail("misaligned", "block of %zu x %s is not aligned", n, a.name);
    if (!sim::in_heap(p, bytes)) sim::fail("out-of-block", "block of %zu x %s is not completely inside memory obtained from the heap", n, a.name);
    for (size_t i = 0; i < 64; ++i) p[i] = p[bytes - 1 - i] = p[bytes / 64 * i] = 0x77;
    if (attempt("deallocate", [&] { a.deallocate(p, n); }) != OK) sim::fail("unexpected-error", "deallocating failed");
    if (sim::heap().live_blocks != before) sim::fail("leak", "deallocating a block of %zu x %s released %lld heap blocks", n, a.name, (long long)(before + 1 - sim::heap().live_blocks));
    sim::count("reach.enormous_block");
}
static void raw_history()
{
    std::vector<RawBlock> blocks;
    std::vector<std::vector<RawBlock>*> all(1, &blocks);
    sim::mark_nontrivial();
    size_t steps = sim::range(2, 40);
    for (size_t s = 0; s < steps; ++s) {
        size_t op = sim::choose(10);
        if (op < 5 || blocks.empty()) { if (blocks.size() < 14) obtain(blocks, all, true, s + 1); }
        else if (op < 8) release(blocks, sim::choose(blocks.size()));
        else if (op == 8) {
            if (sim::chance(1, 4)) { RawAlloc a = raw_allocator(sim::choose(17)); sim::event("deallocate null"); if (attempt("deallocate", [&] { a.deallocate(0, sim::choose(9)); }) != OK) sim::fail("unexpected-error", "deallocating null failed"); }
            else if (sim::chance(1, 6)) enormous();
            else unsatisfiable();
        } else {
            RawBlock& b = blocks[sim::choose(blocks.size())];
            b.seed += 1000;
            sim::LibOp o("use block");
            fill(b);
        }
        for (size_t i = 0; i < blocks.size(); ++i) verify(blocks[i], "after an operation on another block");
        sim::check_redzones();
    }
    while (!blocks.empty()) release(blocks, sim::choose(blocks.size()));
    sim::check_no_leaks("all blocks released");
}
// threads allocate, use, release; some blocks are released by the next thread
static void raw_threads()
{
    static std::vector<RawBlock> own[4], inbox[4];
    std::vector<std::vector<RawBlock>*> *all = new std::vector<std::vector<RawBlock>*>();
    for (int i = 0; i < 4; ++i) { all->push_back(&own[i]); all->push_back(&inbox[i]); }
    static const unsigned means[] = { 4, 20, 100 };
    sim::set_race_checks(true);
    sim::set_preemption_mean(sim::pick(means));
    int threads = int(sim::range(2, 4));
    bool faulty = sim::choose(2) != 0;
    sim::mark_nontrivial();
    sim::event("%d threads", threads);
    for (int t = 0; t < threads; ++t) {
        int steps = int(sim::range(1, 8));
        sim::spawn([=] {
            for (int s = 0; s < steps; ++s) {
                size_t op = sim::choose(6);
                if (op < 3 || own[t].empty()) { if (own[t].size() < 6) obtain(own[t], *all, faulty, uint64_t(t + 1) * 100000 + s); }
                else if (op == 3) release(own[t], sim::choose(own[t].size()));
                else if (op == 4) unsatisfiable();
                else { sim::LibOp o("use block"); verify(own[t][sim::choose(own[t].size())], "while other threads allocate"); }
                sim::yield();
            }
            // the barrier orders the hand over
            sim::barrier(1, threads);
            std::vector<RawBlock>& from = own[(t + 1) % threads];
            for (size_t i = 0; i < from.size(); ++i) inbox[t].push_back(from[i]);
            sim::barrier(2, threads);
            own[t].clear();
            sim::barrier(3, threads);
            while (!inbox[t].empty()) { release(inbox[t], sim::choose(inbox[t].size())); sim::yield(); }
        });
    }
    sim::join_all();
    delete all;
    sim::check_no_leaks("all blocks released");
}

// ---------------------------------------------------------------- standard containers on top of it
template<typename T, size_t A> void std_vector_history(const char *name)
{
    typedef std::vector<T, LibFlatArray::aligned_allocator<T, A> > Vec;
    sim::event("std::vector with %s", name);
    sim::mark_nontrivial();
    Vec *v[2];
    std::vector<T> m[2];
    for (int i = 0; i < 2; ++i) { sim::LibOp op("construct"); v[i] = new Vec(); }
    size_t steps = sim::range(2, 20);
    T next = 1;
    for (size_t s = 0; s < steps; ++s) {
        int k = int(sim::choose(2));
        size_t op = sim::choose(6), n = sim::range(0, 60);
        sim::event("vector%d op%zu %zu", k, op, n);
        if (sim::chance(1, 3)) sim::arm(sim::FAULT_ALLOC, 1);
        T val = next++;
        Outcome o = attempt("std::vector", [&] {
            switch (op) {
            case 0: v[k]->push_back(val); break;
            case 1: v[k]->resize(n, val); break;
            case 2: v[k]->assign(n, val); break;
            case 3: *v[k] = *v[1 - k]; break;
            case 4: v[k]->swap(*v[1 - k]); break;
            default: v[k]->insert(v[k]->begin(), n % 7, val); break;
            }
        });
        if (o == THREW) sim::fail("unexpected-error", "std::vector operation failed although there is enough memory");
        if (o == OK) switch (op) {
            case 0: m[k].push_back(val); break;
            case 1: m[k].resize(n, val); break;
            case 2: m[k].assign(n, val); break;
            case 3: m[k] = m[1 - k]; break;
            case 4: m[k].swap(m[1 - k]); break;
            default: m[k].insert(m[k].begin(), n % 7, val); break;
        }
        for (int i = 0; i < 2; ++i) {
            if (v[i]->size() != m[i].size()) sim::fail("wrong-size", "vector has %zu elements, expected %zu", v[i]->size(), m[i].size());
            if (!v[i]->empty() && reinterpret_cast<uintptr_t>(&(*v[i])[0]) % A) sim::fail("misaligned", "elements of a std::vector are not aligned to %zu bytes", A);
            for (size_t j = 0; j < m[i].size(); ++j) if ((*v[i])[j] != m[i][j]) sim::fail("wrong-content", "element %zu of a std::vector is wrong", j);
        }
        sim::check_redzones();
    }
    for (int i = 0; i < 2; ++i) { sim::LibOp op("destroy"); delete v[i]; }
    sim::check_no_leaks("all vectors destroyed");
}

// ---------------------------------------------------------------- containers with a user's allocator
// checks that everything is given back exactly once, with the size requested
inline std::map<void*, size_t>*& the_book() { static std::map<void*, size_t> *b = 0; return b; }
#define book the_book()
template<typename T> struct BookAllocator
{
    typedef T value_type;
    BookAllocator() {}
    T *allocate(size_t n, const void* = 0)
    {
        T *p = static_cast<T*>(::operator new(n * sizeof(T)));
        sim::Outside o;
        (*book)[p] = n;
        return p;
    }
    void deallocate(T *p, size_t n)
    {
        {
            sim::Outside o;
            std::map<void*, size_t>::iterator i = book->find(p);
            if (i == book->end()) sim::fail("bad-free", "a container gave back memory it does not own");
            if (i->second != n) sim::fail("bad-free", "a container gave back %zu elements, but had requested %zu", n, i->second);
            book->erase(i);
        }
        ::operator delete(static_cast<void*>(p));
    }
};
inline void check_book()
{
    if (!book->empty()) sim::fail("leak", "containers did not give back %zu blocks", book->size());
}

#if PARTNO == 0
void run_1(); void run_2(); void run_3(); void run_4();
void sim_run()
{
    pick_scale();
    static const unsigned w[] = { 4, 3, 2, 3, 3, 2 };
    switch (sim::weighted(w)) {
    case 0: raw_history(); break;
    case 1: raw_threads(); break;
    case 2:
        switch (sim::choose(4)) {
        case 0: std_vector_history<double, 32>("double, 32"); break;
        case 1: std_vector_history<char, 64>("char, 64"); break;
        case 2: std_vector_history<int, 4096>("int, 4096"); break;
        default: std_vector_history<short, 16>("short, 16"); break;
        }
        break;
    case 3: run_1(); break;
    case 4: run_2(); break;
    default: run_3(); break;
    }
}
#elif PARTNO == 1
void run_1()
{
    switch (sim::choose(2)) {
    case 0: run_grid_history_with<CellAsy, LibFlatArray::aligned_allocator<char, 64> >(true, false, 14); break;
    default: run_grid_history_with<Cell3U, LibFlatArray::aligned_allocator<char, 512> >(true, false, 14); break;
    }
}
#elif PARTNO == 2
void run_2()
{
    book = new std::map<void*, size_t>();
    size_t which = sim::choose(5);
    if (which < 2) run_grid_history_with<CellCus, BookAllocator<char> >(true, false, 14);
    else if (which == 4) run_grid_history_with<CellPrb, BookAllocator<char> >(true, true, 12);
    else run_grid_history_with<CellHvy, BookAllocator<char> >(true, false, 12);
    check_book();
}
#elif PARTNO == 3
void run_3()
{
    book = new std::map<void*, size_t>();
    if (sim::choose(2)) run_sequence_history<VectorMachine<Cell1U, BookAllocator<char> > >("vector", "line", true, false, 20);
    else run_sequence_history<VectorMachine<CellHvy, LibFlatArray::aligned_allocator<char, 128> > >("vector", "heavy", true, false, 20);
    check_book();
}
#endif
