// C11: device-resident grids and arrays on a simulated accelerator
#if PARTNO == 6
// device pass of the compiler: soa_array drops its checks there
#define __CUDA_ARCH__ 600
#endif
#include <cuda.h>
#include "machine.h"
#include <libflatarray/cuda_array.hpp>
#include <libflatarray/soa_array.hpp>
#include <string.h>

struct Device
{
    static void init(), finish();
    static void limit(uint64_t bytes);
    static size_t blocks();
    static void born(const void *p), dead(const void *p), used(const void *p, const char *how);
};

// ---------------------------------------------------------------- cell types for the device
struct DevProbe
{
    uint64_t v;
    DevProbe() : v(0) { Device::born(this); }
    DevProbe(const DevProbe& o) : v(o.v) { Device::used(&o, "copies from"); Device::born(this); }
    DevProbe& operator=(const DevProbe& o) { Device::used(this, "assigns to"); Device::used(&o, "assigns from"); v = o.v; return *this; }
    ~DevProbe() { Device::dead(this); }
};
template<> struct Value<DevProbe>
{
    static void put(DevProbe& t, uint64_t tok, int m) { t.v = tok ? (spread(tok, m) | 1) : 0; }
    static bool eq(const DevProbe& t, uint64_t tok, int m) { return t.v == (tok ? (spread(tok, m) | 1) : 0); }
};
struct DevWide
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((40)(600)(1100), (1)(9), (1)(3)) };
    char c; double d; short arr[2]; int i;
    DevWide() : c(0), d(0), i(0) { arr[0] = arr[1] = 0; }
};
struct DevLife
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((3)(8)(130), (1)(2)(6), (1)(4)) };
    int i; DevProbe p; DevProbe arr[2]; char c;
    DevLife() : i(0), c(0) {}
};
struct DevRaw
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((5)(16)(130)(520), (1)(5), (1)(2)) };
    double d; int arr[3]; bool b; float f;
};
LIBFLATARRAY_REGISTER_SOA(DevWide, ((char)(c))((double)(d))((short)(arr)(2))((int)(i)))
LIBFLATARRAY_REGISTER_SOA(DevLife, ((int)(i))((DevProbe)(p))((DevProbe)(arr)(2))((char)(c)))
LIBFLATARRAY_REGISTER_SOA(DevRaw, ((double)(d))((int)(arr)(3))((bool)(b))((float)(f)))
TRAITS(DevWide, 5, true, "device-wide",
       ON(0, c) ON(1, d) ONA(2, arr, 0) ONA(3, arr, 1) ON(4, i),
       AC(0, c) AC(1, d) ACA(2, arr, 0) ACA(3, arr, 1) AC(4, i),
       BR({3, 2, 2}, {{40, 600, 1100}, {1, 9}, {1, 3}}, false, 3, true))
TRAITS(DevLife, 5, true, "device-lifetime",
       ON(0, i) ON(1, p) ONA(2, arr, 0) ONA(3, arr, 1) ON(4, c),
       AC(0, i) AC(1, p) ACA(2, arr, 0) ACA(3, arr, 1) AC(4, c),
       BR({3, 3, 2}, {{3, 8, 130}, {1, 2, 6}, {1, 4}}, false, 3, true))
TRAITS(DevRaw, 6, true, "device-raw",
       ON(0, d) ONA(1, arr, 0) ONA(2, arr, 1) ONA(3, arr, 2) ON(4, b) ON(5, f),
       AC(0, d) ACA(1, arr, 0) ACA(2, arr, 1) ACA(3, arr, 2) AC(4, b) AC(5, f),
       BR({4, 2, 2}, {{5, 16, 130, 520}, {1, 5}, {1, 2}}, false, 3, true))

// ---------------------------------------------------------------- user kernels
template<typename C, long X, long Y, long Z, long I>
void write_kernel(char *data, long x, long y, long z, long n, int k, uint64_t tok)
{
    long t = blockDim.x * blockIdx.x + threadIdx.x;
    if (t >= n) return;
    typedef LibFlatArray::soa_accessor_light<C, X, Y, Z, I> A;
    long index = A::gen_index(x + t, y, z);
    A a(data, index);
    if (k >= 0) put_acc<C>(a, k, tok + t);
    else for (int m = 0; m < Traits<C>::NM; ++m) put_acc<C>(a, m, tok + t);
}
// every thread copies member k of the cell's left neighbour to its own part of the output
template<typename C, long X, long Y, long Z, long I>
void read_kernel(char *data, long x, long y, long z, long n, C *out)
{
    long t = blockDim.x * blockIdx.x + threadIdx.x;
    if (t >= n) return;
    typedef LibFlatArray::soa_accessor_light<C, X, Y, Z, I> A;
    long index = A::gen_index(x + t, y, z);
    A a(data, index);
    a >> out[t];
}
template<typename C> struct WriteLaunch
{
    Pos p; int k; uint64_t tok; unsigned block;
    template<long X, long Y, long Z, long I> void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        ::simcuda::launch(dim3(unsigned((p.n + block - 1) / block)), dim3(block)).run(
            [](auto... args) { write_kernel<C, X, Y, Z, I>(args...); }, a.data(), long(p.x), long(p.y), long(p.z), long(p.n), k, tok);
    }
};
template<typename C> struct ReadLaunch
{
    Pos p; C *out; unsigned block;
    template<long X, long Y, long Z, long I> void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        ::simcuda::launch(dim3(unsigned((p.n + block - 1) / block)), dim3(block)).run(
            [](auto... args) { read_kernel<C, X, Y, Z, I>(args...); }, const_cast<char*>(a.data()), long(p.x), long(p.y), long(p.z), long(p.n), out);
    }
};

struct DeviceFaults
{
    bool device, host;
    unsigned den;
    DeviceFaults() : device(false), host(false), den(4) {}
    void maybe() const
    {
        sim::disarm();
        if (!(device || host) || !sim::chance(1, den)) return;
        if (host && sim::chance(1, 6)) sim::arm(sim::FAULT_ALLOC, 1 + sim::choose(3));
        else if (device) sim::arm(sim::FAULT_DEVICE_ALLOC, 1 + sim::choose(3));
    }
};

// ---------------------------------------------------------------- histories of device grids
template<typename C> class DeviceGrids
{
public:
    typedef LibFlatArray::soa_grid<C, LibFlatArray::cuda_allocator<char>, true> Grid;
    typedef LibFlatArray::soa_grid<C> HostGrid;
    static const int SLOTS = 2;
    struct Slot { Grid *g; void *mem; Model<C> m; Slot() : g(0), mem(0) {} } slot[SLOTS];
    uint64_t next_tok;
    DeviceFaults faults;
    size_t max_cells;
    DeviceGrids() : next_tok(1), max_cells(260) {}

    void unexpected(const char *op) { sim::fail("unexpected-error", "%s failed although nothing went wrong", op); }
    uint64_t fresh(size_t n) { uint64_t t = next_tok; next_tok += n; return t; }

    void dims(size_t d[3])
    {
        int other = int(sim::choose(SLOTS));
        if (slot[other].g && slot[other].m.cells() && sim::chance(1, 4)) { for (int i = 0; i < 3; ++i) d[i] = slot[other].m.d[i]; return; }
        // rows which need more than one block of threads
        size_t row = std::is_same<C, DevWide>::value ? 1100 : std::is_same<C, DevRaw>::value ? 520 : 0;
        if (row && sim::chance(1, 5)) { d[0] = 513 + sim::choose(row - 512); d[1] = 1 + sim::choose(2); d[2] = 1; return; }
        if (sim::chance(1, 8)) supported_dims<C>(d, 1400); else supported_dims<C>(d, max_cells);
    }
    void create(int s)
    {
        Slot& t = slot[s];
        size_t d[3] = { 0, 0, 0 };
        bool empty = sim::chance(1, 10);
        if (!empty) dims(d);
        sim::event("d%d = grid(%zu,%zu,%zu)", s, d[0], d[1], d[2]);
        t.mem = sim::heap_alloc(sizeof(Grid));
        size_t before = Device::blocks();
        faults.maybe();
        Outcome o = attempt("construct device grid", [&] { t.g = empty ? new (t.mem) Grid() : new (t.mem) Grid(d[0], d[1], d[2]); });
        if (o == OK) { t.m.reset(d); return; }
        t.g = 0;
        sim::heap_free(t.mem);
        if (o == THREW) unexpected("creating a device grid");
        if (Device::blocks() != before) sim::fail("device-leak", "creating a device grid failed, but left device memory behind");
        sim::count("reach.create_failed");
    }
    void destroy(int s)
    {
        sim::event("destroy d%d", s);
        if (attempt("destroy device grid", [&] { slot[s].g->~Grid(); }) != OK) unexpected("destroying a device grid");
        sim::heap_free(slot[s].mem);
        slot[s].g = 0;
        slot[s].m.clear();
    }
    void resize(int s)
    {
        Slot& t = slot[s];
        size_t d[3] = { 0, 0, 0 };
        size_t kind = sim::choose(8);
        if (kind == 1) { for (int i = 0; i < 3; ++i) d[i] = t.m.d[i]; } else if (kind != 2) dims(d);
        sim::event("d%d.resize(%zu,%zu,%zu)", s, d[0], d[1], d[2]);
        faults.maybe();
        Outcome o = attempt("resize device grid", [&] { t.g->resize(d[0], d[1], d[2]); });
        if (o == OK) { if (d[0] != t.m.d[0] || d[1] != t.m.d[1] || d[2] != t.m.d[2]) t.m.reset(d); return; }
        if (o == THREW) unexpected("resizing a device grid");
        sim::count("reach.resize_failed");
        if (t.g->dim_x() == 0 && t.g->dim_y() == 0 && t.g->dim_z() == 0) t.m.clear();
    }
    void resize_refused(int s)
    {
        size_t d[3];
        unsupported_dims<C>(d);
        sim::event("d%d.resize(%zu,%zu,%zu) refused?", s, d[0], d[1], d[2]);
        size_t before = Device::blocks();
        if (attempt("resize device grid", [&] { slot[s].g->resize(d[0], d[1], d[2]); }) == OK) sim::fail("not-refused", "unsupported dimensions were accepted");
        if (Device::blocks() != before) sim::fail("refusal-side-effect", "a refused resize changed the amount of device memory");
    }
    void swap(int a, int b)
    {
        sim::event("swap d%d d%d", a, b);
        size_t how = sim::choose(2);
        faults.maybe();
        Outcome o = attempt("swap device grids", [&] { if (how) { using std::swap; swap(*slot[a].g, *slot[b].g); } else slot[a].g->swap(*slot[b].g); });
        if (o == THREW) unexpected("swapping device grids");
        if (o == OK) { if (a != b) std::swap(slot[a].m, slot[b].m); }
        else sim::count("reach.swap_failed");
    }
    void write(int s, size_t how)
    {
        Slot& t = slot[s];
        Pos p = random_run(t.m);
        if (how == 0) p.n = 1;
        uint64_t tok = fresh(p.n + 1);
        sim::event("d%d.%s(%zu,%zu,%zu,n=%zu)", s, how == 0 ? "set" : how == 1 ? "set" : how == 2 ? "broadcast" : "kernel-write", p.x, p.y, p.z, p.n);
        Model<C> now = t.m;
        int k = how == 3 ? int(sim::choose(Traits<C>::NM + 1)) - 1 : -1;
        for (size_t i = 0; i < p.n; ++i) {
            uint64_t v = how == 2 ? tok : tok + i;
            if (k >= 0) now.at(p.x + i, p.y, p.z)[k] = v; else now.set(p.x + i, p.y, p.z, v);
        }
        std::vector<C> cells;
        for (size_t i = 0; i < (how == 2 ? 1 : p.n); ++i) cells.push_back(make_cell<C>(tok + i));
        if (cells.empty()) cells.push_back(C());
        unsigned block = sim::choose(2) ? 128 : 512;
        faults.maybe();
        Outcome o = attempt("write to device grid", [&] {
            switch (how) {
            case 0: t.g->set(p.x, p.y, p.z, cells[0]); break;
            case 1: t.g->set(p.x, p.y, p.z, &cells[0], p.n); break;
            case 2: t.g->broadcast(p.x, p.y, p.z, cells[0], p.n); break;
            default: { WriteLaunch<C> f = { p, k, tok, block }; t.g->callback(f); }
            }
        });
        if (o == OK) { t.m = now; return; }
        if (o == THREW) unexpected("writing cells");
        sim::count("reach.write_failed");
    }
    void compare(int s, const Pos& p, const std::vector<C>& cells, const char *route)
    {
        for (size_t i = 0; i < p.n; ++i) if (!eq_cell(cells[i], slot[s].m.at(p.x + i, p.y, p.z)))
            sim::fail("wrong-content", "cell (%zu, %zu, %zu) of a %zux%zux%zu device grid differs from the model (%s)", p.x + i, p.y, p.z, slot[s].m.d[0], slot[s].m.d[1], slot[s].m.d[2], route);
    }
    void read(int s, const Pos& p, size_t how, bool faulty)
    {
        Slot& t = slot[s];
        const Grid *cg = t.g;
        std::vector<C> cells(p.n + 1);
        Outcome o = OK;
        if (how == 0) {
            for (size_t i = 0; i < p.n && o == OK; ++i) {
                if (faulty) faults.maybe();
                o = attempt("get", [&] { C c = cg->get(p.x + i, p.y, p.z); sim::Outside out; cells[i] = c; });
            }
        } else if (how == 1) {
            if (faulty) faults.maybe();
            o = attempt("get range", [&] { cg->get(p.x, p.y, p.z, &cells[0], p.n); });
            uint64_t zero[Traits<C>::NM] = { 0 };
            if (!std::is_same<C, DevRaw>::value && !eq_cell(cells[p.n], zero)) sim::fail("wrong-content", "reading %zu cells wrote behind them", p.n);
        } else if (how == 2) {
            // kernel of the user
            LibFlatArray::cuda_array<C> *out = 0;
            unsigned block = sim::choose(2) ? 128 : 512;
            o = attempt("kernel read", [&] { out = new LibFlatArray::cuda_array<C>(p.n); ReadLaunch<C> f = { p, out->data(), block }; cg->callback(f); out->save(&cells[0]); delete out; });
        } else {
            std::vector<char> buf(p.n * LibFlatArray::aggregated_member_size<C>::VALUE + 1, 'x');
            if (faulty) faults.maybe();
            o = attempt("save", [&] { cg->save(p.x, p.y, p.z, &buf[0], p.n); });
            if (buf.back() != 'x') sim::fail("wrong-content", "saving %zu cells wrote behind the buffer", p.n);
            if (o == OK && p.n) {
                // a host grid reads what the device grid saved
                sim::LibOp op("host grid");
                HostGrid h(p.n, 1, 1);
                h.load(0, 0, 0, &buf[0], p.n);
                h.get(0, 0, 0, &cells[0], p.n);
            }
        }
        if (o == THREW) unexpected("reading from a device grid");
        if (o == OK) compare(s, p, cells, how == 0 ? "get" : how == 1 ? "get range" : how == 2 ? "user kernel" : "save, host load");
    }
    // streaks between two device grids, or between a device grid and the host
    void ship(int a, int b)
    {
        Slot &s = slot[a], &t = slot[b];
        std::vector<Streak> from, to;
        size_t n = 0, k = sim::range(1, 4);
        std::vector<char> used(t.m.cells(), 0);
        for (size_t i = 0; i < k; ++i) {
            Pos p = random_run(s.m), q = random_run(t.m);
            if (sim::chance(1, 3)) { p.x = q.x = 0; p.n = s.m.d[0]; q.n = t.m.d[0]; }
            size_t len = std::min(p.n, q.n), base = (q.z * t.m.d[1] + q.y) * t.m.d[0] + q.x, free = 0;
            while (free < len && !used[base + free]) ++free;
            len = free;
            for (size_t j = 0; j < len; ++j) used[base + j] = 1;
            from.push_back(Streak(p.x, p.y, p.z, len));
            to.push_back(Streak(q.x, q.y, q.z, len));
            n += len;
        }
        size_t stride = n + (sim::chance(1, 4) ? sim::choose(5) : 0);
        sim::event("ship %zu cells in %zu streaks d%d -> d%d (stride %zu)", n, k, a, b, stride);
        std::vector<char> buf(stride * LibFlatArray::aggregated_member_size<C>::VALUE + 1, 'x');
        faults.maybe();
        Outcome o = attempt("save streaks", [&] { const Grid *g = s.g; if (k % 2) g->save(from.begin(), from.end(), &buf[0], stride); else g->save(&from[0], &from[0] + k, &buf[0], stride); });
        if (buf.back() != 'x') sim::fail("wrong-content", "saving wrote behind the buffer");
        if (o == THREW) unexpected("saving");
        if (o != OK) return;
        faults.maybe();
        o = attempt("load streaks", [&] { if (k % 2) t.g->load(to.begin(), to.end(), const_cast<const char*>(&buf[0]), stride); else t.g->load(&to[0], &to[0] + k, const_cast<const char*>(&buf[0]), stride); });
        if (o == THREW) unexpected("loading");
        if (o != OK) return;
        std::vector<uint64_t> toks;
        for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < from[i].n; ++j) { const uint64_t *p = s.m.at(from[i].origin[0] + j, from[i].origin[1], from[i].origin[2]); toks.insert(toks.end(), p, p + Traits<C>::NM); }
        size_t c = 0;
        for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < to[i].n; ++j, ++c) std::copy(&toks[c * Traits<C>::NM], &toks[(c + 1) * Traits<C>::NM], t.m.at(to[i].origin[0] + j, to[i].origin[1], to[i].origin[2]));
    }
    void upload(int s)
    {
        Slot& t = slot[s];
        Pos p = random_run(t.m);
        if (p.n == 0) return;
        uint64_t tok = fresh(p.n);
        sim::event("host -> d%d (%zu,%zu,%zu,n=%zu)", s, p.x, p.y, p.z, p.n);
        std::vector<C> cells;
        for (size_t i = 0; i < p.n; ++i) cells.push_back(make_cell<C>(tok + i));
        std::vector<char> buf(p.n * LibFlatArray::aggregated_member_size<C>::VALUE);
        { sim::LibOp op("host grid"); HostGrid h(p.n, 1, 1); h.set(0, 0, 0, &cells[0], p.n); h.save(0, 0, 0, &buf[0], p.n); }
        faults.maybe();
        Outcome o = attempt("load", [&] { t.g->load(p.x, p.y, p.z, &buf[0], p.n); });
        if (o == THREW) unexpected("loading");
        if (o == OK) for (size_t i = 0; i < p.n; ++i) t.m.set(p.x + i, p.y, p.z, tok + i);
    }
    void check(int s, size_t how)
    {
        Slot& t = slot[s];
        size_t d[3], e[3], bytes;
        { sim::LibOp op("dim"); d[0] = t.g->dim_x(); d[1] = t.g->dim_y(); d[2] = t.g->dim_z(); e[0] = t.g->extent_x(); e[1] = t.g->extent_y(); e[2] = t.g->extent_z(); bytes = t.g->byte_size(); }
        for (int i = 0; i < 3; ++i) if (d[i] != t.m.d[i]) sim::fail("wrong-dimensions", "device grid reports %zux%zux%zu, expected %zux%zux%zu", d[0], d[1], d[2], t.m.d[0], t.m.d[1], t.m.d[2]);
        if (bytes != e[0] * e[1] * e[2] * LibFlatArray::aggregated_member_size<C>::VALUE) sim::fail("wrong-extent", "byte size %zu does not match extents %zux%zux%zu", bytes, e[0], e[1], e[2]);
        if (t.m.cells() == 0) return;
        for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) {
            Pos p = { 0, y, z, d[0] };
            read(s, p, how == 0 && d[0] > 60 ? 1 : how, false);
        }
    }
    void run(size_t steps)
    {
        create(0);
        for (size_t i = 0; i < steps; ++i) {
            int a = int(sim::choose(SLOTS)), b = int(sim::choose(SLOTS));
            if (!slot[a].g) { create(a); continue; }
            bool filled = slot[a].m.cells() > 0;
            static const unsigned w[] = { 2, 3, 1, 3, 4, 5, 5, 5, 5, 4, 3 };
            size_t op = sim::weighted(w);
            switch (op) {
            case 0: destroy(a); break;
            case 1: resize(a); break;
            case 2: resize_refused(a); break;
            case 3: if (slot[b].g) swap(a, b); break;
            case 4: case 5: case 6: case 7: if (filled) write(a, op - 4); break;
            case 8: if (filled) { Pos p = random_run(slot[a].m); size_t how = sim::choose(4); sim::event("read%zu d%d (%zu,%zu,%zu,n=%zu)", how, a, p.x, p.y, p.z, p.n); read(a, p, how, true); } break;
            case 9: if (filled && slot[b].g && slot[b].m.cells()) ship(a, b); break;
            case 10: if (filled) upload(a); break;
            }
            if (sim::chance(1, 3)) for (int s = 0; s < SLOTS; ++s) if (slot[s].g) check(s, sim::choose(4));
        }
        for (int s = 0; s < SLOTS; ++s) if (slot[s].g) { check(s, 1 + sim::choose(3)); destroy(s); }
    }
};
template<typename C> void run_device_grids()
{
    sim::event("device grids of %s", Traits<C>::name());
    sim::mark_nontrivial();
    Device::init();
    DeviceGrids<C> *m = new DeviceGrids<C>();
    if (sim::chance(2, 3)) { m->faults.device = true; m->faults.host = true; m->faults.den = unsigned(sim::range(2, 8)); }
    m->run(sim::range(3, 14));
    delete m;
    Device::finish();
    sim::check_no_leaks("all device grids destroyed");
}

// ---------------------------------------------------------------- histories of device arrays
struct Rec { char c; double d[2]; int i; };
template<typename T> struct Elem
{
    static T make(uint64_t tok) { T t; Value<T>::put(t, tok, 3); return t; }
    static bool eq(const T& t, uint64_t tok) { return Value<T>::eq(t, tok, 3); }
};
template<> struct Elem<Rec>
{
    static Rec make(uint64_t tok) { Rec r; memset(&r, 0, sizeof(r)); Value<char>::put(r.c, tok, 0); Value<double>::put(r.d[0], tok, 1); Value<double>::put(r.d[1], tok, 2); Value<int>::put(r.i, tok, 3); return r; }
    static bool eq(const Rec& r, uint64_t tok) { return Value<char>::eq(r.c, tok, 0) && Value<double>::eq(r.d[0], tok, 1) && Value<double>::eq(r.d[1], tok, 2) && Value<int>::eq(r.i, tok, 3); }
};
template<typename T> void poke_kernel(T *data, long first, long n, T value)
{
    long t = blockDim.x * blockIdx.x + threadIdx.x;
    if (t < n) data[first + t] = value;
}
template<typename T> class DeviceArrays
{
public:
    typedef LibFlatArray::cuda_array<T> Array;
    enum : uint64_t { ANY = ~uint64_t(0) };            // content not specified
    static const int SLOTS = 3;
    struct Slot { Array *a; void *mem; std::vector<uint64_t> m; Slot() : a(0), mem(0) {} } slot[SLOTS];
    uint64_t next_tok;
    DeviceFaults faults;
    DeviceArrays() : next_tok(1) {}
    void unexpected(const char *op) { sim::fail("unexpected-error", "%s failed although nothing went wrong", op); }
    size_t some_size()
    {
        static const size_t edge[] = { 0, 1, 127, 128, 129, 511, 512, 513, 1024, 1025, 1500 };
        return sim::choose(3) ? sim::choose(40) : sim::pick(edge);
    }
    std::vector<T> values(const std::vector<uint64_t>& m) { std::vector<T> v; for (size_t i = 0; i < m.size(); ++i) v.push_back(Elem<T>::make(m[i])); return v; }
    void create(int s, int from)
    {
        Slot& t = slot[s];
        size_t how = from >= 0 ? 4 : sim::choose(4), n = some_size();
        std::vector<uint64_t> m;
        uint64_t tok = next_tok;
        next_tok += n + 1;
        for (size_t i = 0; i < n; ++i) m.push_back(how == 0 ? ANY : how == 1 ? tok : tok + i);
        if (how == 4) m = slot[from].m;
        static const char *names[] = { "array(n)", "array(n, default)", "array(pointer, n)", "array(vector)", "copy" };
        sim::event("a%d = %s n=%zu", s, names[how], m.size());
        std::vector<T> v;
        if (how == 2 || how == 3) v = values(m);
        T def = Elem<T>::make(tok);
        t.mem = sim::heap_alloc(sizeof(Array));
        size_t before = Device::blocks();
        faults.maybe();
        Outcome o = attempt("construct device array", [&] {
            switch (how) {
            case 0: t.a = new (t.mem) Array(n); break;
            case 1: t.a = new (t.mem) Array(n, def); break;
            case 2: t.a = new (t.mem) Array(v.data(), n); break;
            case 3: t.a = new (t.mem) Array(v); break;
            default: t.a = new (t.mem) Array(*const_cast<const Array*>(slot[from].a)); break;
            }
        });
        if (o == OK) { t.m = m; return; }
        t.a = 0;
        sim::heap_free(t.mem);
        if (o == THREW) unexpected("creating a device array");
        if (Device::blocks() != before) sim::fail("device-leak", "creating a device array failed, but left device memory behind");
        sim::count("reach.create_failed");
    }
    void destroy(int s)
    {
        sim::event("destroy a%d", s);
        if (attempt("destroy device array", [&] { slot[s].a->~Array(); }) != OK) unexpected("destroying a device array");
        sim::heap_free(slot[s].mem);
        slot[s].a = 0;
        slot[s].m.clear();
    }
    void check(int s, const char *when)
    {
        Slot& t = slot[s];
        const Array *ca = t.a;
        size_t n, cap, bytes;
        { sim::LibOp op("size"); n = ca->size(); cap = ca->capacity(); bytes = ca->byte_size(); }
        if (n != t.m.size()) sim::fail("wrong-size", "after %s device array reports %zu elements, expected %zu", when, n, t.m.size());
        if (cap < n) sim::fail("wrong-size", "after %s device array has capacity %zu for %zu elements", when, cap, n);
        if (bytes != n * sizeof(T)) sim::fail("wrong-size", "after %s device array reports %zu bytes for %zu elements", when, bytes, n);
        std::vector<T> v(n + 1);
        memset(static_cast<void*>(v.data()), 0x5a, (n + 1) * sizeof(T));
        { sim::LibOp op("save"); ca->save(v.data()); }
        for (size_t i = 0; i < n; ++i) if (t.m[i] != ANY && !Elem<T>::eq(v[i], t.m[i])) sim::fail("wrong-content", "after %s element %zu of %zu of a device array differs from the model", when, i, n);
        const unsigned char *raw = reinterpret_cast<unsigned char*>(&v[n]);
        for (size_t i = 0; i < sizeof(T); ++i) if (raw[i] != 0x5a) sim::fail("wrong-content", "after %s saving a device array wrote behind its end", when);
    }
    void step(int a)
    {
        Slot& t = slot[a];
        size_t n = some_size();
        uint64_t tok = next_tok;
        next_tok += n + 2;
        switch (sim::choose(9)) {
        case 0: destroy(a); return;
        case 1: {
            int b = int(sim::choose(SLOTS));
            if (!slot[b].a) return;
            sim::event("a%d = a%d", a, b);
            faults.maybe();
            Outcome o = attempt("assign device array", [&] { *t.a = *const_cast<const Array*>(slot[b].a); });
            if (o == THREW) unexpected("assigning a device array");
            if (o == OK) t.m = slot[b].m;
            return;
        }
        case 2: case 3: {
            bool def = sim::choose(2) != 0;
            sim::event("a%d.resize(%zu%s)", a, n, def ? ", default" : "");
            T v = Elem<T>::make(tok);
            faults.maybe();
            Outcome o = attempt("resize device array", [&] { if (def) t.a->resize(n, v); else t.a->resize(n); });
            if (o == THREW) unexpected("resizing a device array");
            if (o == OK) t.m.resize(n, def ? tok : ANY);
            return;
        }
        case 4: {
            sim::event("a%d.reserve(%zu)", a, n);
            faults.maybe();
            Outcome o = attempt("reserve", [&] { t.a->reserve(n); });
            if (o == THREW) unexpected("reserving");
            if (o == OK) { size_t cap; { sim::LibOp op("capacity"); cap = t.a->capacity(); } if (cap < n) sim::fail("wrong-size", "capacity is %zu after reserve(%zu)", cap, n); }
            return;
        }
        case 5: {
            sim::event("a%d.load()", a);
            for (size_t i = 0; i < t.m.size(); ++i) t.m[i] = tok + i;
            next_tok += t.m.size();
            std::vector<T> v = values(t.m);
            v.push_back(Elem<T>::make(1));
            if (attempt("load", [&] { t.a->load(v.data()); }) != OK) unexpected("loading");
            return;
        }
        case 6: {
            if (t.m.empty()) return;
            size_t first = sim::choose(t.m.size()), len = 1 + sim::choose(t.m.size() - first);
            sim::event("kernel writes a%d[%zu..%zu)", a, first, first + len);
            T v = Elem<T>::make(tok);
            if (attempt("kernel", [&] {
                ::simcuda::launch(dim3(unsigned((len + 63) / 64)), dim3(64)).run([](auto... args) { poke_kernel<T>(args...); }, t.a->data(), long(first), long(len), v);
            }) != OK) unexpected("kernel");
            for (size_t i = 0; i < len; ++i) t.m[first + i] = tok;
            return;
        }
        case 7: {
            // more than there is, or than can be expressed
            static const size_t huge[] = { size_t(1) << 40, ~size_t(0) / sizeof(T) + 2, ~size_t(0), (size_t(1) << 63) / sizeof(T) * 2 + 1 };
            size_t h = sim::pick(huge);
            size_t how = sim::choose(3);
            sim::event("a%d.%s(%zu) must fail", a, how ? "resize" : "reserve", h);
            size_t before = Device::blocks();
            T v = Elem<T>::make(tok);
            if (attempt("huge request", [&] { if (how == 0) t.a->reserve(h); else if (how == 1) t.a->resize(h); else Array tmp(h); }) == OK)
                sim::fail("not-refused", "a request for %zu elements of device memory was accepted", h);
            if (Device::blocks() != before) sim::fail("device-leak", "a failed request left device memory behind");
            return;
        }
        default: check(a, "operation");
        }
    }
    void run(size_t steps)
    {
        for (size_t i = 0; i < steps; ++i) {
            int a = int(sim::choose(SLOTS)), b = int(sim::choose(SLOTS));
            if (!slot[a].a) create(a, slot[b].a && sim::choose(2) ? b : -1); else step(a);
            for (int s = 0; s < SLOTS; ++s) if (slot[s].a && sim::chance(1, 2)) check(s, "operation");
        }
        for (int s = 0; s < SLOTS; ++s) if (slot[s].a) { check(s, "history"); destroy(s); }
    }
};
template<typename T> void run_device_arrays(const char *name)
{
    sim::event("device arrays of %s", name);
    sim::mark_nontrivial();
    Device::init();
    DeviceArrays<T> *m = new DeviceArrays<T>();
    if (sim::chance(2, 3)) { m->faults.device = m->faults.host = true; m->faults.den = unsigned(sim::range(2, 8)); }
    m->run(sim::range(3, 20));
    delete m;
    Device::finish();
    sim::check_no_leaks("all device arrays destroyed");
}

void grids_wide(); void grids_life(); void grids_raw(); void grids_def(); void grids_line(); void arrays(); void soa_arrays();

#if PARTNO == 0
#include "cuda/device.h"
void Device::init() { simcuda::init(); }
void Device::finish() { simcuda::finish(); }
void Device::limit(uint64_t n) { simcuda::st->limit = n; }
size_t Device::blocks() { return simcuda::st->live.size(); }
void Device::born(const void *p) { simcuda::born(p); }
void Device::dead(const void *p) { simcuda::dead(p); }
void Device::used(const void *p, const char *how) { simcuda::used(p, how); }
void sim_run()
{
    static const unsigned w[] = { 4, 4, 3, 2, 2, 4, 3 };
    switch (sim::weighted(w)) {
    case 0: grids_wide(); break;
    case 1: grids_life(); break;
    case 2: grids_raw(); break;
    case 3: grids_def(); break;
    case 4: grids_line(); break;
    case 5: arrays(); break;
    default: soa_arrays();
    }
}
#elif PARTNO == 1
void grids_wide() { run_device_grids<DevWide>(); }
#elif PARTNO == 2
void grids_life() { run_device_grids<DevLife>(); }
#elif PARTNO == 3
void grids_raw() { run_device_grids<DevRaw>(); }
#elif PARTNO == 4
void grids_def() { run_device_grids<CellDef>(); }
void grids_line() { run_device_grids<Cell1U>(); }
#elif PARTNO == 5
void arrays()
{
    switch (sim::choose(3)) {
    case 0: run_device_arrays<double>("double"); break;
    case 1: run_device_arrays<int>("int"); break;
    default: run_device_arrays<Rec>("record");
    }
}
#elif PARTNO == 6
// ---------------------------------------------------------------- soa_array moved to the device and back
struct ArrCell { double d; int arr[3]; char c; ArrCell() : d(0), c(0) { arr[0] = arr[1] = arr[2] = 0; } };
LIBFLATARRAY_REGISTER_SOA(ArrCell, ((double)(d))((int)(arr)(3))((char)(c)))
TRAITS(ArrCell, 5, true, "array-cell",
       ON(0, d) ONA(1, arr, 0) ONA(2, arr, 1) ONA(3, arr, 2) ON(4, c),
       AC(0, d) ACA(1, arr, 0) ACA(2, arr, 1) ACA(3, arr, 2) AC(4, c),
       BR({0, 0, 0}, {{0}, {0}, {0}}, false, 3, false))
static const int CAP = 150;
typedef LibFlatArray::soa_array<ArrCell, CAP> DevArray;
typedef LibFlatArray::soa_array<ArrCell, 37> SmallArray;
// what a single device thread does with arrays in device memory
static void serial_kernel(DevArray *a, SmallArray *b, int op, uint64_t tok, int n)
{
    if (blockIdx.x * blockDim.x + threadIdx.x != 0) return;
    switch (op) {
    case 0: for (int i = 0; i < n; ++i) { ArrCell c = make_cell<ArrCell>(tok + i); *a << c; } break;
    case 1: for (int i = 0; i < n; ++i) a->pop_back(); break;
    case 2: a->clear(); break;
    case 3: { SmallArray tmp; for (int i = 0; i < n; ++i) tmp << make_cell<ArrCell>(tok + i); *b = tmp; } break;
    case 4: *a = *b; break;
    case 5: a->load((*b)[0], b->size()); break;
    case 6: { DevArray tmp(*a); tmp << make_cell<ArrCell>(tok); *a = tmp; } break;
    case 7: { ArrCell c = (*a)[n]; c.d += 1; put_member(c, 0, tok); a->at(n) = c; } break;
    case 8: { using std::swap; DevArray tmp(size_t(n), make_cell<ArrCell>(tok)); swap(*a, tmp); } break;
    }
}
// all threads work on elements of their own
static void parallel_kernel(DevArray *a, int n, uint64_t tok, int k)
{
    int i = blockIdx.x * blockDim.x + threadIdx.x;
    if (i >= n) return;
    if (k < 0) { ArrCell c = make_cell<ArrCell>(tok + i); (*a)[i] = c; }
    else { auto acc = (*a)[i]; put_acc<ArrCell>(acc, k, tok + i); }
}
struct Seq
{
    std::vector<std::vector<uint64_t> > v;
    static std::vector<uint64_t> all(uint64_t t) { return std::vector<uint64_t>(5, t); }
};
template<typename A> void check_array(const A *device, const Seq& m, const char *when)
{
    char *mem = static_cast<char*>(sim::heap_alloc(sizeof(A)));
    A *h = reinterpret_cast<A*>(mem);
    sim::LibOp op("fetch");
    cudaMemcpy(mem, device, sizeof(A), cudaMemcpyDeviceToHost);
    size_t n = h->size();
    { sim::Outside o; if (n != m.v.size()) sim::fail("wrong-size", "after %s array on the device has %zu elements, expected %zu", when, n, m.v.size()); }
    for (size_t i = 0; i < n; ++i) {
        ArrCell c = h->at(int(i));
        sim::Outside o;
        if (!eq_cell(c, &m.v[i][0])) sim::fail("wrong-content", "after %s element %zu of %zu of an array on the device differs from the model", when, i, n);
    }
    sim::Outside o;
    sim::heap_free(mem);
}
void soa_arrays()
{
    sim::event("soa_array on the device");
    sim::mark_nontrivial();
    Device::init();
    DevArray *a = 0; SmallArray *b = 0;
    Seq ma, mb;
    uint64_t tok = 1;
    {
        void *mem = sim::heap_alloc(sizeof(DevArray)), *mem2 = sim::heap_alloc(sizeof(SmallArray));
        sim::LibOp op("upload");
        cudaMalloc(&a, sizeof(DevArray)); cudaMalloc(&b, sizeof(SmallArray));
        DevArray *h = new (mem) DevArray();
        SmallArray *h2 = new (mem2) SmallArray();
        size_t n = sim::choose(40);
        for (size_t i = 0; i < n; ++i) { *h << make_cell<ArrCell>(tok); sim::Outside o; ma.v.push_back(Seq::all(tok++)); }
        cudaMemcpy(a, h, sizeof(DevArray), cudaMemcpyHostToDevice);
        cudaMemcpy(b, h2, sizeof(SmallArray), cudaMemcpyHostToDevice);
        h->~DevArray(); h2->~SmallArray();
        sim::Outside o;
        sim::heap_free(mem); sim::heap_free(mem2);
    }
    size_t steps = sim::range(2, 14);
    for (size_t s = 0; s < steps; ++s) {
        size_t op = sim::choose(11), room = CAP - ma.v.size();
        int n = 0;
        unsigned block = sim::choose(2) ? 32 : 128;
        tok += 500;
        if (op == 9 || op == 10) {
            n = int(ma.v.size());
            int k = op == 9 ? -1 : int(sim::choose(5));
            sim::event("parallel write of %d elements, member %d", n, k);
            if (!n) continue;
            sim::LibOp lo("kernel");
            ::simcuda::launch(dim3((n + block - 1) / block), dim3(block)).run([](auto... args) { parallel_kernel(args...); }, a, n, tok, k);
            sim::Outside o;
            for (int i = 0; i < n; ++i) { if (k < 0) ma.v[i] = Seq::all(tok + i); else ma.v[i][k] = tok + i; }
        } else {
            switch (op) {
            case 0: n = int(sim::choose(room + 1)); for (int i = 0; i < n; ++i) ma.v.push_back(Seq::all(tok + i)); break;
            case 1: n = int(sim::choose(ma.v.size() + 1)); ma.v.resize(ma.v.size() - n); break;
            case 2: ma.v.clear(); break;
            case 3: n = int(sim::choose(38)); mb.v.clear(); for (int i = 0; i < n; ++i) mb.v.push_back(Seq::all(tok + i)); break;
            case 4: ma = mb; break;
            case 5: if (mb.v.size() > room) continue; ma.v.insert(ma.v.end(), mb.v.begin(), mb.v.end()); break;
            case 6: if (!room) continue; ma.v.push_back(Seq::all(tok)); break;
            case 7: if (ma.v.empty()) continue; n = int(sim::choose(ma.v.size())); ma.v[n][0] = tok; break;
            case 8: n = int(sim::choose(CAP + 1)); ma.v.assign(n, Seq::all(tok)); break;
            }
            sim::event("device thread does operation %zu with %d", op, n);
            sim::LibOp lo("kernel");
            ::simcuda::launch(dim3(1), dim3(1)).run([](auto... args) { serial_kernel(args...); }, a, b, int(op), tok, n);
        }
        if (sim::choose(2)) { check_array(a, ma, "operation"); check_array(b, mb, "operation"); }
    }
    check_array(a, ma, "history");
    check_array(b, mb, "history");
    { sim::LibOp op("release"); cudaFree(a); cudaFree(b); }
    Device::finish();
    sim::check_no_leaks("device arrays released");
}
#endif
