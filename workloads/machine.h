// Shared pieces of the history workloads.
#ifndef MACHINE_H
#define MACHINE_H
#include "cells.h"

enum Outcome { OK, FAULTED, THREW };

// memory available to single operations (checks in between are not limited)
inline uint64_t& operation_memory() { static uint64_t limit = ~uint64_t(0); return limit; }

// std::swap and friends can't promise anything if copying fails half way
struct Unlimited { uint64_t saved; Unlimited() : saved(operation_memory()) { operation_memory() = ~uint64_t(0); } ~Unlimited() { operation_memory() = saved; } };

inline uint64_t& blocks_before() { static uint64_t n = 0; return n; }
// a refused request leaves no memory behind, and keeps all that was there
inline void check_refusal_kept_memory(const char *op)
{
    uint64_t now = sim::heap().live_blocks;
    if (now != blocks_before()) sim::fail("refusal-side-effect", "%s was refused, but the number of allocated blocks changed from %llu to %llu", op, (unsigned long long)blocks_before(), (unsigned long long)now);
}
// runs one operation of the library, with whatever fault is armed
template<typename F> Outcome attempt(const char *name, const F& f)
{
    bool threw = false;
    sim::set_memory_limit(operation_memory());
    blocks_before() = sim::heap().live_blocks;
    try {
        sim::LibOp op(name);
        f();
    } catch (const std::exception&) {
        threw = true;
    }
    bool fired = sim::fault_fired();
    sim::disarm();
    sim::set_memory_limit(~uint64_t(0));
    if (threw) return fired ? FAULTED : THREW;
    return OK;
}

struct Faults
{
    bool alloc, ctor, copy;
    unsigned num, den;
    Faults() : alloc(false), ctor(false), copy(false), num(1), den(4) {}
    void maybe() const
    {
        sim::disarm();
        if (!(alloc || ctor || copy) || !sim::chance(num, den)) return;
        size_t kind = sim::choose(3);
        uint64_t nth = 1 + sim::choose(uint64_t(1) << sim::choose(9));
        if (kind == 2 && copy) sim::arm(sim::FAULT_MEMBER_COPY, nth);
        else if (kind == 1 && ctor) sim::arm(sim::FAULT_MEMBER_CTOR, nth);
        else if (alloc) sim::arm(sim::FAULT_ALLOC, 1 + (nth - 1) % 16);
        else if (copy) sim::arm(sim::FAULT_MEMBER_COPY, nth);
        else if (ctor) sim::arm(sim::FAULT_MEMBER_CTOR, nth);
    }
};

// ---------------------------------------------------------------- model of a grid
template<typename C> struct Model
{
    size_t d[3];
    std::vector<uint64_t> tok;
    Model() { d[0] = d[1] = d[2] = 0; }
    static const int NM = Traits<C>::NM;
    size_t cells() const { return d[0] * d[1] * d[2]; }
    void reset(const size_t n[3]) { for (int i = 0; i < 3; ++i) d[i] = n[i]; tok.assign(cells() * NM, 0); }
    void clear() { d[0] = d[1] = d[2] = 0; tok.clear(); }
    uint64_t *at(size_t x, size_t y, size_t z) { return &tok[((z * d[1] + y) * d[0] + x) * NM]; }
    const uint64_t *at(size_t x, size_t y, size_t z) const { return &tok[((z * d[1] + y) * d[0] + x) * NM]; }
    void set(size_t x, size_t y, size_t z, uint64_t t) { uint64_t *p = at(x, y, z); for (int m = 0; m < NM; ++m) p[m] = t; }
    bool same_dims(const Model& o) const { return d[0] == o.d[0] && d[1] == o.d[1] && d[2] == o.d[2]; }
};

struct Pos { size_t x, y, z, n; };

// ---------------------------------------------------------------- functors (user code)
template<typename C> struct ReadAll
{
    const Model<C> *m; Pos *bad; bool *found; bool neighbours;
    template<long X, long Y, long Z, long I>
    void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        typedef LibFlatArray::soa_accessor<C, X, Y, Z, I> A;
        for (size_t z = 0; z < m->d[2]; ++z) for (size_t y = 0; y < m->d[1]; ++y) for (size_t x = 0; x < m->d[0]; ++x) {
            a.index() = A::gen_index(long(x), long(y), long(z));
            for (int k = 0; k < Traits<C>::NM; ++k) {
                if (!eq_acc<C>(a, k, m->at(x, y, z)[k])) { bad->x = x; bad->y = y; bad->z = z; bad->n = k; *found = true; return; }
            }
            if (!neighbours) continue;
            using LibFlatArray::coord;
            int k = int((x + y + z) % Traits<C>::NM);
            bool ok = true;
            if (x > 0)           { auto n = a[coord<-1, 0, 0>()]; ok = ok && eq_acc<C>(n, k, m->at(x - 1, y, z)[k]); }
            if (x + 1 < m->d[0]) { auto n = a[coord< 1, 0, 0>()]; ok = ok && eq_acc<C>(n, k, m->at(x + 1, y, z)[k]); }
            if (y > 0)           { auto n = a[coord< 0,-1, 0>()]; ok = ok && eq_acc<C>(n, k, m->at(x, y - 1, z)[k]); }
            if (y + 1 < m->d[1]) { auto n = a[coord< 0, 1, 0>()]; ok = ok && eq_acc<C>(n, k, m->at(x, y + 1, z)[k]); }
            if (z > 0)           { auto n = a[coord< 0, 0,-1>()]; ok = ok && eq_acc<C>(n, k, m->at(x, y, z - 1)[k]); }
            if (z + 1 < m->d[2]) { auto n = a[coord< 0, 0, 1>()]; ok = ok && eq_acc<C>(n, k, m->at(x, y, z + 1)[k]); }
            if (!ok) { bad->x = x; bad->y = y; bad->z = z; bad->n = 100 + k; *found = true; return; }
        }
    }
};
// all combinations of diagonal neighbours
template<typename C> struct ReadDiagonal
{
    const Model<C> *m; Pos p; bool *bad; int k;
    template<typename A, long DX, long DY, long DZ> void one(A& a) const
    {
        long x = long(p.x) + DX, y = long(p.y) + DY, z = long(p.z) + DZ;
        if (x < 0 || y < 0 || z < 0 || x >= long(m->d[0]) || y >= long(m->d[1]) || z >= long(m->d[2])) return;
        auto n = a[LibFlatArray::coord<DX, DY, DZ>()];
        if (!eq_acc<C>(n, k, m->at(x, y, z)[k])) *bad = true;
    }
    template<long X, long Y, long Z, long I>
    void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        typedef LibFlatArray::soa_accessor<C, X, Y, Z, I> A;
        a.index() = A::gen_index(long(p.x), long(p.y), long(p.z));
        one<A, -1, -1, 0>(a); one<A, 1, -1, 1>(a); one<A, -2, 1, -1>(a); one<A, 2, 0, 2>(a); one<A, 0, 2, -1>(a); one<A, 1, 1, 1>(a); one<A, -1, -1, -1>(a);
    }
};
template<typename C> struct WriteMember
{
    Pos p; int k; uint64_t tok;      // k < 0: whole cells
    template<long X, long Y, long Z, long I>
    void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        typedef LibFlatArray::soa_accessor<C, X, Y, Z, I> A;
        a.index() = A::gen_index(long(p.x), long(p.y), long(p.z));
        for (size_t i = 0; i < p.n; ++i) {
            if (k >= 0) put_acc<C>(a, k, tok + i);
            else { C c = make_cell<C>(tok + i); a << c; }
            ++a;
        }
    }
};
// user code which uses grids while it runs inside of a callback, and may fail afterwards
struct UserFailure { int code; };
template<typename C, typename GRID> struct Nested
{
    GRID *other; Pos p, q; uint64_t tok, tok2; int fail; const uint64_t *expected; bool *bad;
    template<long X, long Y, long Z, long I>
    void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        typedef LibFlatArray::soa_accessor<C, X, Y, Z, I> A;
        a.index() = A::gen_index(long(p.x), long(p.y), long(p.z));
        for (size_t i = 0; i < p.n; ++i) { put_acc<C>(a, 0, tok + i); ++a; }
        a.index() = A::gen_index(long(p.x), long(p.y), long(p.z));
        C c = static_cast<const GRID*>(other)->get(q.x, q.y, q.z);
        { sim::Outside out; if (!eq_cell(c, expected)) *bad = true; }
        c = make_cell<C>(tok2);
        other->set(q.x, q.y, q.z, c);
        for (size_t i = 1; i < p.n; ++i) { put_acc<C>(a, Traits<C>::NM - 1, tok + i); ++a; }
        if (fail) { UserFailure f = { fail }; throw f; }
    }
};
// the ways accessors offer to write and read cells
template<typename C> struct WriteByAccessor
{
    Pos p; int how; uint64_t tok;
    template<long X, long Y, long Z, long I>
    void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        typedef LibFlatArray::soa_accessor<C, X, Y, Z, I> A;
        using LibFlatArray::coord;
        long x = long(p.x), y = long(p.y), z = long(p.z);
        switch (how) {
        case 0:
            a.index() = A::gen_index(p.x, p.y, p.z);
            for (size_t i = 0; i < p.n; ++i) { C c = make_cell<C>(tok + i); a = c; a += 1; }
            break;
        case 1: {
            a.index() = A::gen_index(x - 1, y, z);
            auto l = a[coord<1, 0, 0>()];
            for (size_t i = 0; i < p.n; ++i) { C c = make_cell<C>(tok + i); l << c; ++l; }
            break;
        }
        default: {
            a.index() = A::gen_index(x + 1, y - 1, z + 1);
            auto l = a[coord<-1, 1, 0>()];
            auto m = l[coord<0, 0, -1>()];
            for (size_t i = 0; i < p.n; ++i) { C c = make_cell<C>(tok + i); m = c; l += 1; }
        }
        }
    }
};
// the first member's address
template<typename A> struct SameAddress
{
    A *a; const char *data; long index; bool *bad;
    template<typename T> void operator()(const T& t) const
    {
        const char *p = reinterpret_cast<const char*>(&t);
        if (a->access_member(long(sizeof(T)), 0) != p || data + index * long(sizeof(T)) != p) *bad = true;
    }
};
template<typename C> struct ReadByAccessor
{
    const Model<C> *m; Pos p; bool *bad;
    void expect(const C& c, size_t i) const { sim::Outside o; if (!eq_cell(c, m->at(p.x + i, p.y, p.z))) *bad = true; }
    void expect(bool c) const { if (!c) *bad = true; }
    template<long X, long Y, long Z, long I>
    void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        typedef LibFlatArray::soa_accessor<C, X, Y, Z, I> A;
        typedef LibFlatArray::const_soa_accessor<C, X, Y, Z, I> K;
        using LibFlatArray::coord;
        long x = long(p.x), y = long(p.y), z = long(p.z);
        const A fixed(a.data(), A::gen_index(p.x, p.y, p.z));
        K k(a.data(), K::gen_index(p.x, p.y, p.z));
        a.index() = A::gen_index(x - 1, y + 1, z);
        auto l = a[coord<1, -1, 0>()];
        const K start(k);
        int t = int(p.x + p.y + p.z);
        for (size_t i = 0; i < p.n; ++i) {
            C c;
            l >> c; expect(c, i);
            k >> c; expect(c, i);
            expect(C(l), i); expect(C(k), i);
            int q = int(t + i) % Traits<C>::NM;
            expect(eq_acc<C>(k, q, m->at(p.x + i, p.y, p.z)[q]));
            expect((k == start) == (i == 0)); expect((k != start) == (i != 0));
            K other(a.data(), K::gen_index(x + long(i) + 1, y, z - 1));
            auto o = other[coord<-1, 0, 1>()];
            o >> c; expect(c, i); expect(C(o), i);
            long at = long(A::gen_index(x + long(i), y - 1, z));
            const char *data = a.data();
            LibFlatArray::const_soa_accessor_light<C, X, Y, Z, I> s(data, at);
            auto r = s[coord<0, 1, 0>()];
            r >> c; expect(c, i); expect(C(r), i);
            expect(eq_acc<C>(r, q, m->at(p.x + i, p.y, p.z)[q]));
            { char *own = a.data(); A w(own, A::gen_index(x + long(i), y, z)); SameAddress<A> f = { &w, own, long(w.index()), bad }; Traits<C>::on_acc(w, 0, f); }
            { SameAddress<decltype(l)> f = { &l, a.data(), long(A::gen_index(x + long(i), y, z)), bad }; Traits<C>::on_acc(l, 0, f); }
            expect(eq_acc<C>(o, q, m->at(p.x + i, p.y, p.z)[q]));
            if (i == 0) { fixed >> c; expect(c, i); expect(C(fixed), i); expect(eq_acc<C>(fixed, q, m->at(p.x, p.y, p.z)[q])); }
            if (i & 1) { ++k; ++l; } else { k += 1; l += 1; }
        }
    }
};
// copies a run of cells by saving it to a buffer and loading it elsewhere
template<typename C> struct CopyByAccessor
{
    Pos from, to; int how; size_t n, split, stride; char *buf;
    template<long X, long Y, long Z, long I>
    void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        typedef LibFlatArray::soa_accessor<C, X, Y, Z, I> A;
        using LibFlatArray::coord;
        long x = long(from.x), y = long(from.y), z = long(from.z);
        long u = long(to.x), v = long(to.y), w = long(to.z);
        bool whole = split == 0 || split == n;
        switch (how) {
        case 0: {
            a.index() = A::gen_index(x, y, z);
            if (whole) a.save(buf, n);
            else { a.save(buf, split, 0, stride); a += long(split); a.save(buf, n - split, split, stride); }
            break;
        }
        case 1: {
            LibFlatArray::const_soa_accessor<C, X, Y, Z, I> k(a.data(), A::gen_index(x, y, z));
            if (whole) k.save(buf, n);
            else { k.save(buf, split, 0, stride); k += long(split); k.save(buf, n - split, split, stride); }
            break;
        }
        case 2: {
            a.index() = A::gen_index(x - 1, y, z);
            auto l = a[coord<1, 0, 0>()];
            if (whole) l.save(buf, n);
            else { l.save(buf, split, 0, stride); l += long(split); l.save(buf, n - split, split, stride); }
            break;
        }
        case 3: {
            long i = A::gen_index(x, y + 1, z - 1);
            const char *data = a.data();
            LibFlatArray::const_soa_accessor_light<C, X, Y, Z, I> k(data, i);
            auto l = k[coord<0, -1, 1>()];
            if (whole) l.save(buf, n);
            else { l.save(buf, split, 0, stride); l += long(split); l.save(buf, n - split, split, stride); }
            break;
        }
        default: {
            LibFlatArray::const_soa_accessor<C, X, Y, Z, I> k(a.data(), A::gen_index(x, y + 1, z));
            auto l = k[coord<0, -1, 0>()];
            if (whole) l.save(buf, n);
            else { l.save(buf, split, 0, stride); l += long(split); l.save(buf, n - split, split, stride); }
        }
        }
        if (how & 1) {
            a.index() = A::gen_index(u, v, w);
            if (whole) a.load(buf, n);
            else { a.load(buf, split, 0, stride); a += long(split); a.load(buf, n - split, split, stride); }
        } else {
            a.index() = A::gen_index(u, v, w - 1);
            auto l = a[coord<0, 0, 1>()];
            if (whole) l.load(buf, n);
            else { l.load(buf, split, 0, stride); l += long(split); l.load(buf, n - split, split, stride); }
        }
    }
};
// copies cells of one grid to another, in reverse x order
template<typename C> struct CopyReverse
{
    size_t d[3]; bool whole;
    template<typename A1, typename A2>
    void operator()(A1& a, A2& b) const
    {
        for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) for (size_t x = 0; x < d[0]; ++x) {
            a.index() = A1::gen_index(long(x), long(y), long(z));
            b.index() = A2::gen_index(long(d[0] - 1 - x), long(y), long(z));
            if (whole) { C c; a >> c; b << c; } else { b = C(a); }
        }
    }
};
struct GetExtents
{
    long *e;
    template<typename A> void operator()(A&) const { e[0] = A::DIM_X; e[1] = A::DIM_Y; e[2] = A::DIM_Z; }
};

// a user supplied iterator type for streaks of cells
struct Streak
{
    size_t origin[3]; size_t n;
    explicit Streak(size_t x = 0, size_t y = 0, size_t z = 0, size_t n = 0) : n(n) { origin[0] = x; origin[1] = y; origin[2] = z; }
    size_t length() const { return n; }
};

// ---------------------------------------------------------------- grid plus model
template<typename ALLOC> struct AlignOf { static const size_t VALUE = 1; };
template<typename T, size_t A> struct AlignOf<LibFlatArray::aligned_allocator<T, A> > { static const size_t VALUE = A; };

template<typename C, typename ALLOC = LibFlatArray::aligned_allocator<char, 4096> > struct GridSlot
{
    typedef LibFlatArray::soa_grid<C, ALLOC> Grid;
    Grid *g;
    void *mem;
    Model<C> m;
    GridSlot() : g(0), mem(0) {}

    void check_shape(const char *when) const
    {
        size_t d[3], e[3], bytes;
        { sim::LibOp op("dim"); const Grid *cg = g; d[0] = cg->dim_x(); d[1] = cg->dim_y(); d[2] = cg->dim_z();
          e[0] = cg->extent_x(); e[1] = cg->extent_y(); e[2] = cg->extent_z(); bytes = cg->byte_size(); }
        if (d[0] != m.d[0] || d[1] != m.d[1] || d[2] != m.d[2])
            sim::fail("wrong-dimensions", "after %s grid reports %zux%zux%zu, expected %zux%zux%zu", when, d[0], d[1], d[2], m.d[0], m.d[1], m.d[2]);
        if (d[0] == 0 && d[1] == 0 && d[2] == 0) {
            if (e[0] * e[1] * e[2] * LibFlatArray::aggregated_member_size<C>::VALUE != bytes)
                sim::fail("wrong-extent", "after %s empty grid has extents %zux%zux%zu but %zu bytes", when, e[0], e[1], e[2], bytes);
            return;
        }
        for (int i = 0; i < 3; ++i) if (e[i] < d[i]) sim::fail("wrong-extent", "after %s extent %zu is below dimension %zu", when, e[i], d[i]);
        if (bytes != e[0] * e[1] * e[2] * LibFlatArray::aggregated_member_size<C>::VALUE)
            sim::fail("wrong-extent", "after %s byte size %zu does not match extents %zux%zux%zu", when, bytes, e[0], e[1], e[2]);
        if (!sim::in_heap(g->data(), bytes)) sim::fail("wrong-extent", "after %s the grid's %zu bytes are not backed by allocated memory", when, bytes);
        if (reinterpret_cast<uintptr_t>(g->data()) % AlignOf<ALLOC>::VALUE != 0)
            sim::fail("misaligned", "after %s the grid's storage is not aligned to %zu bytes", when, AlignOf<ALLOC>::VALUE);
        long ce[3] = { -1, -1, -1 };
        { sim::LibOp op("callback"); const Grid *cg = g; GetExtents f = { ce }; cg->callback(f); }
        for (int i = 0; i < 3; ++i) if (size_t(ce[i]) != e[i])
            sim::fail("wrong-extent", "after %s callbacks see extent %ld in dimension %d, the grid reports %zu", when, ce[i], i, e[i]);
    }
    void check_content(const char *when, size_t route) const
    {
        Pos bad = { 0, 0, 0, 0 };
        bool found = false;
        const Grid *cg = g;
        if (m.cells() == 0) return;
        if (route == 0) {
            for (size_t z = 0; z < m.d[2] && !found; ++z) for (size_t y = 0; y < m.d[1] && !found; ++y) for (size_t x = 0; x < m.d[0] && !found; ++x) {
                bool ok;
                { sim::LibOp op("get"); C c = cg->get(x, y, z); sim::Outside o; ok = eq_cell(c, m.at(x, y, z)); }
                if (!ok) { found = true; bad.x = x; bad.y = y; bad.z = z; }
            }
        } else if (route == 1) {
            std::vector<C> row(m.d[0]);
            for (size_t z = 0; z < m.d[2] && !found; ++z) for (size_t y = 0; y < m.d[1] && !found; ++y) {
                { sim::LibOp op("get range"); cg->get(0, y, z, &row[0], m.d[0]); }
                for (size_t x = 0; x < m.d[0]; ++x) if (!eq_cell(row[x], m.at(x, y, z))) { found = true; bad.x = x; bad.y = y; bad.z = z; break; }
            }
        } else {
            sim::LibOp op("callback");
            ReadAll<C> f = { &m, &bad, &found, route == 3 };
            cg->callback(f);
        }
        if (found) sim::fail("wrong-content", "after %s cell (%zu, %zu, %zu) of %zux%zux%zu differs from the model (route %zu, member %zu)",
                             when, bad.x, bad.y, bad.z, m.d[0], m.d[1], m.d[2], route, bad.n);
    }
    // after a failed write: every member of the region holds its old or its new value
    void adopt(const Pos *regions, size_t n, const Model<C>& now, const char *when)
    {
        for (size_t r = 0; r < n; ++r) for (size_t i = 0; i < regions[r].n; ++i) {
            size_t x = regions[r].x + i, y = regions[r].y, z = regions[r].z;
            sim::LibOp op("get");
            C c = const_cast<const Grid*>(g)->get(x, y, z);
            sim::Outside o;
            for (int k = 0; k < Traits<C>::NM; ++k) {
                uint64_t *t = m.at(x, y, z);
                if (eq_member(c, k, t[k])) continue;
                if (eq_member(c, k, now.at(x, y, z)[k])) { t[k] = now.at(x, y, z)[k]; continue; }
                sim::fail("wrong-content", "after failed %s cell (%zu, %zu, %zu) holds neither the old nor the new value", when, x, y, z);
            }
        }
    }
};

template<typename C> Pos random_run(const Model<C>& m)
{
    Pos p;
    p.x = sim::choose(m.d[0]); p.y = sim::choose(m.d[1]); p.z = sim::choose(m.d[2]);
    if (scale() && sim::chance(1, 3)) p.x = sim::choose(m.d[0] < 3 ? m.d[0] : 3);
    size_t rest = m.d[0] - p.x;
    p.n = sim::chance(1, 12) ? 0 : (sim::chance(scale() ? 2 : 1, 4) ? rest : 1 + sim::choose(rest));
    return p;
}

// ---------------------------------------------------------------- histories of grid operations
template<typename C, typename ALLOC = LibFlatArray::aligned_allocator<char, 4096> > class GridMachine
{
public:
    typedef GridSlot<C, ALLOC> Slot;
    typedef typename Slot::Grid Grid;
    static const int SLOTS = 3;
    Slot slot[SLOTS];
    uint64_t next_tok;
    Faults faults;
    bool refusals;
    size_t max_cells;
    unsigned w[24];

    GridMachine() : next_tok(1), refusals(true), max_cells(200) {}

    uint64_t fresh(size_t n = 1) { uint64_t t = next_tok; next_tok += n; return t; }
    int pick_alive() { int a[SLOTS], n = 0; for (int i = 0; i < SLOTS; ++i) if (slot[i].g) a[n++] = i; return n ? a[sim::choose(n)] : -1; }
    int pick_filled() { int a[SLOTS], n = 0; for (int i = 0; i < SLOTS; ++i) if (slot[i].g && slot[i].m.cells()) a[n++] = i; return n ? a[sim::choose(n)] : -1; }
    int pick_dead() { for (int i = 0; i < SLOTS; ++i) if (!slot[i].g) return i; return -1; }

    void some_dims(size_t d[3])
    {
        int other = sim::chance(1, 3) ? pick_filled() : -1;
        if (other < 0) { supported_dims<C>(d, max_cells); return; }
        for (int i = 0; i < 3; ++i) d[i] = slot[other].m.d[i];
    }
    // dimensions which differ from old in one direction only
    void near_dims(size_t d[3], const size_t old[3])
    {
        size_t k = sim::choose(3), v = sim::choose(2) ? d[k] : (old[k] > 1 ? sim::range(1, old[k] - 1) : 1), n[3] = { old[0], old[1], old[2] };
        n[k] = v;
        if (n[0] * n[1] * n[2] > (scale() ? (scale_for<C>() == 2 ? 70000 : 1500) : max_cells) || n[0] * n[1] * n[2] == 0) return;
        if (n[1] == 1 && n[2] > 1 && Traits<C>::table().n[0] == 0) return;
        for (int i = 0; i < 3; ++i) d[i] = n[i];
    }
    void unexpected(const char *op) { sim::fail("unexpected-error", "%s failed although nothing went wrong", op); }
    void expect_refusal(Outcome o, const char *op) { if (o == OK) sim::fail("not-refused", "%s was accepted although it cannot be served", op); if (sim::self() == 0) check_refusal_kept_memory(op); }

    void create(int s, int from)
    {
        Slot& t = slot[s];
        size_t d[3] = { 0, 0, 0 };
        int kind = from >= 0 ? 2 : (sim::chance(1, 8) ? 0 : 1);
        if (kind == 1) some_dims(d);
        if (kind == 2) sim::event("g%d = copy of g%d", s, from); else sim::event("g%d = grid(%zu,%zu,%zu)", s, d[0], d[1], d[2]);
        t.mem = sim::heap_alloc(sizeof(Grid));
        faults.maybe();
        Outcome o = attempt("construct grid", [&] {
            if (kind == 0) t.g = new (t.mem) Grid();
            else if (kind == 1) t.g = new (t.mem) Grid(d[0], d[1], d[2]);
            else t.g = new (t.mem) Grid(*const_cast<const Grid*>(slot[from].g));
        });
        if (o == OK) { if (kind == 2) t.m = slot[from].m; else t.m.reset(d); return; }
        t.g = 0;
        sim::heap_free(t.mem);
        if (o == THREW) unexpected("creating a grid");
        sim::count("reach.create_failed");
    }
    void create_refused()
    {
        size_t d[3];
        unsupported_dims<C>(d);
        sim::event("grid(%zu,%zu,%zu) refused?", d[0], d[1], d[2]);
        void *mem = sim::heap_alloc(sizeof(Grid));
        Outcome o = attempt("construct grid", [&] { Grid *g = new (mem) Grid(d[0], d[1], d[2]); g->~Grid(); });
        sim::heap_free(mem);
        expect_refusal(o, "grid of unsupported size");
        sim::count("reach.create_refused");
    }
    void destroy(int s)
    {
        sim::event("destroy g%d", s);
        Outcome o = attempt("destroy grid", [&] { slot[s].g->~Grid(); });
        if (o != OK) unexpected("destroying a grid");
        sim::heap_free(slot[s].mem);
        slot[s].g = 0;
        slot[s].m.clear();
    }
    // after a failed operation on a whole grid: old content, or empty
    void old_or_empty(int s, const char *when)
    {
        Slot& t = slot[s];
        size_t d[3];
        { sim::LibOp op("dim"); d[0] = t.g->dim_x(); d[1] = t.g->dim_y(); d[2] = t.g->dim_z(); }
        if (d[0] == 0 && d[1] == 0 && d[2] == 0) { t.m.clear(); return; }
        t.check_shape(when);
    }
    void assign(int s, int from)
    {
        sim::event("g%d = g%d", s, from);
        faults.maybe();
        Outcome o = attempt("assign grid", [&] { *slot[s].g = *const_cast<const Grid*>(slot[from].g); });
        if (o == OK) { slot[s].m = slot[from].m; return; }
        if (o == THREW) unexpected("assigning a grid");
        sim::count("reach.assign_failed");
        bool same = slot[s].m.same_dims(slot[from].m);
        old_or_empty(s, "failed assignment");
        if (same && slot[s].m.cells()) {
            // copied in place: cells hold the old or the new value
            std::vector<Pos> all;
            for (size_t z = 0; z < slot[s].m.d[2]; ++z) for (size_t y = 0; y < slot[s].m.d[1]; ++y) { Pos p = { 0, y, z, slot[s].m.d[0] }; all.push_back(p); }
            slot[s].adopt(&all[0], all.size(), slot[from].m, "assignment");
        }
    }
    void swap(int a, int b)
    {
        sim::event("swap g%d g%d", a, b);
        size_t how = sim::choose(2);
        Outcome o = attempt("swap grids", [&] { if (how) { using std::swap; swap(*slot[a].g, *slot[b].g); } else slot[a].g->swap(*slot[b].g); });
        if (o != OK) unexpected("swapping grids");
        if (a != b) std::swap(slot[a].m, slot[b].m);
    }
    void resize(int s)
    {
        Slot& t = slot[s];
        size_t d[3] = { 0, 0, 0 };
        size_t kind = sim::choose(10);
        if (kind == 1) { for (int i = 0; i < 3; ++i) d[i] = t.m.d[i]; }
        else if (kind != 2) some_dims(d);
        if (kind >= 7 && t.m.cells()) near_dims(d, t.m.d);
        sim::event("g%d.resize(%zu,%zu,%zu)", s, d[0], d[1], d[2]);
        faults.maybe();
        Outcome o = attempt("resize grid", [&] { t.g->resize(d[0], d[1], d[2]); });
        if (o == OK) {
            if (d[0] != t.m.d[0] || d[1] != t.m.d[1] || d[2] != t.m.d[2]) t.m.reset(d);
            return;
        }
        if (o == THREW) unexpected("resizing a grid");
        sim::count("reach.resize_failed");
        old_or_empty(s, "failed resize");
    }
    void resize_refused(int s)
    {
        size_t d[3];
        unsupported_dims<C>(d);
        sim::event("g%d.resize(%zu,%zu,%zu) refused?", s, d[0], d[1], d[2]);
        Outcome o = attempt("resize grid", [&] { slot[s].g->resize(d[0], d[1], d[2]); });
        expect_refusal(o, "resize to an unsupported size");
        sim::count("reach.resize_refused");
    }
    void write(int s, size_t how)
    {
        Slot& t = slot[s];
        Pos p = random_run(t.m);
        if (how == 0) p.n = 1;
        uint64_t tok = fresh(p.n + 1);
        sim::event("g%d.%s(%zu,%zu,%zu,n=%zu) tok %llu", s, how == 0 ? "set" : how == 1 ? "set" : how == 2 ? "broadcast" : how == 3 ? "callback-write" : "accessor-write", p.x, p.y, p.z, p.n, (unsigned long long)tok);
        Model<C> now = t.m;
        int k = how == 3 ? int(sim::choose(Traits<C>::NM + 1)) - 1 : -1;
        for (size_t i = 0; i < p.n; ++i) {
            uint64_t v = how == 2 ? tok : tok + i;
            if (k >= 0) now.at(p.x + i, p.y, p.z)[k] = v; else now.set(p.x + i, p.y, p.z, v);
        }
        int by = how == 4 ? int(sim::choose(3)) : 0;
        std::vector<C> cells;
        for (size_t i = 0; i < (how == 2 ? 1 : p.n); ++i) cells.push_back(make_cell<C>(tok + i));
        if (cells.empty()) cells.push_back(C());
        faults.maybe();
        Outcome o = attempt(how == 2 ? "broadcast" : how >= 3 ? "callback" : "set", [&] {
            switch (how) {
            case 0: t.g->set(p.x, p.y, p.z, cells[0]); break;
            case 1: t.g->set(p.x, p.y, p.z, &cells[0], p.n); break;
            case 2: t.g->broadcast(p.x, p.y, p.z, cells[0], p.n); break;
            case 3: { WriteMember<C> f = { p, k, tok }; t.g->callback(f); break; }
            default: { WriteByAccessor<C> f = { p, by, tok }; t.g->callback(f); }
            }
        });
        if (o == OK) { t.m = now; return; }
        if (o == THREW) unexpected("writing cells");
        sim::count("reach.write_failed");
        t.adopt(&p, 1, now, "write");
    }
    void nested(int s, int b)
    {
        Unlimited memory;
        Slot& t = slot[s];
        Slot& u = slot[b];
        Pos p = random_run(t.m), q = random_run(u.m);
        int fail = int(sim::choose(3)), code = 0;
        bool bad = false;
        uint64_t tok = fresh(p.n + 1), tok2 = fresh();
        sim::event("g%d.callback(%zu,%zu,%zu,n=%zu) uses g%d(%zu,%zu,%zu)%s", s, p.x, p.y, p.z, p.n, b, q.x, q.y, q.z, fail ? " and fails" : "");
        for (size_t i = 0; i < p.n; ++i) t.m.at(p.x + i, p.y, p.z)[0] = tok + i;
        std::vector<uint64_t> expected(u.m.at(q.x, q.y, q.z), u.m.at(q.x, q.y, q.z) + Traits<C>::NM);
        u.m.set(q.x, q.y, q.z, tok2);
        for (size_t i = 1; i < p.n; ++i) t.m.at(p.x + i - 1, p.y, p.z)[Traits<C>::NM - 1] = tok + i;
        Nested<C, Grid> f = { u.g, p, q, tok, tok2, fail, &expected[0], &bad };
        Outcome o = attempt("callback", [&] { try { t.g->callback(f); } catch (const UserFailure& e) { code = e.code; } });
        if (o != OK) unexpected("a callback using grids");
        if (code != fail) sim::fail("lost-error", "the error of the user's functor did not reach the caller");
        if (bad) sim::fail("wrong-value", "reading g%d(%zu,%zu,%zu) inside of a callback yields a wrong value", b, q.x, q.y, q.z);
        sim::count("reach.nested_callback");
    }
    void read(int s)
    {
        Slot& t = slot[s];
        const Grid *cg = t.g;
        Pos p = random_run(t.m);
        size_t how = sim::choose(4);
        sim::event("g%d.read%zu(%zu,%zu,%zu,n=%zu)", s, how, p.x, p.y, p.z, p.n);
        bool ok = true;
        faults.maybe();
        if (how == 0) {
            Outcome o = attempt("get", [&] { C c = cg->get(p.x, p.y, p.z); sim::Outside out; ok = eq_cell(c, t.m.at(p.x, p.y, p.z)); });
            if (o == THREW) unexpected("reading a cell");
        } else if (how == 1) {
            std::vector<C> cells(p.n + 1);
            Outcome o = attempt("get range", [&] { cg->get(p.x, p.y, p.z, &cells[0], p.n); });
            if (o == THREW) unexpected("reading cells");
            if (o == OK) for (size_t i = 0; i < p.n; ++i) ok = ok && eq_cell(cells[i], t.m.at(p.x + i, p.y, p.z));
            uint64_t zero[Traits<C>::NM] = { 0 };
            ok = ok && eq_cell(cells[p.n], zero);
        } else if (how == 3) {
            bool bad = false;
            ReadByAccessor<C> f = { &t.m, p, &bad };
            Outcome o = attempt("callback", [&] { cg->callback(f); });
            if (o == THREW) unexpected("reading by accessors");
            ok = !bad;
        } else {
            bool bad = false;
            ReadDiagonal<C> f = { &t.m, p, &bad, int(sim::choose(Traits<C>::NM)) };
            Outcome o = attempt("callback", [&] { cg->callback(f); });
            if (o == THREW) unexpected("reading by callback");
            ok = !bad;
        }
        if (!ok) sim::fail("wrong-content", "reading g%d at (%zu, %zu, %zu) n=%zu (route %zu) returned wrong values", s, p.x, p.y, p.z, p.n, how);
    }
    void dual(int a, int b)
    {
        bool asym = std::is_same<typename LibFlatArray::api_traits::select_asymmetric_dual_callback<C>::value, LibFlatArray::api_traits::true_type>::value;
        Slot &s = slot[a], &t = slot[b];
        if (a == b) return;
        if (!asym && !s.m.same_dims(t.m)) {
            if (!refusals) return;
            sim::event("g%d.callback(g%d) refused?", a, b);
            CopyReverse<C> f = { { 0, 0, 0 }, true };
            Outcome o = attempt("dual callback", [&] { s.g->callback(t.g, f); });
            expect_refusal(o, "callback on two grids of different size");
            sim::count("reach.dual_refused");
            return;
        }
        // select_sizes cannot serve empty grids of all types
        if (s.m.cells() == 0 || t.m.cells() == 0) return;
        CopyReverse<C> f = { { std::min(s.m.d[0], t.m.d[0]), std::min(s.m.d[1], t.m.d[1]), std::min(s.m.d[2], t.m.d[2]) }, sim::choose(2) != 0 };
        sim::event("g%d.callback(g%d, reverse copy)", a, b);
        Model<C> now = t.m;
        for (size_t z = 0; z < f.d[2]; ++z) for (size_t y = 0; y < f.d[1]; ++y) for (size_t x = 0; x < f.d[0]; ++x)
            std::copy(s.m.at(x, y, z), s.m.at(x, y, z) + Traits<C>::NM, now.at(f.d[0] - 1 - x, y, z));
        faults.maybe();
        bool constant = sim::choose(2) != 0;
        Outcome o = attempt("dual callback", [&] { if (constant) const_cast<const Grid*>(s.g)->callback(t.g, f); else s.g->callback(t.g, f); });
        if (o == OK) { t.m = now; sim::count("reach.dual_callback"); return; }
        if (o == THREW) unexpected("callback on two grids");
        std::vector<Pos> all;
        for (size_t z = 0; z < f.d[2]; ++z) for (size_t y = 0; y < f.d[1]; ++y) { Pos p = { 0, y, z, f.d[0] }; all.push_back(p); }
        t.adopt(&all[0], all.size(), now, "dual callback");
    }
    template<bool B> struct Tag {};
    void save_load(int a, int b) { save_load(a, b, Tag<Traits<C>::TRIVIAL>()); }
    void save_load(int, int, Tag<false>) {}
    void save_load(int a, int b, Tag<true>)
    {
        Slot &s = slot[a], &t = slot[b];
        if (sim::choose(3) == 0) { save_load_streaks(s, t, a, b); return; }
        Pos p = random_run(s.m), q = random_run(t.m);
        size_t n = std::min(p.n, t.m.d[0] - q.x);
        sim::event("g%d.save(%zu,%zu,%zu,n=%zu) -> g%d.load(%zu,%zu,%zu)", a, p.x, p.y, p.z, n, b, q.x, q.y, q.z);
        char *buf = static_cast<char*>(sim::heap_alloc(n * LibFlatArray::aggregated_member_size<C>::VALUE));
        faults.maybe();
        Outcome o = attempt("save", [&] { const Grid *cg = s.g; cg->save(p.x, p.y, p.z, buf, n); });
        if (o == THREW) unexpected("saving");
        if (o == OK) {
            faults.maybe();
            o = attempt("load", [&] { t.g->load(q.x, q.y, q.z, buf, n); });
            if (o == THREW) unexpected("loading");
            Model<C> now = t.m;
            for (size_t i = 0; i < n; ++i) std::copy(s.m.at(p.x + i, p.y, p.z), s.m.at(p.x + i, p.y, p.z) + Traits<C>::NM, now.at(q.x + i, q.y, q.z));
            if (o == OK) t.m = now; else { Pos r = q; r.n = n; t.adopt(&r, 1, now, "load"); }
        }
        sim::heap_free(buf);
    }
    // saves a sequence of streaks and loads the cells into a different sequence
    void save_load_streaks(Slot& s, Slot& t, int a, int b)
    {
        std::vector<Pos> from, to;
        std::vector<Streak> st, lt;
        std::vector<uint64_t> cells;
        size_t n = 0, k = sim::range(1, 4), left;
        for (size_t i = 0; i < k; ++i) {
            Pos p = random_run(s.m);
            p.n = std::min(p.n, std::min(size_t(600), 8 * t.m.d[0]));
            for (size_t j = 0; j < p.n; ++j) cells.insert(cells.end(), s.m.at(p.x + j, p.y, p.z), s.m.at(p.x + j, p.y, p.z) + Traits<C>::NM);
            n += p.n; from.push_back(p); st.push_back(Streak(p.x, p.y, p.z, p.n));
        }
        Model<C> now = t.m;
        for (left = n; left; ) {
            Pos q = random_run(t.m);
            q.n = std::min(q.n, left);
            for (size_t j = 0; j < q.n; ++j) std::copy(&cells[(n - left + j) * Traits<C>::NM], &cells[(n - left + j) * Traits<C>::NM] + Traits<C>::NM, now.at(q.x + j, q.y, q.z));
            left -= q.n; to.push_back(q); lt.push_back(Streak(q.x, q.y, q.z, q.n));
        }
        sim::event("g%d.save(%zu streaks from (%zu,%zu,%zu), n=%zu) -> g%d.load(%zu streaks)", a, st.size(), from[0].x, from[0].y, from[0].z, n, b, lt.size());
        char *buf = static_cast<char*>(sim::heap_alloc(n * LibFlatArray::aggregated_member_size<C>::VALUE));
        st.push_back(Streak()); lt.push_back(Streak());
        faults.maybe();
        Outcome o = attempt("save", [&] { const Grid *cg = s.g; cg->save(&st[0], &st[0] + st.size() - 1, buf, n); });
        if (o == THREW) unexpected("saving streaks");
        if (o == OK) {
            faults.maybe();
            o = attempt("load", [&] { t.g->load(&lt[0], &lt[0] + lt.size() - 1, const_cast<const char*>(buf), n); });
            if (o == THREW) unexpected("loading streaks");
            if (o == OK) { t.m = now; sim::count("reach.streaks"); } else if (!to.empty()) t.adopt(&to[0], to.size(), now, "load");
        }
        sim::heap_free(buf);
    }

    void accessor_copy(int a) { accessor_copy(a, Tag<Traits<C>::TRIVIAL>()); }
    void accessor_copy(int, Tag<false>) {}
    void accessor_copy(int a, Tag<true>)
    {
        Slot& t = slot[a];
        Pos p = random_run(t.m), q = random_run(t.m);
        size_t n = std::min(p.n, t.m.d[0] - q.x);
        if (n == 0) return;
        size_t split = sim::choose(n + 1), stride = n + (split == 0 || split == n ? 0 : sim::choose(3)), how = sim::choose(5);
        sim::event("g%d: accessor %zu copies (%zu,%zu,%zu,n=%zu/%zu) to (%zu,%zu,%zu)", a, how, p.x, p.y, p.z, n, split, q.x, q.y, q.z);
        char *buf = static_cast<char*>(sim::heap_alloc(stride * LibFlatArray::aggregated_member_size<C>::VALUE));
        Model<C> now = t.m;
        for (size_t i = 0; i < n; ++i) std::copy(t.m.at(p.x + i, p.y, p.z), t.m.at(p.x + i, p.y, p.z) + Traits<C>::NM, now.at(q.x + i, q.y, q.z));
        CopyByAccessor<C> f = { p, q, int(how), n, split, stride, buf };
        Outcome o = attempt("accessor copy", [&] { t.g->callback(f); });
        if (o != OK) unexpected("copying by accessors");
        t.m = now;
        sim::heap_free(buf);
    }

    void step()
    {
        size_t op = sim::weighted(w, 17);
        int a = pick_alive(), b, f = pick_filled();
        if (a < 0) { create(pick_dead(), -1); return; }
        switch (op) {
        case 0: if ((b = pick_dead()) >= 0) create(b, -1); break;
        case 1: if (a >= 0 && (b = pick_dead()) >= 0) create(b, a); break;
        case 2: if (a >= 0) destroy(a); break;
        case 3: if (a >= 0) { b = pick_alive(); assign(a, b); } break;
        case 4: if (a >= 0) { b = pick_alive(); swap(a, b); } break;
        case 5: if (a >= 0) resize(a); break;
        case 6: if (f >= 0) write(f, 0); break;
        case 7: if (f >= 0) write(f, 1); break;
        case 8: if (f >= 0) write(f, 2); break;
        case 9: if (f >= 0) write(f, 3); break;
        case 10: if (f >= 0) read(f); break;
        case 11: if (f >= 0) { b = pick_alive(); dual(f, b); } break;
        case 12: if (f >= 0) { b = pick_filled(); save_load(f, b); } break;
        case 13: if (refusals) { if (sim::chance(1, 3) || a < 0) create_refused(); else resize_refused(a); } break;
        case 14: if (f >= 0) write(f, 4); break;
        case 15: if (f >= 0) accessor_copy(f); break;
        case 16: if (f >= 0) { b = pick_filled(); nested(f, b); } break;
        }
    }
    void check_all(const char *when, bool content)
    {
        for (int i = 0; i < SLOTS; ++i) if (slot[i].g) {
            slot[i].check_shape(when);
            if (content) slot[i].check_content(when, sim::choose(4));
        }
    }
    void default_weights()
    {
        static const unsigned base[17] = { 8, 4, 3, 5, 4, 6, 6, 6, 4, 6, 6, 4, 5, 3, 3, 3, 2 };
        for (int i = 0; i < 17; ++i) w[i] = base[i] * (sim::chance(1, 6) ? 0 : sim::chance(1, 6) ? 4 : 1);
        w[0] = base[0];
        w[7] = base[7];
    }
    void run(size_t steps)
    {
        create(0, -1);
        if (sim::chance(1, 2)) create(1, -1);
        for (size_t i = 0; i < steps; ++i) {
            step();
            check_all("operation", sim::chance(1, 3) || i + 1 == steps);
        }
        check_all("history", true);
        finish();
    }
    void finish()
    {
        for (int i = 0; i < SLOTS; ++i) if (slot[i].g) destroy(i);
        sim::check_no_probes("all grids destroyed");
        sim::check_no_leaks("all grids destroyed");
    }
};

template<typename C, typename ALLOC> void run_grid_history_with(bool alloc, bool member, unsigned max_steps);
template<typename C> void run_grid_history(bool alloc, bool member, unsigned max_steps) { run_grid_history_with<C, LibFlatArray::aligned_allocator<char, 4096> >(alloc, member, max_steps); }
template<typename C, typename ALLOC> void run_grid_history_with(bool alloc, bool member, unsigned max_steps)
{
    GridMachine<C, ALLOC> *m = new GridMachine<C, ALLOC>();
    m->default_weights();
    sim::event("grid history, cell type %s", Traits<C>::name());
    bool with_faults = sim::chance(2, 3);
    if (with_faults) {
        m->faults.alloc = alloc;
        m->faults.ctor = m->faults.copy = member;
        m->faults.den = unsigned(sim::range(2, 8));
    }
    if (alloc && sim::chance(1, 8)) { operation_memory() = sim::range(4, 400) * 1024; sim::event("memory limited"); sim::count("fault.memory_limited_run"); }
    sim::mark_nontrivial();
    m->run(sim::range(3, scale() == 2 ? 6 : max_steps));
    delete m;
}
#endif
