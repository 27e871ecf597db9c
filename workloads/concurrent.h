// Shared containers accessed by several simulated threads (C01, C02)
#ifndef CONCURRENT_H
#define CONCURRENT_H
#include "machine.h"

inline void pick_schedule_style()
{
    static const unsigned means[] = { 6, 30, 150, 800 };
    unsigned m = sim::pick(means);
    sim::set_race_checks(true);
    sim::set_preemption_mean(m);
    sim::event("preemption mean %u", m);
}

template<typename C> struct CopyFrom       // user functor: reads one grid, writes another
{
    size_t d[3];
    template<typename A1, typename A2>
    void operator()(A1& a, A2& b) const
    {
        for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) for (size_t x = 0; x < d[0]; ++x) {
            a.index() = A1::gen_index(long(x), long(y), long(z));
            b.index() = A2::gen_index(long(x), long(y), long(z));
            C c; a >> c; b << c;
        }
    }
};
// byte ranges occupied by the members of all logical cells
template<typename C> struct Footprint
{
    const Model<C> *m; std::vector<char> *used; const char *base;
    struct Mark
    {
        std::vector<char> *used; const char *base;
        template<typename T> void operator()(const T& t) const
        {
            size_t o = reinterpret_cast<const char*>(&t) - base;
            for (size_t i = 0; i < sizeof(T); ++i) if (o + i < used->size()) (*used)[o + i] = 1;
        }
    };
    template<long X, long Y, long Z, long I>
    void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        typedef LibFlatArray::soa_accessor<C, X, Y, Z, I> A;
        sim::Outside o;
        Mark mk = { used, base };
        for (size_t z = 0; z < m->d[2]; ++z) for (size_t y = 0; y < m->d[1]; ++y) for (size_t x = 0; x < m->d[0]; ++x) {
            a.index() = A::gen_index(long(x), long(y), long(z));
            for (int k = 0; k < Traits<C>::NM; ++k) Traits<C>::on_acc(a, k, mk);
        }
    }
};

template<typename C> struct SharedGrid : GridSlot<C>
{
    typedef typename GridSlot<C>::Grid Grid;
    std::vector<char> before, used;
    uint64_t next_tok;

    void make(size_t max_cells)
    {
        size_t d[3];
        do supported_dims<C>(d, max_cells); while (d[0] * d[1] * d[2] == 0);
        sim::event("shared grid(%zu,%zu,%zu) of %s", d[0], d[1], d[2], Traits<C>::name());
        this->mem = sim::heap_alloc(sizeof(Grid));
        next_tok = 1;
        { sim::LibOp op("construct"); this->g = new (this->mem) Grid(d[0], d[1], d[2]); }
        this->m.reset(d);
        for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) {
            std::vector<C> row;
            for (size_t x = 0; x < d[0]; ++x) { row.push_back(make_cell<C>(next_tok)); this->m.set(x, y, z, next_tok++); }
            sim::LibOp op("set");
            this->g->set(0, y, z, &row[0], d[0]);
        }
    }
    void snapshot()
    {
        before.assign(this->g->data(), this->g->data() + this->g->byte_size());
        used.assign(before.size(), 0);
        const Grid *cg = this->g;
        Footprint<C> f = { &this->m, &used, cg->data() };
        sim::LibOp op("callback");
        cg->callback(f);
    }
    void check_untouched(bool everything)
    {
        const char *now = this->g->data();
        for (size_t i = 0; i < before.size(); ++i) {
            if ((everything || !used[i]) && now[i] != before[i])
                sim::fail("stray-write", "byte %zu of the grid's storage (%s) was modified", i, used[i] ? "a cell nobody may write" : "outside of all cells");
        }
    }
    void dispose()
    {
        { sim::LibOp op("destroy"); this->g->~Grid(); }
        sim::heap_free(this->mem);
        this->g = 0;
    }
};
#endif
