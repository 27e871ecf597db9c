// C13: the same operations executed twice, on different heaps, observe the same
#include "sequences.h"

struct Observations
{
    std::vector<uint64_t> seen;
    bool second;
    size_t pos;
    Observations() : second(false), pos(0) {}
    void note(uint64_t v, const char *what)
    {
        if (!second) { seen.push_back(v); return; }
        if (pos >= seen.size() || seen[pos] != v)
            sim::fail("heap-dependent", "the same operations showed another %s when the heap had other content and addresses", what);
        ++pos;
    }
};
template<typename C, typename A> void observe(GridMachine<C, A>& m, Observations& o)
{
    for (int i = 0; i < m.SLOTS; ++i) {
        o.note(m.slot[i].g != 0, "outcome");
        if (!m.slot[i].g) continue;
        const typename GridMachine<C, A>::Grid *g = m.slot[i].g;
        size_t d[3], e[3], b;
        { sim::LibOp op("dim"); d[0] = g->dim_x(); d[1] = g->dim_y(); d[2] = g->dim_z(); e[0] = g->extent_x(); e[1] = g->extent_y(); e[2] = g->extent_z(); b = g->byte_size(); }
        for (int k = 0; k < 3; ++k) { o.note(d[k], "dimension"); o.note(e[k], "extent"); }
        o.note(b, "byte size");
        for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) for (size_t x = 0; x < d[0]; ++x) {
            uint64_t h;
            { sim::LibOp op("get"); C c = g->get(x, y, z); sim::Outside out; h = hash_cell(c); }
            o.note(h, "cell value");
        }
    }
}
template<typename C, typename A> void observe(VectorMachine<C, A>& m, Observations& o)
{
    for (int i = 0; i < m.SLOTS; ++i) {
        o.note(m.slot[i].v != 0, "outcome");
        if (!m.slot[i].v) continue;
        const typename VectorMachine<C, A>::Vec *v = m.slot[i].v;
        size_t n, c;
        { sim::LibOp op("size"); n = v->size(); c = v->capacity(); }
        o.note(n, "size"); o.note(c, "capacity");
        for (size_t j = 0; j < n; ++j) {
            uint64_t h;
            { sim::LibOp op("get"); C x = v->get(j); sim::Outside out; h = hash_cell(x); }
            o.note(h, "element");
        }
    }
}
template<typename C, int A, int B, int D> void observe(ArrayMachine<C, A, B, D>& m, Observations& o)
{
    for (int i = 0; i < m.SLOTS; ++i) {
        o.note(m.slot[i].a != 0, "outcome");
        if (!m.slot[i].a) continue;
        m.on(i, [&](auto& a) {
            size_t n;
            { sim::LibOp op("size"); n = a.size(); }
            o.note(n, "size");
            for (size_t j = 0; j < n; ++j) {
                uint64_t h;
                { sim::LibOp op("at"); C x = a.at(j); sim::Outside out; h = hash_cell(x); }
                o.note(h, "element");
            }
        });
    }
}
// containers of somebody else
template<typename C> struct Neighbour
{
    typedef LibFlatArray::soa_grid<C> Grid;
    std::vector<Grid*> g;
    void act()
    {
        sim::Untaped own;
        size_t k = sim::choose(4);
        if (k == 1 && g.size() < 3) {
            size_t d[3];
            supported_dims<C>(d, 30);
            g.push_back(0);
            sim::LibOp op("neighbour");
            g.back() = new Grid(d[0], d[1], d[2]);
            for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) for (size_t x = 0; x < d[0]; ++x) { C c = make_cell<C>(777000 + x); g.back()->set(x, y, z, c); }
        } else if (k == 2 && !g.empty()) { sim::LibOp op("neighbour"); delete g.back(); g.pop_back(); }
    }
    void leave() { while (!g.empty()) { sim::LibOp op("neighbour"); delete g.back(); g.pop_back(); } }
};
template<typename MACHINE, typename C> void execute(Observations& o, bool alloc, bool member, unsigned max_steps)
{
    MACHINE *m = new MACHINE();
    Neighbour<C> other;
    m->default_weights();
    if (sim::chance(1, 3)) { m->faults.alloc = alloc; m->faults.ctor = m->faults.copy = member; m->faults.den = 5; }
    size_t steps = sim::range(2, scale() == 2 ? 3 : max_steps);
    for (size_t i = 0; i < steps; ++i) {
        if (o.second) other.act();
        m->step();
        m->check_all("operation", sim::chance(1, 4));
        observe(*m, o);
    }
    other.leave();
    m->finish();
    delete m;
}
template<typename MACHINE, typename C> void twice(const char *what, bool alloc, bool member, unsigned max_steps)
{
    sim::event("%s of %s, executed on two heaps", what, Traits<C>::name());
    sim::mark_nontrivial();
    Observations o;
    sim::tape_record();
    execute<MACHINE, C>(o, alloc, member, max_steps);
    o.second = true;
    { sim::Untaped t; sim::set_garbage_seed(sim::choose(1u << 30) + 1); }
    sim::event("second execution");
    sim::tape_play();
    execute<MACHINE, C>(o, alloc, member, max_steps);
    sim::tape_off();
    if (o.pos != o.seen.size()) sim::fail("heap-dependent", "the second execution observed less than the first");
}

#if PARTNO == 0
void run_1(); void run_2(); void run_3(); void run_4(); void run_5();
void sim_run()
{
    pick_scale();
    if (scale() == 2 && sim::choose(4)) { run_5(); return; }
    switch (sim::choose(5)) {
    case 0: run_1(); break;
    case 1: run_2(); break;
    case 2: run_3(); break;
    case 3: run_4(); break;
    default: run_5(); break;
    }
}
#elif PARTNO == 1
void run_1() { switch (sim::choose(5)) { case 4: twice<GridMachine<CellOdd>, CellOdd>("grids", true, false, 12); break; case 0: twice<GridMachine<CellPak>, CellPak>("grids", true, false, 14); break; case 1: twice<GridMachine<CellWid>, CellWid>("grids", true, false, 10); break; default: twice<GridMachine<CellRaw>, CellRaw>("grids", true, false, 14); } }
#elif PARTNO == 2
void run_2() { if (sim::choose(2)) twice<GridMachine<CellPrb>, CellPrb>("grids", true, true, 10); else twice<GridMachine<Cell3U>, Cell3U>("grids", true, false, 14); }
#elif PARTNO == 3
void run_3() { if (sim::choose(5) == 4) twice<VectorMachine<CellOdd>, CellOdd>("vectors", true, false, 14); else if (sim::choose(2)) twice<VectorMachine<CellRaw>, CellRaw>("vectors", true, false, 18); else twice<VectorMachine<CellHvy>, CellHvy>("vectors", true, false, 12); }
#elif PARTNO == 4
void run_4() { if (sim::choose(5) == 4) twice<ArrayMachine<CellOdd, 2, 5, 9>, CellOdd>("arrays", true, false, 14); else if (sim::choose(2)) twice<ArrayMachine<CellRaw, 4, 9, 17>, CellRaw>("arrays", true, false, 18); else twice<ArrayMachine<CellPrb, 1, 6, 11>, CellPrb>("arrays", true, true, 14); }
#elif PARTNO == 5
void run_5() { if (sim::choose(2)) twice<VectorMachine<CellDef>, CellDef>("vectors", true, false, 14); else twice<GridMachine<CellDef>, CellDef>("grids", true, false, 8); }
#endif
