// C09: refused requests change nothing, supported ones are never refused
#include "sequences.h"

template<typename C> void grid_refusals()
{
    GridMachine<C> *m = new GridMachine<C>();
    m->default_weights();
    m->w[13] = 30; m->w[11] = 12; m->w[5] = 10; m->w[0] = 12;
    m->max_cells = 60;
    sim::event("grids with refused requests, cell type %s", Traits<C>::name());
    sim::mark_nontrivial();
    size_t steps = sim::range(3, scale() == 2 ? 4 : 16);
    m->create(0, -1);
    if (sim::chance(1, 2)) m->create(1, -1);
    for (size_t i = 0; i < steps; ++i) {
        m->step();
        m->check_all("operation", true);
    }
    m->finish();
    delete m;
}

// Whether a request is refused must not depend on the memory available: with
// no memory left, a supported size fails for lack of memory, an unsupported one is refused.
template<typename C> void boundary_requests()
{
    static const size_t top1[] = { 1, 2, 32, 33, 512, 513, 1056, 65568, 1048609, 134217761, 536870944, 536870945, 1073741855, 1073741856, 1073741857, 1073741888, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 5, ~size_t(0) };
    static const size_t top2[] = { 1, 2, 32, 33, 544, 545, 1056, 8225, 16416, 16417, 32799, 32800, 32801, 32832, size_t(1) << 32, (size_t(1) << 32) + 2 };
    static const size_t top3[] = { 1, 2, 32, 33, 136, 137, 264, 265, 520, 521, 1031, 1032, 1033, 1040, size_t(1) << 32, (size_t(1) << 32) + 2 };
    typedef typename GridSlot<C>::Grid Grid;
    sim::mark_nontrivial();
    GridSlot<C> *s = new GridSlot<C>();
    size_t d0[3] = { 1, 1, 1 };
    supported_dims<C>(d0, 40);
    s->mem = sim::heap_alloc(sizeof(Grid));
    { sim::LibOp op("construct"); s->g = new (s->mem) Grid(d0[0], d0[1], d0[2]); }
    s->m.reset(d0);
    uint64_t tok = 1;
    for (size_t z = 0; z < d0[2]; ++z) for (size_t y = 0; y < d0[1]; ++y) for (size_t x = 0; x < d0[0]; ++x) {
        C c = make_cell<C>(tok);
        sim::LibOp op("set");
        s->g->set(x, y, z, c);
        s->m.set(x, y, z, tok++);
    }
    size_t n = sim::range(1, 10);
    for (size_t i = 0; i < n; ++i) {
        size_t d[3] = { 1, 1, 1 };
        bool ok;
        switch (sim::choose(3)) {
        case 0: d[0] = sim::pick(top1); ok = d[0] <= 1073741856; break;
        case 1: d[0] = sim::pick(top2); d[1] = sim::pick(top2); ok = d[1] <= 1 ? d[0] <= 1073741856 : (d[0] <= 32800 && d[1] <= 32800); break;
        default:
            for (int k = 0; k < 3; ++k) d[k] = sim::pick(top3);
            if (d[1] > 1 && d[2] > 1) ok = d[0] <= 1032 && d[1] <= 1032 && d[2] <= 1032;
            else if (d[1] > 1) ok = d[0] <= 32800 && d[1] <= 32800;
            else ok = d[2] <= 1 && d[0] <= 1073741856;
        }
        size_t how = sim::choose(2);
        sim::event("%s(%zu,%zu,%zu) without memory: %s", how ? "resize" : "grid", d[0], d[1], d[2], ok ? "supported" : "refused?");
        operation_memory() = sim::heap().live_bytes + 2000;      // enough for error messages
        bool same = d[0] == d0[0] && d[1] == d0[1] && d[2] == d0[2];
        if (how && ok) how = 0;              // a failing resize may empty the grid
        if (how && same) continue;
        Outcome o = attempt(how ? "resize" : "construct", [&] {
            if (how) s->g->resize(d[0], d[1], d[2]);
            else { Grid g(d[0], d[1], d[2]); }
        });
        operation_memory() = ~uint64_t(0);
        if (ok && o == THREW) sim::fail("unexpected-error", "grid of %zux%zux%zu was refused although the type supports it", d[0], d[1], d[2]);
        if (!ok && o == OK) sim::fail("not-refused", "grid of %zux%zux%zu was accepted although the type does not support it", d[0], d[1], d[2]);
        if (!ok && o == FAULTED) sim::fail("not-refused", "memory was requested for a grid of %zux%zux%zu which the type does not support", d[0], d[1], d[2]);
        sim::count(ok ? "reach.boundary_accepted" : "reach.boundary_refused");
        s->check_shape("boundary request");
        s->check_content("boundary request", sim::choose(4));
    }
    { sim::LibOp op("destroy"); s->g->~Grid(); }
    sim::heap_free(s->mem);
    delete s;
    sim::check_no_probes("all grids destroyed");
    sim::check_no_leaks("all grids destroyed");
}

#if PARTNO == 0
void run_1(); void run_2(); void run_3(); void run_4(); void run_5(); void run_6();
void sim_run()
{
    pick_scale();
    if (scale() == 0 && sim::chance(1, 300)) { pick_giant(); run_2(); return; }
    switch (sim::choose(6)) {
    case 0: run_1(); break;
    case 1: run_2(); break;
    case 2: run_3(); break;
    case 3: run_4(); break;
    case 4: run_5(); break;
    default: run_6(); break;
    }
}
#elif PARTNO == 1
void run_1() { switch (sim::choose(3)) { case 0: grid_refusals<CellCus>(); break; case 1: grid_refusals<CellPak>(); break; default: grid_refusals<CellPrb>(); } }
#elif PARTNO == 2
void run_2() { grid_refusals<CellDef>(); }
#elif PARTNO == 3
void run_3() { switch (sim::choose(3)) { case 0: grid_refusals<Cell3U>(); break; case 1: grid_refusals<Cell2U>(); break; default: grid_refusals<Cell1U>(); } }
#elif PARTNO == 4
template<typename M> void sequence_refusals(const char *what)
{
    M *m = new M();
    m->default_weights();
    sim::event("%s with refused requests", what);
    sim::mark_nontrivial();
    m->w[13] = 0;
    m->run(sim::range(3, 24));
    delete m;
}
template<typename M> void vector_refusals(const char *what)
{
    M *m = new M();
    m->default_weights();
    sim::event("%s with refused requests", what);
    sim::mark_nontrivial();
    m->w[13] = 6; m->w[9] = m->w[10] = 12; m->w[7] = 20;
    m->run(sim::range(3, 20));
    delete m;
}
void run_4()
{
    switch (sim::choose(5)) {
    case 0: vector_refusals<VectorMachine<Cell1U> >("vectors"); break;
    case 1: vector_refusals<VectorMachine<CellCus> >("vectors"); break;
    case 2: vector_refusals<VectorMachine<Cell3U> >("vectors"); break;
    case 3: sequence_refusals<ArrayMachine<CellCus, 1, 4, 9> >("arrays"); break;
    default: sequence_refusals<ArrayMachine<CellPrb, 2, 5, 6> >("arrays"); break;
    }
}
#elif PARTNO == 5
void run_5() { boundary_requests<CellDef>(); }
#elif PARTNO == 6
void run_6() { if (sim::choose(2)) grid_refusals<CellAsy>(); else boundary_requests<CellPrd>(); }
#endif
