// C01: concurrent readers of one container
#include "concurrent.h"

template<typename C> void grid_reader(SharedGrid<C> *s, int ops)
{
    typedef typename SharedGrid<C>::Grid Grid;
    const Grid *g = s->g;
    const Model<C>& m = s->m;
    for (int n = 0; n < ops; ++n) {
        size_t what = sim::choose(8);
        Pos p = random_run(m);
        bool ok = true;
        sim::event("read%zu (%zu,%zu,%zu,n=%zu)", what, p.x, p.y, p.z, p.n);
        switch (what) {
        case 0: { sim::LibOp op("get"); C c = g->get(p.x, p.y, p.z); sim::Outside o; ok = eq_cell(c, m.at(p.x, p.y, p.z)); break; }
        case 1: {
            std::vector<C> cells(p.n + 1);
            { sim::LibOp op("get range"); g->get(p.x, p.y, p.z, &cells[0], p.n); }
            for (size_t i = 0; i < p.n; ++i) ok = ok && eq_cell(cells[i], m.at(p.x + i, p.y, p.z));
            break;
        }
        case 2: case 3: {
            if (!Traits<C>::TRIVIAL) break;
            char *buf = static_cast<char*>(sim::heap_alloc(p.n * LibFlatArray::aggregated_member_size<C>::VALUE));
            Streak st[2] = { Streak(p.x, p.y, p.z, p.n), Streak() };
            {
                sim::LibOp op("save");
                if (what == 2) g->save(p.x, p.y, p.z, buf, p.n); else g->save(&st[0], &st[1], buf, p.n);
            }
            // decode by loading it into a private grid of the same type
            size_t d[3] = { p.n ? p.n : 1, 1, 1 };
            {
                sim::LibOp op("load into private grid");
                Grid *mine = new Grid(d[0], d[1], d[2]);
                mine->load(0, 0, 0, buf, p.n);
                for (size_t i = 0; i < p.n; ++i) { C c = mine->get(i, 0, 0); sim::Outside o; ok = ok && eq_cell(c, m.at(p.x + i, p.y, p.z)); }
                delete mine;
            }
            sim::heap_free(buf);
            break;
        }
        case 4: {
            Pos bad; bool found = false;
            ReadAll<C> f = { &m, &bad, &found, true };
            sim::LibOp op("callback");
            g->callback(f);
            ok = !found;
            break;
        }
        case 5: {
            bool bad = false;
            ReadDiagonal<C> f = { &m, p, &bad, int(sim::choose(Traits<C>::NM)) };
            sim::LibOp op("callback");
            g->callback(f);
            ok = !bad;
            break;
        }
        case 6: {
            sim::LibOp op("copy");
            Grid *mine = new Grid(*g);
            { C c = static_cast<const Grid*>(mine)->get(p.x, p.y, p.z); sim::Outside o; ok = eq_cell(c, m.at(p.x, p.y, p.z)); }
            if (sim::choose(2)) { *mine = *g; C c = mine->get(p.x, p.y, p.z); sim::Outside o; ok = ok && eq_cell(c, m.at(p.x, p.y, p.z)); }
            delete mine;
            break;
        }
        default: {
            CopyFrom<C> f = { { m.d[0], m.d[1], m.d[2] } };
            sim::LibOp op("dual callback");
            Grid *mine = new Grid(m.d[0], m.d[1], m.d[2]);
            g->callback(mine, f);
            C c = mine->get(p.x, p.y, p.z);
            { sim::Outside o; ok = eq_cell(c, m.at(p.x, p.y, p.z)); }
            ok = ok && g->dim_x() == m.d[0] && g->extent_x() >= m.d[0] && g->byte_size() == mine->byte_size();
            delete mine;
        }
        }
        if (!ok) sim::fail("wrong-content", "concurrent reader got wrong values (operation %zu at (%zu,%zu,%zu) n=%zu)", what, p.x, p.y, p.z, p.n);
        sim::yield();
    }
}

template<typename C> void grid_readers()
{
    SharedGrid<C> *s = new SharedGrid<C>();
    s->make(60);
    s->snapshot();
    std::vector<char> object(static_cast<char*>(s->mem), static_cast<char*>(s->mem) + sizeof(typename SharedGrid<C>::Grid));
    pick_schedule_style();
    int threads = int(sim::range(2, 4));
    sim::event("%d readers", threads);
    for (int t = 0; t < threads; ++t) { int ops = int(sim::range(1, 5)); sim::spawn([=] { grid_reader<C>(s, ops); }); }
    sim::mark_nontrivial(); sim::join_all();
    s->check_untouched(true);
    if (sim::hash_bytes(&object[0], object.size()) != sim::hash_bytes(s->mem, object.size())) sim::fail("stray-write", "reading modified the grid object itself");
    s->check_shape("concurrent reads");
    s->check_content("concurrent reads", sim::choose(4));
    s->dispose();
    sim::check_no_probes("all containers destroyed");
    sim::check_no_leaks("all containers destroyed");
    delete s;
}

// ---------------------------------------------------------------- vectors
template<typename C> struct ReadVec
{
    const std::vector<uint64_t> *tok; bool *bad;
    template<typename A> void operator()(A& a) const
    {
        for (size_t i = 0; i < tok->size(); ++i) {
            a.index() = long(i);
            for (int k = 0; k < Traits<C>::NM; ++k) if (!eq_acc<C>(a, k, (*tok)[i])) *bad = true;
        }
    }
};
template<typename C> void vector_readers()
{
    typedef LibFlatArray::soa_vector<C> Vec;
    size_t n = sim::range(1, std::min<size_t>(scale() ? 600 : 60, max_line<C>()));
    void *mem = sim::heap_alloc(sizeof(Vec));
    Vec *v;
    std::vector<uint64_t> tok;
    { sim::LibOp op("construct"); v = new (mem) Vec(n); }
    for (size_t i = 0; i < n; ++i) { tok.push_back(i + 1); C c = make_cell<C>(i + 1); sim::LibOp op("set"); v->set(i, c); }
    pick_schedule_style();
    int threads = int(sim::range(2, 4));
    sim::event("vector of %zu %s, %d readers", n, Traits<C>::name(), threads);
    uint64_t object = sim::hash_bytes(mem, sizeof(Vec));
    const Vec *cv = v;
    const std::vector<uint64_t> *t = &tok;
    for (int k = 0; k < threads; ++k) {
        int ops = int(sim::range(1, 6));
        sim::spawn([=] {
            for (int j = 0; j < ops; ++j) {
                bool ok = true;
                size_t i = sim::choose(n), what = sim::choose(3);
                sim::event("vread%zu %zu", what, i);
                std::vector<uint64_t> want(Traits<C>::NM, (*t)[i]);
                if (what == 0) { sim::LibOp op("get"); C c = cv->get(i); sim::Outside o; ok = eq_cell(c, &want[0]); }
                else if (what == 1) { bool bad = false; ReadVec<C> f = { t, &bad }; sim::LibOp op("callback"); cv->callback(f); ok = !bad; }
                else {
                    sim::LibOp op("copy vector");
                    Vec *mine = new Vec(*cv);
                    C c = static_cast<const Vec*>(mine)->get(i);
                    { sim::Outside o; ok = eq_cell(c, &want[0]); }
                    ok = ok && mine->size() == cv->size() && !cv->empty() && cv->capacity() >= n;
                    delete mine;
                }
                if (!ok) sim::fail("wrong-content", "concurrent reader of a vector got wrong values (%zu at %zu)", what, i);
                sim::yield();
            }
        });
    }
    sim::mark_nontrivial(); sim::join_all();
    if (object != sim::hash_bytes(mem, sizeof(Vec))) sim::fail("stray-write", "reading modified the vector object itself");
    { bool bad = false; ReadVec<C> f = { t, &bad }; { sim::LibOp op("callback"); cv->callback(f); } if (bad) sim::fail("wrong-content", "vector changed by readers"); }
    { sim::LibOp op("destroy"); v->~Vec(); }
    sim::heap_free(mem);
    sim::check_no_probes("all containers destroyed");
    sim::check_no_leaks("all containers destroyed");
}
// ---------------------------------------------------------------- arrays
template<typename C> void array_readers()
{
    typedef LibFlatArray::soa_array<C, 24> Arr;
    typedef LibFlatArray::soa_array<C, 30> Big;
    size_t n = sim::range(1, 24);
    void *mem = sim::heap_alloc(sizeof(Arr));
    Arr *v;
    { sim::LibOp op("construct"); v = new (mem) Arr(); }
    for (size_t i = 0; i < n; ++i) { C c = make_cell<C>(i + 1); sim::LibOp op("append"); *v << c; }
    pick_schedule_style();
    int threads = int(sim::range(2, 4));
    sim::event("array of %zu %s, %d readers", n, Traits<C>::name(), threads);
    uint64_t object = sim::hash_bytes(mem, sizeof(Arr));
    const Arr *cv = v;
    for (int k = 0; k < threads; ++k) {
        int ops = int(sim::range(1, 6));
        sim::spawn([=] {
            for (int j = 0; j < ops; ++j) {
                bool ok = true;
                size_t i = sim::choose(n), what = sim::choose(4);
                sim::event("aread%zu %zu", what, i);
                std::vector<uint64_t> want(Traits<C>::NM, i + 1);
                if (what == 0) { sim::LibOp op("read element"); C c = (*cv)[int(i)]; sim::Outside o; ok = eq_cell(c, &want[0]); }
                else if (what == 1) {
                    sim::LibOp op("iterate");
                    auto a = cv->at(size_t(0));
                    for (size_t e = 0; e < cv->size(); ++e) {
                        for (int q = 0; q < Traits<C>::NM; ++q) if (!eq_acc<C>(a, q, e + 1)) ok = false;
                        ++a;
                    }
                } else if (what == 2) {
                    sim::LibOp op("copy array");
                    Arr *mine = new Arr(*cv);
                    C c = static_cast<const Arr*>(mine)->at(int(i));
                    { sim::Outside o; ok = eq_cell(c, &want[0]); }
                    ok = ok && mine->size() == cv->size();
                    delete mine;
                } else {
                    sim::LibOp op("copy to larger array");
                    Big *mine = new Big(*cv);
                    C c = static_cast<const Big*>(mine)->at(int(i));
                    { sim::Outside o; ok = eq_cell(c, &want[0]); }
                    *mine = *cv;
                    ok = ok && mine->size() == cv->size() && cv->byte_size() == mine->byte_size();
                    delete mine;
                }
                if (!ok) sim::fail("wrong-content", "concurrent reader of an array got wrong values (%zu at %zu)", what, i);
                sim::yield();
            }
        });
    }
    sim::mark_nontrivial(); sim::join_all();
    if (object != sim::hash_bytes(mem, sizeof(Arr))) sim::fail("stray-write", "reading modified the array");
    { sim::LibOp op("destroy"); v->~Arr(); }
    sim::heap_free(mem);
    sim::check_no_probes("all containers destroyed");
    sim::check_no_leaks("all containers destroyed");
}

#if PARTNO == 0
void run_1(); void run_2(); void run_3(); void run_4(); void run_5(); void run_6();
void sim_run()
{
    pick_scale();
    if (scale() == 2 && sim::choose(4)) { run_2(); return; }
    switch (sim::choose(6)) {
    case 0: run_1(); break;
    case 1: run_2(); break;
    case 2: run_3(); break;
    case 3: run_4(); break;
    case 4: run_5(); break;
    default: run_6(); break;
    }
}
#elif PARTNO == 1
void run_1() { if (sim::choose(2)) grid_readers<CellCus>(); else grid_readers<CellWid>(); }
#elif PARTNO == 2
void run_2() { grid_readers<CellDef>(); }
#elif PARTNO == 3
void run_3() { if (sim::choose(2)) grid_readers<CellAsy>(); else grid_readers<Cell1U>(); }
#elif PARTNO == 4
void run_4() { if (sim::choose(2)) grid_readers<CellHvy>(); else grid_readers<CellPrb>(); }
#elif PARTNO == 5
void run_5() { switch (sim::choose(3)) { case 0: vector_readers<CellDef>(); break; case 1: vector_readers<Cell1U>(); break; default: vector_readers<CellPrb>(); } }
#elif PARTNO == 6
void run_6() { switch (sim::choose(3)) { case 0: array_readers<CellDef>(); break; case 1: array_readers<CellCus>(); break; default: array_readers<CellPrb>(); } }
#endif
