// C02: concurrent writers of disjoint cells, readers of cells nobody writes, threads with containers of their own
#include "concurrent.h"

template<typename C> struct ReadRun
{
    const Model<C> *m; Pos p; bool *bad;
    template<long X, long Y, long Z, long I>
    void operator()(LibFlatArray::soa_accessor<C, X, Y, Z, I>& a) const
    {
        typedef LibFlatArray::soa_accessor<C, X, Y, Z, I> A;
        a.index() = A::gen_index(long(p.x), long(p.y), long(p.z));
        for (size_t i = 0; i < p.n; ++i) {
            for (int k = 0; k < Traits<C>::NM; ++k) if (!eq_acc<C>(a, k, m->at(p.x + i, p.y, p.z)[k])) *bad = true;
            a += 1;
        }
    }
};
// serialises cells by means of a private grid, so that the buffer's layout stays the library's business
template<typename C, typename Grid> char *encode(const std::vector<uint64_t>& toks)
{
    size_t n = toks.size();
    char *buf = static_cast<char*>(sim::heap_alloc(n * LibFlatArray::aggregated_member_size<C>::VALUE));
    if (n == 0) return buf;
    size_t line = std::min(n, max_line<C>());
    std::vector<Streak> st;
    size_t rows = (n + line - 1) / line;
    (void)rows;
    sim::LibOp op("encode");
    Grid *mine = new Grid(line, 1, 1);
    for (size_t i = 0; i < n && i < line; ++i) { C c = make_cell<C>(toks[i]); mine->set(i, 0, 0, c); }
    mine->save(0, 0, 0, buf, line);
    delete mine;
    return buf;
}
template<bool B> struct Tag {};
template<typename C> void load_op(SharedGrid<C>*, const std::vector<Pos>&, uint64_t, Tag<false>) {}
template<typename C> void load_op(SharedGrid<C> *s, const std::vector<Pos>& runs, uint64_t tok, Tag<true>)
{
    std::vector<uint64_t> toks;
    std::vector<Streak> st;
    for (size_t r = 0; r < runs.size(); ++r) {
        if (toks.size() + runs[r].n > max_line<C>()) break;
        for (size_t i = 0; i < runs[r].n; ++i) toks.push_back(tok++);
        st.push_back(Streak(runs[r].x, runs[r].y, runs[r].z, runs[r].n));
    }
    size_t n = toks.size();
    char *buf = encode<C, typename SharedGrid<C>::Grid>(toks);
    {
        sim::LibOp op("load");
        if (st.size() == 1) s->g->load(runs[0].x, runs[0].y, runs[0].z, buf, n);
        else s->g->load(st.begin(), st.end(), buf, n);
    }
    sim::heap_free(buf);
    size_t j = 0;
    for (size_t r = 0; r < st.size(); ++r) for (size_t i = 0; i < st[r].n; ++i) s->m.set(st[r].origin[0] + i, st[r].origin[1], st[r].origin[2], toks[j++]);
}

template<typename C> void grid_writer(SharedGrid<C> *s, const std::vector<Pos>& own, const std::vector<Pos>& free_runs, uint64_t tok, int ops)
{
    typedef typename SharedGrid<C>::Grid Grid;
    Model<C>& m = s->m;
    for (int n = 0; n < ops; ++n) {
        size_t what = sim::choose(8);
        bool reading = own.empty() || what >= 6;
        const std::vector<Pos>& from = reading && !free_runs.empty() && (own.empty() || sim::choose(2)) ? free_runs : own;
        if (from.empty()) return;
        Pos p = from[sim::choose(from.size())];
        if (p.n > 1 && sim::choose(2)) { size_t o = sim::choose(p.n); p.x += o; p.n -= o; p.n = 1 + sim::choose(p.n); }
        sim::event("op%zu (%zu,%zu,%zu,n=%zu) tok %llu", reading ? 6 : what, p.x, p.y, p.z, p.n, (unsigned long long)tok);
        if (reading) {
            bool ok = true;
            const Grid *g = s->g;
            size_t how = sim::choose(3);
            if (how == 0) { sim::LibOp op("get"); C c = g->get(p.x, p.y, p.z); sim::Outside o; ok = eq_cell(c, m.at(p.x, p.y, p.z)); }
            else if (how == 1) {
                std::vector<C> cells(p.n);
                { sim::LibOp op("get range"); g->get(p.x, p.y, p.z, &cells[0], p.n); }
                for (size_t i = 0; i < p.n; ++i) ok = ok && eq_cell(cells[i], m.at(p.x + i, p.y, p.z));
            } else {
                bool bad = false;
                ReadRun<C> f = { &m, p, &bad };
                sim::LibOp op("callback");
                g->callback(f);
                ok = !bad;
            }
            if (!ok) sim::fail("wrong-content", "reader saw wrong values at (%zu,%zu,%zu) n=%zu", p.x, p.y, p.z, p.n);
        } else {
            switch (what) {
            case 0: { C c = make_cell<C>(tok); sim::LibOp op("set"); s->g->set(p.x, p.y, p.z, c); sim::Outside o; m.set(p.x, p.y, p.z, tok); break; }
            case 1: {
                std::vector<C> cells;
                for (size_t i = 0; i < p.n; ++i) cells.push_back(make_cell<C>(tok + i));
                { sim::LibOp op("set range"); s->g->set(p.x, p.y, p.z, &cells[0], p.n); }
                for (size_t i = 0; i < p.n; ++i) m.set(p.x + i, p.y, p.z, tok + i);
                break;
            }
            case 2: {
                C c = make_cell<C>(tok);
                { sim::LibOp op("broadcast"); s->g->broadcast(p.x, p.y, p.z, c, p.n); }
                for (size_t i = 0; i < p.n; ++i) m.set(p.x + i, p.y, p.z, tok);
                break;
            }
            case 3: {
                int k = int(sim::choose(Traits<C>::NM + 1)) - 1;
                { WriteMember<C> f = { p, k, tok }; sim::LibOp op("callback"); s->g->callback(f); }
                for (size_t i = 0; i < p.n; ++i) { if (k < 0) m.set(p.x + i, p.y, p.z, tok + i); else m.at(p.x + i, p.y, p.z)[k] = tok + i; }
                break;
            }
            case 4: { std::vector<Pos> one(1, p); load_op<C>(s, one, tok, Tag<Traits<C>::TRIVIAL>()); break; }
            default: load_op<C>(s, own, tok, Tag<Traits<C>::TRIVIAL>()); break;
            }
        }
        tok += 1000;
        sim::yield();
    }
}

template<typename C> void grid_writers()
{
    SharedGrid<C> *s = new SharedGrid<C>();
    s->make(60);
    s->snapshot();
    pick_schedule_style();
    int threads = int(sim::range(2, 4));
    // partition all rows into runs and hand them out; owner `threads` means nobody writes
    std::vector<std::vector<Pos> > own(threads + 1);
    for (size_t z = 0; z < s->m.d[2]; ++z) for (size_t y = 0; y < s->m.d[1]; ++y) {
        size_t x = 0;
        while (x < s->m.d[0]) {
            Pos p = { x, y, z, 1 + sim::choose(s->m.d[0] - x) };
            own[sim::choose(threads + 1)].push_back(p);
            x += p.n;
        }
    }
    sim::event("%d writers", threads);
    for (int t = 0; t < threads; ++t) {
        int ops = int(sim::range(1, 5));
        uint64_t tok = s->next_tok + uint64_t(t + 1) * 1000000;
        const std::vector<Pos> *mine = &own[t], *nobody = &own[threads];
        sim::spawn([=] { grid_writer<C>(s, *mine, *nobody, tok, ops); });
    }
    sim::mark_nontrivial();
    sim::join_all();
    s->check_untouched(false);
    s->check_shape("concurrent writes");
    s->check_content("concurrent writes", sim::choose(4));
    s->dispose();
    sim::check_no_probes("all containers destroyed");
    sim::check_no_leaks("all containers destroyed");
    delete s;
}

template<typename C> struct VecMember
{
    size_t i; int k; uint64_t tok;
    template<typename A> void operator()(A& a) const { a.index() = long(i); put_acc<C>(a, k, tok); }
};
template<typename C, typename ARR> void sequence_writers(ARR *v, size_t n, bool is_vector, std::function<void(size_t, uint64_t, int)> write, std::function<bool(size_t, const uint64_t*)> read)
{
    static const int NM = Traits<C>::NM;
    std::vector<uint64_t> *tok = new std::vector<uint64_t>(n * NM);
    for (size_t i = 0; i < n; ++i) { for (int k = 0; k < NM; ++k) (*tok)[i * NM + k] = i + 1; write(i, i + 1, -1); }
    pick_schedule_style();
    int threads = int(sim::range(2, 4));
    std::vector<int> *owner = new std::vector<int>(n);
    for (size_t i = 0; i < n; ++i) (*owner)[i] = int(sim::choose(threads + 1));
    sim::event("%s of %zu %s, %d writers", is_vector ? "vector" : "array", n, Traits<C>::name(), threads);
    for (int t = 0; t < threads; ++t) {
        int ops = int(sim::range(1, 10));
        sim::spawn([=] {
            uint64_t val = uint64_t(t + 1) * 1000000;
            for (int j = 0; j < ops; ++j) {
                size_t i = sim::choose(n);
                if ((*owner)[i] == t) {
                    int k = int(sim::choose(NM + 1)) - 1;
                    sim::event("write %zu member %d", i, k);
                    ++val;
                    write(i, val, k);
                    for (int q = 0; q < NM; ++q) if (k < 0 || q == k) (*tok)[i * NM + q] = val;
                } else if ((*owner)[i] == threads) {
                    sim::event("read %zu", i);
                    if (!read(i, &(*tok)[i * NM])) sim::fail("wrong-content", "reader of element %zu, which nobody writes, saw a wrong value", i);
                }
                sim::yield();
            }
        });
    }
    sim::mark_nontrivial();
    sim::join_all();
    for (size_t i = 0; i < n; ++i) if (!read(i, &(*tok)[i * NM])) sim::fail("wrong-content", "element %zu has a wrong value after concurrent writes", i);
    delete owner; delete tok;
}
template<typename C> void vector_writers()
{
    typedef LibFlatArray::soa_vector<C> Vec;
    size_t n = sim::range(1, std::min<size_t>(scale() ? 600 : 70, max_line<C>()));
    void *mem = sim::heap_alloc(sizeof(Vec));
    Vec *v;
    { sim::LibOp op("construct"); v = new (mem) Vec(n); }
    sequence_writers<C>(v, n, true,
        [=](size_t i, uint64_t t, int k) {
            if (k < 0) { C c = make_cell<C>(t); sim::LibOp op("set"); v->set(i, c); }
            else { VecMember<C> f = { i, k, t }; sim::LibOp op("callback"); v->callback(f); }
        },
        [=](size_t i, const uint64_t *t) { sim::LibOp op("get"); C c = static_cast<const Vec*>(v)->get(i); sim::Outside o; return eq_cell(c, t); });
    { sim::LibOp op("destroy"); v->~Vec(); }
    sim::heap_free(mem);
    sim::check_no_probes("all containers destroyed");
    sim::check_no_leaks("all containers destroyed");
}
template<typename C> void array_writers()
{
    typedef LibFlatArray::soa_array<C, 24> Arr;
    size_t n = sim::range(1, 24);
    void *mem = sim::heap_alloc(sizeof(Arr));
    Arr *v;
    { sim::LibOp op("construct"); C c; v = new (mem) Arr(n, c); }
    sequence_writers<C>(v, n, false,
        [=](size_t i, uint64_t t, int k) {
            if (k < 0) { C c = make_cell<C>(t); sim::LibOp op("assign element"); if (t & 1) (*v)[int(i)] = c; else v->at(i) << c; }
            else { sim::LibOp op("assign member"); auto a = v->at(i); put_acc<C>(a, k, t); }
        },
        [=](size_t i, const uint64_t *t) { sim::LibOp op("read element"); C c = static_cast<const Arr*>(v)->at(i); sim::Outside o; return eq_cell(c, t); });
    { sim::LibOp op("destroy"); v->~Arr(); }
    sim::heap_free(mem);
    sim::check_no_probes("all containers destroyed");
    sim::check_no_leaks("all containers destroyed");
}
// threads which share nothing: whole histories on containers of their own
template<typename C> void separate_grids()
{
    pick_schedule_style();
    int threads = int(sim::range(2, 3));
    sim::event("%d threads with their own grids of %s", threads, Traits<C>::name());
    std::vector<GridMachine<C>*> all;
    for (int t = 0; t < threads; ++t) {
        GridMachine<C> *m = new GridMachine<C>();
        m->default_weights();
        m->max_cells = 40;
        m->next_tok = uint64_t(t + 1) * 1000000;
        if (sim::chance(1, 3)) m->faults.alloc = true;
        int steps = int(sim::range(1, 6));
        all.push_back(m);
        sim::spawn([=] {
            m->create(0, -1);
            for (int i = 0; i < steps; ++i) { m->step(); m->check_all("operation", sim::chance(1, 4)); sim::yield(); }
            m->check_all("history", true);
            for (int i = 0; i < GridMachine<C>::SLOTS; ++i) if (m->slot[i].g) m->destroy(i);
        });
    }
    sim::mark_nontrivial();
    sim::join_all();
    for (size_t i = 0; i < all.size(); ++i) delete all[i];
    sim::check_no_probes("all containers destroyed");
    sim::check_no_leaks("all containers destroyed");
}

#if PARTNO == 0
void run_1(); void run_2(); void run_3(); void run_4(); void run_5(); void run_6(); void run_7();
void sim_run()
{
    pick_scale();
    if (scale() == 2 && sim::choose(4)) { run_2(); return; }
    switch (sim::choose(7)) {
    case 0: run_1(); break;
    case 1: run_2(); break;
    case 2: run_3(); break;
    case 3: run_4(); break;
    case 4: run_5(); break;
    case 5: run_6(); break;
    default: run_7(); break;
    }
}
#elif PARTNO == 1
void run_1() { switch (sim::choose(3)) { case 0: grid_writers<CellCus>(); break; case 1: grid_writers<CellPak>(); break; default: grid_writers<CellWid>(); } }
#elif PARTNO == 2
void run_2() { grid_writers<CellDef>(); }
#elif PARTNO == 3
void run_3() { switch (sim::choose(3)) { case 0: grid_writers<Cell2U>(); break; case 1: grid_writers<Cell3U>(); break; default: grid_writers<Cell1U>(); } }
#elif PARTNO == 4
void run_4() { if (sim::choose(2)) grid_writers<CellHvy>(); else grid_writers<CellPrb>(); }
#elif PARTNO == 5
void run_5() { switch (sim::choose(3)) { case 0: vector_writers<CellDef>(); break; case 1: vector_writers<Cell1U>(); break; default: vector_writers<CellPrb>(); } }
#elif PARTNO == 6
void run_6() { switch (sim::choose(3)) { case 0: array_writers<CellDef>(); break; case 1: array_writers<CellCus>(); break; default: array_writers<CellPrb>(); } }
#elif PARTNO == 7
void run_7() { switch (sim::choose(3)) { case 0: separate_grids<CellAsy>(); break; case 1: separate_grids<CellHvy>(); break; default: separate_grids<CellCus>(); } }
#endif
