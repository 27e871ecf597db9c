// C10: regions shipped between nodes: plain transfers, and a domain-decomposed
// simulation over an unreliable network with crashing nodes
#include "sequences.h"
#include <deque>
#include <map>
#include <memory>
#include <string.h>

// ---------------------------------------------------------------- plain transfers
template<typename C> struct Party : GridSlot<C>
{
    typedef typename GridSlot<C>::Grid Grid;
    uint64_t next;
    void make(uint64_t first, const size_t *like = 0)
    {
        size_t d[3];
        do supported_dims<C>(d, 120); while (d[0] * d[1] * d[2] == 0);
        if (like) for (int i = 0; i < 3; ++i) d[i] = like[i];
        sim::event("grid(%zu,%zu,%zu) of %s", d[0], d[1], d[2], Traits<C>::name());
        this->mem = sim::heap_alloc(sizeof(Grid));
        { sim::LibOp op("construct"); this->g = new (this->mem) Grid(d[0], d[1], d[2]); }
        this->m.reset(d);
        next = first;
        for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) for (size_t x = 0; x < d[0]; ++x) {
            if (sim::chance(1, 5)) continue;         // some cells keep the default value
            C c = make_cell<C>(next);
            sim::LibOp op("set");
            this->g->set(x, y, z, c);
            this->m.set(x, y, z, next++);
        }
    }
    void dispose() { { sim::LibOp op("destroy"); this->g->~Grid(); } sim::heap_free(this->mem); }
    // a sequence of streaks covering n cells (repetitions allowed when saving)
    std::vector<Streak> streaks(size_t n, bool distinct)
    {
        std::vector<Streak> r;
        std::vector<char> used(this->m.cells(), 0);
        size_t tries = 0;
        while (n > 0 && tries++ < 500) {
            Pos p = random_run(this->m);
            if (p.n == 0) { r.push_back(Streak(p.x, p.y, p.z, 0)); continue; }
            if (p.n > n) p.n = n;
            size_t base = (p.z * this->m.d[1] + p.y) * this->m.d[0] + p.x;
            if (distinct) {
                size_t k = 0;
                while (k < p.n && !used[base + k]) ++k;
                p.n = k;
                if (!k) continue;
                for (size_t i = 0; i < k; ++i) used[base + i] = 1;
            }
            r.push_back(Streak(p.x, p.y, p.z, p.n));
            n -= p.n;
        }
        return r;
    }
};
static size_t total(const std::vector<Streak>& s) { size_t n = 0; for (size_t i = 0; i < s.size(); ++i) n += s[i].n; return n; }
// cut streaks so that they cover exactly n cells
static void trim(std::vector<Streak>& s, size_t n)
{
    for (size_t i = 0; i < s.size(); ++i) { if (s[i].n > n) s[i].n = n; n -= s[i].n; }
}
template<typename C> std::vector<std::vector<uint64_t> > cells_of(const Model<C>& m, const std::vector<Streak>& s)
{
    std::vector<std::vector<uint64_t> > r;
    for (size_t i = 0; i < s.size(); ++i) for (size_t k = 0; k < s[i].n; ++k) {
        const uint64_t *t = m.at(s[i].origin[0] + k, s[i].origin[1], s[i].origin[2]);
        r.push_back(std::vector<uint64_t>(t, t + Traits<C>::NM));
    }
    return r;
}
static std::string show(const std::vector<Streak>& s)
{
    std::string r;
    for (size_t i = 0; i < s.size() && i < 12; ++i) r += "(" + std::to_string(s[i].origin[0]) + "," + std::to_string(s[i].origin[1]) + "," + std::to_string(s[i].origin[2]) + ")+" + std::to_string(s[i].n) + " ";
    return r;
}
template<typename C> void transfers()
{
    typedef typename Party<C>::Grid Grid;
    sim::mark_nontrivial();
    Party<C> *a = new Party<C>(), *b = new Party<C>();
    a->make(1);
    b->make(1000000, sim::chance(scale() ? 2 : 1, 4) ? a->m.d : 0);
    size_t rounds = sim::range(1, 5);
    for (size_t r = 0; r < rounds; ++r) {
        Party<C> *from = sim::choose(2) ? b : a, *to = sim::chance(1, 4) ? from : (from == a ? b : a);
        bool box = sim::chance(1, 3);
        std::vector<Streak> s, t;
        size_t most = std::min(from->m.cells(), to->m.cells());
        size_t want = sim::chance(scale() ? 2 : 1, 4) ? most : sim::range(1, std::min<size_t>(most, 30));
        if (box) {
            Pos p = random_run(from->m), q = random_run(to->m);
            size_t n = std::min(p.n, q.n);
            s.push_back(Streak(p.x, p.y, p.z, n));
            t.push_back(Streak(q.x, q.y, q.z, n));
        } else {
            t = to->streaks(want, true);
            s = from->streaks(total(t), sim::choose(2) != 0);
            trim(t, total(s));
        }
        size_t n = total(s), stride = n + (sim::chance(1, 4) && !box ? sim::choose(6) : 0);
        sim::event("save %s-> load %sstride %zu%s", show(s).c_str(), show(t).c_str(), stride, box ? " (box)" : "");
        size_t bytes = stride * LibFlatArray::aggregated_member_size<C>::VALUE;
        char *buf = static_cast<char*>(sim::heap_alloc(bytes)), *wire = static_cast<char*>(sim::heap_alloc(bytes));
        {
            const Grid *g = from->g;
            sim::LibOp op("save");
            if (box) g->save(s[0].origin[0], s[0].origin[1], s[0].origin[2], buf, n);
            else if (sim::choose(2)) g->save(s.begin(), s.end(), buf, stride);
            else g->save(&s[0], &s[0] + s.size(), buf, stride);
        }
        memcpy(wire, buf, bytes);
        sim::fill_garbage(buf, bytes);
        std::vector<std::vector<uint64_t> > data = cells_of<C>(from->m, s);
        {
            sim::LibOp op("load");
            if (box) to->g->load(t[0].origin[0], t[0].origin[1], t[0].origin[2], wire, n);
            else if (sim::choose(2)) to->g->load(t.begin(), t.end(), const_cast<const char*>(wire), stride);
            else to->g->load(&t[0], &t[0] + t.size(), const_cast<const char*>(wire), stride);
        }
        size_t j = 0;
        for (size_t i = 0; i < t.size(); ++i) for (size_t k = 0; k < t[i].n; ++k, ++j)
            std::copy(data[j].begin(), data[j].end(), to->m.at(t[i].origin[0] + k, t[i].origin[1], t[i].origin[2]));
        sim::heap_free(buf);
        sim::heap_free(wire);
        sim::count("net.regions_shipped");
        a->check_content("transfer", sim::choose(4));
        b->check_content("transfer", sim::choose(4));
        sim::check_redzones();
    }
    a->check_shape("transfers");
    b->check_shape("transfers");
    a->dispose(); b->dispose();
    delete a; delete b;
    sim::check_no_leaks("all grids destroyed");
}

// ---------------------------------------------------------------- domain decomposition
typedef CellCus Cell;
struct Value5 { char c; double d; short arr[2]; int i; float f; bool b; };
static Value5 zero_value() { Value5 v; v.c = 0; v.d = 0; v.arr[0] = v.arr[1] = 0; v.i = 0; v.f = 0; v.b = false; return v; }
static Value5 start_value(size_t x, size_t y, size_t z)
{
    Value5 v; uint64_t h = spread(x * 10007 + y * 101 + z + 1, 5);
    v.c = char(h); v.d = double(h >> 44); v.arr[0] = short(h >> 8); v.arr[1] = short(h >> 24); v.i = int(h >> 32); v.f = float((h >> 50) & 1023); v.b = h & 1;
    return v;
}
// the update rule, written once for values (reference) and once for accessors (functor below)
static Value5 next_value(const Value5& m, const Value5& w, const Value5& e, const Value5& n, const Value5& s, const Value5& u, const Value5& d)
{
    Value5 r;
    r.c = char(m.c + e.c);
    r.d = double((long(m.d) * 3 + long(w.d) + 2 * long(e.d) + 5 * long(n.d) + 7 * long(s.d)) & 0xfffff);
    r.arr[0] = short(m.arr[1] + w.arr[0]);
    r.arr[1] = short(m.arr[0] ^ n.arr[1]);
    r.i = int(unsigned(m.i) * 5u + unsigned(w.i) + 3u * unsigned(e.i) + 11u * unsigned(n.i) + 13u * unsigned(s.i) + 17u * unsigned(u.i) + 19u * unsigned(d.i));
    r.f = float((int(m.f) + int(s.f) + 1) & 0xfff);
    r.b = m.b != w.b;
    return r;
}
template<typename A> Value5 value_at(A a)
{
    Value5 v;
    v.c = a.c(); v.d = a.d(); v.arr[0] = a.arr()[0]; v.arr[1] = a.arr()[1]; v.i = a.i(); v.f = a.f(); v.b = a.b();
    return v;
}
struct Update
{
    long x0, x1, y0, y1, z0, z1;
    bool has_z;
    template<typename A1, typename A2> void operator()(A1& a, A2& b) const
    {
        using LibFlatArray::coord;
        for (long z = z0; z < z1; ++z) for (long y = y0; y < y1; ++y) {
            a.index() = A1::gen_index(x0, y, z);
            b.index() = A2::gen_index(x0, y, z);
            for (long x = x0; x < x1; ++x) {
                Value5 v = next_value(value_at(a), value_at(a[coord<-1, 0, 0>()]), value_at(a[coord<1, 0, 0>()]), value_at(a[coord<0, -1, 0>()]), value_at(a[coord<0, 1, 0>()]),
                                      has_z ? value_at(a[coord<0, 0, -1>()]) : zero_value(), has_z ? value_at(a[coord<0, 0, 1>()]) : zero_value());
                b.c() = v.c; b.d() = v.d; b.arr()[0] = v.arr[0]; b.arr()[1] = v.arr[1]; b.i() = v.i; b.f() = v.f; b.b() = v.b;
                ++a; ++b;
            }
        }
    }
};
struct Domain
{
    size_t d[3];
    std::vector<std::vector<Value5> > step;        // reference states
    Value5 at(size_t s, long x, long y, long z) const
    {
        if (x < 0 || y < 0 || z < 0 || x >= long(d[0]) || y >= long(d[1]) || z >= long(d[2])) return zero_value();
        return step[s][(size_t(z) * d[1] + size_t(y)) * d[0] + size_t(x)];
    }
    void compute(size_t steps)
    {
        step.resize(steps + 1);
        for (size_t s = 0; s <= steps; ++s) for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) for (size_t x = 0; x < d[0]; ++x) {
            long X = long(x), Y = long(y), Z = long(z);
            step[s].push_back(s == 0 ? start_value(x, y, z) :
                next_value(at(s - 1, X, Y, Z), at(s - 1, X - 1, Y, Z), at(s - 1, X + 1, Y, Z), at(s - 1, X, Y - 1, Z), at(s - 1, X, Y + 1, Z), at(s - 1, X, Y, Z - 1), at(s - 1, X, Y, Z + 1)));
        }
    }
};
typedef std::shared_ptr<std::vector<char> > Bytes;
struct Message { int from, to; size_t step; Bytes data; size_t cells; bool request; };

struct Node
{
    typedef LibFlatArray::soa_grid<Cell> Grid;
    int id, nodes, axis;
    const Domain *dom;
    size_t lo, hi;                       // range of global coordinates along the axis
    size_t origin[3], dims[3], size[3];  // local box of own cells within the local grid
    Grid *now, *next;
    bool up;
    size_t step;
    std::map<std::pair<int, size_t>, Bytes> halo;   // volatile: received halos by (side, step)
    // durable state
    size_t saved_step;
    Bytes saved;
    std::map<std::pair<int, size_t>, Bytes> sent;   // log of sent halos, kept on the sender's disk

    Node() : now(0), next(0), up(false), step(0), saved_step(0) {}

    // own cells as streaks of the local grid
    std::vector<Streak> own() const { return box(0, size[0], 0, size[1], 0, size[2]); }
    std::vector<Streak> box(size_t x0, size_t x1, size_t y0, size_t y1, size_t z0, size_t z1) const
    {
        std::vector<Streak> r;
        for (size_t z = z0; z < z1; ++z) for (size_t y = y0; y < y1; ++y) r.push_back(Streak(origin[0] + x0, origin[1] + y, origin[2] + z, x1 - x0));
        return r;
    }
    // layer of own cells next to the neighbour, resp. the layer of the neighbour's cells
    std::vector<Streak> layer(int side, bool mine) const
    {
        long b[3] = { 0, 0, 0 }, e[3] = { long(size[0]), long(size[1]), long(size[2]) };
        if (side < 0) { b[axis] = mine ? 0 : -1; } else { b[axis] = long(size[axis]) - (mine ? 1 : 0); }
        e[axis] = b[axis] + 1;
        std::vector<Streak> r;
        for (long z = b[2]; z < e[2]; ++z) for (long y = b[1]; y < e[1]; ++y)
            r.push_back(Streak(size_t(long(origin[0]) + b[0]), size_t(long(origin[1]) + y), size_t(long(origin[2]) + z), size_t(e[0] - b[0])));
        return r;
    }
    void choose_layout()
    {
        // the position of the own cells within the local grid varies with each start
        static const size_t lim[3] = { 40, 6, 4 };
        for (int k = 0; k < 3; ++k) {
            bool flat = dom->d[k] == 1 && k == 2;
            origin[k] = flat ? 0 : 1;
            dims[k] = size[k] + (flat ? 0 : 2);
            size_t room = lim[k] - dims[k];
            size_t pad = room ? sim::choose(std::min<size_t>(room, 9) + 1) : 0;
            if (flat) pad = 0;
            size_t before = pad ? sim::choose(pad + 1) : 0;
            origin[k] += before;
            dims[k] += pad;
        }
    }
    bool start()
    {
        choose_layout();
        sim::event("node %d starts: grid %zux%zux%zu, own cells at (%zu,%zu,%zu)", id, dims[0], dims[1], dims[2], origin[0], origin[1], origin[2]);
        if (sim::chance(1, 10)) sim::arm(sim::FAULT_ALLOC, 1 + sim::choose(2));
        Grid *a = 0, *b = 0;
        Outcome o = attempt("start node", [&] { a = new Grid(dims[0], dims[1], dims[2]); b = new Grid(dims[0], dims[1], dims[2]); });
        if (o == THREW) sim::fail("unexpected-error", "creating the grids of a node failed");
        if (o == FAULTED) { sim::LibOp op("stop node"); delete a; delete b; sim::count("fault.node_restart_failed"); return false; }
        now = a; next = b; up = true;
        std::vector<Streak> s = own();
        if (saved) {
            step = saved_step;
            char *buf = static_cast<char*>(sim::heap_alloc(saved->size()));
            memcpy(buf, &(*saved)[0], saved->size());
            { sim::LibOp op("load checkpoint"); now->load(s.begin(), s.end(), const_cast<const char*>(buf), total(s)); }
            sim::heap_free(buf);
        } else {
            step = 0;
            for (size_t z = 0; z < size[2]; ++z) for (size_t y = 0; y < size[1]; ++y) for (size_t x = 0; x < size[0]; ++x) {
                size_t g[3] = { x, y, z };
                g[axis] += lo;
                Value5 v = start_value(g[0], g[1], g[2]);
                Cell c;
                c.c = v.c; c.d = v.d; c.arr[0] = v.arr[0]; c.arr[1] = v.arr[1]; c.i = v.i; c.f = v.f; c.b = v.b;
                sim::LibOp op("set");
                now->set(origin[0] + x, origin[1] + y, origin[2] + z, c);
            }
        }
        return true;
    }
    void stop()
    {
        sim::LibOp op("stop node");
        delete now; delete next;
        now = next = 0;
        up = false;
        sim::Outside o;
        halo.clear();
    }
    Bytes save(const std::vector<Streak>& s, const char *what)
    {
        size_t n = total(s), bytes = n * LibFlatArray::aggregated_member_size<Cell>::VALUE;
        char *buf = static_cast<char*>(sim::heap_alloc(bytes));
        { sim::LibOp op(what); const Grid *g = now; g->save(s.begin(), s.end(), buf, n); }
        Bytes r(new std::vector<char>(buf, buf + bytes));
        sim::heap_free(buf);
        return r;
    }
    void checkpoint() { saved = save(own(), "save checkpoint"); saved_step = step; sim::event("node %d checkpoint at step %zu", id, step); }
    bool has_neighbour(int side) const { return side < 0 ? id > 0 : id + 1 < nodes; }
    void publish(std::vector<Message>& net)
    {
        for (int side = -1; side <= 1; side += 2) {
            if (!has_neighbour(side)) continue;
            std::pair<int, size_t> key(side, step);
            std::vector<Streak> s = layer(side, true);
            if (!sent.count(key)) sent[key] = save(s, "save halo");
            Message m = { id, id + side, step, sent[key], total(s), false };
            net.push_back(m);
        }
    }
    bool ready() const
    {
        for (int side = -1; side <= 1; side += 2) if (has_neighbour(side) && !halo.count(std::make_pair(side, step))) return false;
        return true;
    }
    void advance()
    {
        for (int side = -1; side <= 1; side += 2) {
            std::vector<Streak> s = layer(side, false);
            if (!has_neighbour(side)) continue;          // outside of the domain: default cells, never written
            Bytes b = halo[std::make_pair(side, step)];
            char *buf = static_cast<char*>(sim::heap_alloc(b->size()));
            memcpy(buf, &(*b)[0], b->size());
            { sim::LibOp op("load halo"); now->load(s.begin(), s.end(), const_cast<const char*>(buf), total(s)); }
            sim::heap_free(buf);
        }
        Update f = { long(origin[0]), long(origin[0] + size[0]), long(origin[1]), long(origin[1] + size[1]), long(origin[2]), long(origin[2] + size[2]), dom->d[2] > 1 };
        { sim::LibOp op("update"); now->callback(next, f); using std::swap; swap(*now, *next); }
        ++step;
        halo.erase(std::make_pair(-1, step - 1));
        halo.erase(std::make_pair(1, step - 1));
        verify();
    }
    void verify() const
    {
        const Grid *g = now;
        for (size_t z = 0; z < size[2]; ++z) for (size_t y = 0; y < size[1]; ++y) for (size_t x = 0; x < size[0]; ++x) {
            long c[3] = { long(x), long(y), long(z) };
            c[axis] += long(lo);
            Value5 e = dom->at(step, c[0], c[1], c[2]);
            Cell v;
            { sim::LibOp op("get"); v = g->get(origin[0] + x, origin[1] + y, origin[2] + z); }
            if (v.c != e.c || v.d != e.d || v.arr[0] != e.arr[0] || v.arr[1] != e.arr[1] || v.i != e.i || v.f != e.f || v.b != e.b)
                sim::fail("wrong-content", "node %d differs from the undivided simulation in step %zu at (%ld,%ld,%ld)", id, step, c[0], c[1], c[2]);
        }
    }
};

static void distributed()
{
    sim::mark_nontrivial();
    Domain dom;
    int axis = int(sim::choose(3));
    int nodes = int(sim::range(2, 4));
    size_t steps = sim::range(1, 8);
    // own cells plus halos of each node have to fit into 40x6x4
    if (axis == 0) { dom.d[0] = sim::range(size_t(nodes), 60); dom.d[1] = sim::range(1, 4); dom.d[2] = sim::range(1, 2); }
    else if (axis == 1) { dom.d[0] = sim::range(1, 14); dom.d[1] = sim::range(size_t(nodes), size_t(nodes) * 3); dom.d[2] = sim::range(1, 2); }
    else { dom.d[0] = sim::range(1, 12); dom.d[1] = sim::range(1, 4); dom.d[2] = sim::range(size_t(nodes), size_t(nodes) * 2); }
    dom.compute(steps);
    sim::event("domain %zux%zux%zu, %d nodes along axis %d, %zu steps", dom.d[0], dom.d[1], dom.d[2], nodes, axis, steps);
    std::vector<Node> node(static_cast<size_t>(nodes));
    size_t at = 0;
    static const size_t most[3] = { 38, 4, 2 };
    for (int i = 0; i < nodes; ++i) {
        Node& n = node[size_t(i)];
        n.id = i; n.nodes = nodes; n.axis = axis; n.dom = &dom;
        size_t rest = dom.d[axis] - at, left = size_t(nodes - i - 1);
        // every following node needs at least one layer and can take at most most[axis]
        size_t least = rest > left * most[axis] ? rest - left * most[axis] : 1, max = std::min(most[axis], rest - left);
        size_t w = i + 1 == nodes ? rest : sim::range(least, max);
        n.lo = at; n.hi = at + w; at += w;
        for (int k = 0; k < 3; ++k) n.size[k] = k == axis ? w : dom.d[k];
    }
    std::vector<Message> net;
    unsigned p_crash = sim::chance(1, 2) ? 1 : 0, p_drop = unsigned(sim::choose(3)), p_dup = unsigned(sim::choose(3));
    size_t budget = 400 * steps * size_t(nodes), tick = 0, faults_until = sim::range(10, 40 * steps);
    size_t checkpoint_every = sim::range(1, 4);
    for (;;) {
        bool done = true;
        for (int i = 0; i < nodes; ++i) done = done && node[size_t(i)].up && node[size_t(i)].step == steps;
        if (done) break;
        if (++tick > budget) sim::fail("no-progress", "simulation did not finish within %zu events after faults ended", budget);
        bool faults = tick < faults_until;
        size_t what = sim::choose(3);
        if (what == 0 && !net.empty()) {
            // any message may be the next one to arrive: delay and reordering
            size_t k = sim::choose(net.size());
            Message m = net[k];
            if (faults && p_dup && sim::chance(p_dup, 12)) { sim::count("fault.message_duplicated"); sim::event("duplicate %d->%d step %zu", m.from, m.to, m.step); }
            else net.erase(net.begin() + long(k));
            if (faults && p_drop && sim::chance(p_drop, 12)) { sim::count("fault.message_lost"); sim::event("lose %d->%d step %zu", m.from, m.to, m.step); continue; }
            if (k > 0) sim::count("fault.message_reordered");
            Node& n = node[size_t(m.to)];
            if (!n.up) continue;
            if (m.request) {
                int side = m.from < m.to ? -1 : 1;
                std::map<std::pair<int, size_t>, Bytes>::iterator i = n.sent.find(std::make_pair(side, m.step));
                if (i == n.sent.end()) continue;
                Message a = { m.to, m.from, m.step, i->second, 0, false };
                net.push_back(a);
                sim::count("net.retransmissions");
                continue;
            }
            int side = m.from < m.to ? -1 : 1;
            if (m.step >= n.step) n.halo[std::make_pair(side, m.step)] = m.data;
            sim::count("net.messages_delivered");
            continue;
        }
        Node& n = node[sim::choose(size_t(nodes))];
        if (!n.up) { if (n.start()) n.publish(net); continue; }
        if (faults && p_crash && sim::chance(1, 30)) {
            sim::event("node %d crashes in step %zu", n.id, n.step);
            sim::count("fault.node_crash");
            n.stop();
            continue;
        }
        if (n.step == steps) continue;
        if (!n.ready()) {
            // ask for what is missing
            if (sim::chance(1, 3)) for (int side = -1; side <= 1; side += 2) if (n.has_neighbour(side) && !n.halo.count(std::make_pair(side, n.step))) {
                Message m = { n.id, n.id + side, n.step, Bytes(), 0, true };
                if (net.size() < 60) net.push_back(m);
            }
            continue;
        }
        n.advance();
        sim::event("node %d reached step %zu", n.id, n.step);
        if (n.step % checkpoint_every == 0) n.checkpoint();
        n.publish(net);
    }
    sim::count("net.simulations_completed");
    for (int i = 0; i < nodes; ++i) { node[size_t(i)].verify(); node[size_t(i)].stop(); }
    sim::check_no_leaks("all nodes stopped");
}

#if PARTNO == 0
void run_1(); void run_2(); void run_3();
void sim_run()
{
    pick_scale();
    if (scale() == 0 && sim::chance(1, 300)) { pick_giant(); run_2(); return; }
    if (scale() == 2 && sim::choose(4)) { run_2(); return; }
    static const unsigned w[] = { 3, 2, 2, 2 };
    switch (sim::weighted(w)) {
    case 0: distributed(); break;
    case 1: run_1(); break;
    case 2: run_2(); break;
    default: run_3(); break;
    }
}
#elif PARTNO == 1
void run_1() { switch (sim::choose(4)) { case 0: transfers<CellCus>(); break; case 1: transfers<CellPak>(); break; case 2: transfers<CellWid>(); break; default: transfers<CellAsy>(); } }
#elif PARTNO == 2
void run_2() { transfers<CellDef>(); }
#elif PARTNO == 3
void run_3() { switch (sim::choose(3)) { case 0: transfers<Cell3U>(); break; case 1: transfers<Cell2U>(); break; default: transfers<Cell1U>(); } }
#endif
