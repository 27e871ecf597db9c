// Histories of soa_vector and soa_array operations against models of sequences.
#ifndef SEQUENCES_H
#define SEQUENCES_H
#include "machine.h"

// Model of a sequence. Slots beyond the size remember what was stored there:
// an operation exposing them may show any of these values, or the default.
template<typename C> struct SeqModel
{
    static const int NM = Traits<C>::NM;
    struct Elem { uint64_t t[NM]; };
    std::vector<Elem> e;
    std::vector<std::vector<uint64_t> > left;      // leftovers by index
    size_t size() const { return e.size(); }
    static Elem make(uint64_t tok) { Elem r; for (int k = 0; k < NM; ++k) r.t[k] = tok; return r; }
    void remember(size_t i, const Elem& v)
    {
        if (left.size() <= i) left.resize(i + 1);
        for (int k = 0; k < NM; ++k) {
            bool known = v.t[k] == 0;
            for (size_t j = 0; j < left[i].size(); ++j) known = known || left[i][j] == v.t[k];
            if (!known) left[i].push_back(v.t[k]);
        }
    }
    void pop() { remember(e.size() - 1, e.back()); e.pop_back(); }
    void shrink(size_t n) { while (e.size() > n) pop(); }
    void push(uint64_t tok) { size_t i = e.size(); if (left.size() > i) left[i].clear(); e.push_back(make(tok)); }
    void forget() { left.clear(); }
};
struct SetElem
{
    size_t i; uint64_t tok; int k;
};
template<typename C> struct VecWrite
{
    size_t i, n; int k; uint64_t tok; int fail;
    template<typename A> void operator()(A& a) const
    {
        a.index() = long(i);
        for (size_t j = 0; j < n; ++j) {
            if (k >= 0) put_acc<C>(a, k, tok + j); else { C c = make_cell<C>(tok + j); a << c; }
            a += 1;
        }
        if (fail) { UserFailure f = { fail }; throw f; }
    }
};
template<typename C> struct VecRead
{
    const SeqModel<C> *m; size_t *bad; bool *found;
    template<typename A> void operator()(A& a) const
    {
        for (size_t j = 0; j < m->size() && !*found; ++j) {
            a.index() = long(j);
            for (int k = 0; k < Traits<C>::NM; ++k) if (!eq_acc<C>(a, k, m->e[j].t[k])) { *bad = j; *found = true; }
        }
    }
};

template<typename C, typename ALLOC = LibFlatArray::aligned_allocator<char, 4096> > class VectorMachine
{
public:
    typedef LibFlatArray::soa_vector<C, ALLOC> Vec;
    typedef SeqModel<C> M;
    static const int SLOTS = 3;
    static const int OPS = 14;
    struct Slot { Vec *v; void *mem; M m; size_t cap; Slot() : v(0), mem(0), cap(0) {} } slot[SLOTS];
    uint64_t next_tok;
    Faults faults;
    bool refusals;
    size_t max_size;
    unsigned w[OPS];

    VectorMachine() : next_tok(1), refusals(true), max_size(scale_for<C>() == 2 ? 70000 : scale() ? 1500 : 100) { if (max_size > max_line<C>()) max_size = max_line<C>(); }
    uint64_t fresh(size_t n = 1) { uint64_t t = next_tok; next_tok += n; return t; }
    int pick_alive() { int a[SLOTS], n = 0; for (int i = 0; i < SLOTS; ++i) if (slot[i].v) a[n++] = i; return n ? a[sim::choose(n)] : -1; }
    int pick_dead() { for (int i = 0; i < SLOTS; ++i) if (!slot[i].v) return i; return -1; }
    void unexpected(const char *op) { sim::fail("unexpected-error", "%s failed although nothing went wrong", op); }
    size_t some_size()
    {
        size_t n;
        Table t = Traits<C>::table();
        switch (sim::choose(4)) {
        case 0: n = sim::range(0, 6); break;
        case 1: if (t.n[0]) { n = t.s[0][sim::choose(t.n[0])] + sim::choose(3); if (n) --n; }
                else { static const size_t e[] = { 32, 64, 96, 128, 31, 33, 63, 65 }; n = sim::pick(e); }
                break;
        case 2: n = sim::range(0, 40); break;
        default: if (scale() && sim::choose(2)) n = scaled_line(scale_for<C>());
                 else { int a = pick_alive(); n = a < 0 ? 1 : (sim::choose(2) ? slot[a].m.size() : slot[a].cap + sim::choose(2)); }
        }
        return std::min(n, max_size);
    }
    size_t capacity(int s) { sim::LibOp op("capacity"); return const_cast<const Vec*>(slot[s].v)->capacity(); }

    void check_shape(int s, const char *when)
    {
        Slot& t = slot[s];
        size_t n, c; bool e;
        { sim::LibOp op("size"); const Vec *v = t.v; n = v->size(); c = v->capacity(); e = v->empty(); }
        if (n != t.m.size()) sim::fail("wrong-size", "after %s v%d has size %zu, expected %zu", when, s, n, t.m.size());
        if (e != (n == 0)) sim::fail("wrong-size", "after %s v%d of size %zu claims to be %sempty", when, s, n, e ? "" : "not ");
        if (c < n) sim::fail("wrong-capacity", "after %s v%d has capacity %zu but size %zu", when, s, c, n);
        t.cap = c;
    }
    void check_content(int s, const char *when)
    {
        Slot& t = slot[s];
        size_t bad = 0; bool found = false;
        if (sim::choose(2)) {
            for (size_t i = 0; i < t.m.size() && !found; ++i) {
                bool ok;
                { sim::LibOp op("get"); C c = const_cast<const Vec*>(t.v)->get(i); sim::Outside o; ok = eq_cell(c, t.m.e[i].t); }
                if (!ok) { bad = i; found = true; }
            }
        } else if (t.m.size()) {
            VecRead<C> f = { &t.m, &bad, &found };
            sim::LibOp op("callback");
            const_cast<const Vec*>(t.v)->callback(f);
        }
        if (found) sim::fail("wrong-content", "after %s element %zu of %zu in v%d differs from the model", when, bad, t.m.size(), s);
    }
    // each member of element i holds one of the permitted values
    void adopt(int s, size_t i, const std::vector<uint64_t>& may, const char *when)
    {
        Slot& t = slot[s];
        sim::LibOp op("get");
        C c = const_cast<const Vec*>(t.v)->get(i);
        sim::Outside o;
        for (int k = 0; k < M::NM; ++k) {
            bool ok = false;
            for (size_t j = 0; j < may.size() && !ok; ++j) if (eq_member(c, k, may[j])) { t.m.e[i].t[k] = may[j]; ok = true; }
            if (!ok) sim::fail("wrong-content", "after %s member %d of element %zu of v%d holds a value it never had", when, k, i, s);
        }
    }
    std::vector<uint64_t> old_and(const typename M::Elem& o, const typename M::Elem *n)
    {
        std::vector<uint64_t> r(o.t, o.t + M::NM);
        if (n) r.insert(r.end(), n->t, n->t + M::NM);
        return r;
    }
    void adopt_members(int s, size_t i, const typename M::Elem& now, const char *when)
    {
        Slot& t = slot[s];
        sim::LibOp op("get");
        C c = const_cast<const Vec*>(t.v)->get(i);
        sim::Outside o;
        for (int k = 0; k < M::NM; ++k) {
            if (eq_member(c, k, t.m.e[i].t[k])) continue;
            if (eq_member(c, k, now.t[k])) { t.m.e[i].t[k] = now.t[k]; continue; }
            sim::fail("wrong-content", "after failed %s element %zu of v%d holds neither the old nor the new value", when, i, s);
        }
    }
    void create(int s, int from)
    {
        Slot& t = slot[s];
        int kind = from >= 0 ? 3 : int(sim::choose(3));
        size_t n = kind == 0 ? 0 : some_size();
        uint64_t tok = fresh();
        if (kind == 3) sim::event("v%d = copy of v%d", s, from); else sim::event("v%d = vector%d(%zu) tok %llu", s, kind, n, (unsigned long long)tok);
        t.mem = sim::heap_alloc(sizeof(Vec));
        C c = make_cell<C>(tok);
        faults.maybe();
        Outcome o = attempt("construct vector", [&] {
            switch (kind) {
            case 0: t.v = new (t.mem) Vec(); break;
            case 1: t.v = new (t.mem) Vec(n); break;
            case 2: t.v = new (t.mem) Vec(n, c); break;
            default: t.v = new (t.mem) Vec(*const_cast<const Vec*>(slot[from].v));
            }
        });
        if (o == OK) {
            if (kind == 3) t.m = slot[from].m;
            else { t.m = M(); for (size_t i = 0; i < n; ++i) t.m.push(kind == 2 ? tok : 0); }
            return;
        }
        t.v = 0;
        sim::heap_free(t.mem);
        if (o == THREW) unexpected("creating a vector");
        sim::count("reach.create_failed");
    }
    void destroy(int s)
    {
        sim::event("destroy v%d", s);
        if (attempt("destroy vector", [&] { slot[s].v->~Vec(); }) != OK) unexpected("destroying a vector");
        sim::heap_free(slot[s].mem);
        slot[s].v = 0;
        slot[s].m = M();
    }
    void assign(int s, int from)
    {
        sim::event("v%d = v%d", s, from);
        faults.maybe();
        Outcome o = attempt("assign vector", [&] { *slot[s].v = *const_cast<const Vec*>(slot[from].v); });
        if (o == OK) { slot[s].m = slot[from].m; return; }
        if (o == THREW) unexpected("assigning a vector");
        sim::count("reach.assign_failed");
        check_shape(s, "failed assignment");
        Slot &t = slot[s], &f = slot[from];
        for (size_t i = 0; i < t.m.size(); ++i) {
            std::vector<uint64_t> may = old_and(t.m.e[i], i < f.m.size() ? &f.m.e[i] : 0);
            if (i >= f.m.size()) { may.push_back(0); if (i < f.m.left.size()) may.insert(may.end(), f.m.left[i].begin(), f.m.left[i].end()); }
            adopt(s, i, may, "failed assignment");
        }
        for (size_t i = t.m.size(); i < f.m.size(); ++i) t.m.remember(i, f.m.e[i]);
        for (size_t i = t.m.size(); i < f.m.left.size(); ++i) for (size_t j = 0; j < f.m.left[i].size(); ++j) t.m.remember(i, M::make(f.m.left[i][j]));
    }
    void swap(int a, int b)
    {
        sim::event("swap v%d v%d", a, b);
        Unlimited plenty;
        Outcome o = attempt("swap vectors", [&] { using std::swap; swap(*slot[a].v, *slot[b].v); });
        if (o != OK) unexpected("swapping vectors");
        if (a != b) std::swap(slot[a].m, slot[b].m);
    }
    void set(int s)
    {
        Slot& t = slot[s];
        if (!t.m.size()) return;
        size_t i = sim::choose(t.m.size());
        uint64_t tok = fresh();
        sim::event("v%d.set(%zu) tok %llu", s, i, (unsigned long long)tok);
        C c = make_cell<C>(tok);
        faults.maybe();
        Outcome o = attempt("set", [&] { t.v->set(i, c); });
        if (o == THREW) unexpected("setting an element");
        if (o == OK) t.m.e[i] = M::make(tok); else { sim::count("reach.set_failed"); adopt_members(s, i, M::make(tok), "set"); }
    }
    void get(int s)
    {
        Slot& t = slot[s];
        if (!t.m.size()) return;
        size_t i = sim::choose(t.m.size());
        bool ok = true;
        sim::event("v%d.get(%zu)", s, i);
        faults.maybe();
        Outcome o = attempt("get", [&] { C c = const_cast<const Vec*>(t.v)->get(i); sim::Outside out; ok = eq_cell(c, t.m.e[i].t); });
        if (o == THREW) unexpected("reading an element");
        if (!ok) sim::fail("wrong-content", "v%d.get(%zu) returned a wrong value", s, i);
    }
    void push(int s)
    {
        Slot& t = slot[s];
        size_t n = t.m.size();
        size_t cap = capacity(s);
        bool must_fail = n + 1 > max_line<C>();
        bool may_fail = n == cap && size_t(n * 1.2) + 1 > max_line<C>();
        if ((must_fail || may_fail) && !refusals) return;
        uint64_t tok = fresh();
        int how = int(sim::choose(2));
        sim::event("v%d.%s tok %llu", s, how ? "emplace_back" : "push_back", (unsigned long long)tok);
        C c = make_cell<C>(tok);
        if (!may_fail && !must_fail) faults.maybe();
        Outcome o = attempt("push_back", [&] { if (how) t.v->emplace_back(c); else t.v->push_back(c); });
        if (o == OK) {
            if (must_fail) sim::fail("not-refused", "v%d grew beyond the supported size", s);
            t.m.push(tok);
            if (n == cap) sim::count("reach.grown_by_push");
            return;
        }
        if (o == THREW && !may_fail && !must_fail) unexpected("appending to a vector");
        sim::count(o == THREW ? "reach.push_refused" : "reach.push_failed");
        t.m.remember(n, M::make(tok));
    }
    void pop(int s)
    {
        Slot& t = slot[s];
        if (!t.m.size()) return;
        sim::event("v%d.pop_back", s);
        faults.maybe();
        Outcome o = attempt("pop_back", [&] { t.v->pop_back(); });
        if (o == OK) { t.m.pop(); t.m.left[t.m.size()].clear(); return; }       // the slot is reset
        if (o == THREW) unexpected("removing the last element");
        sim::count("reach.pop_failed");
        check_shape(s, "failed pop_back");
        adopt_members(s, t.m.size() - 1, M::make(0), "pop_back");
    }
    void resize(int s, bool reserve)
    {
        Slot& t = slot[s];
        size_t n = some_size();
        bool too_large = refusals && sim::chance(1, 10);
        if (too_large) { static const size_t huge[] = { size_t(1) << 40, ~size_t(0), size_t(1) << 62, ~size_t(0) / 2 }; n = max_line<C>() < 1000 && sim::choose(2) ? max_line<C>() + 1 + sim::choose(3) : sim::pick(huge); }
        sim::event("v%d.%s(%zu)", s, reserve ? "reserve" : "resize", n);
        size_t before = reserve ? capacity(s) : 0;
        if (!too_large) faults.maybe();
        Outcome o = attempt(reserve ? "reserve" : "resize", [&] { if (reserve) t.v->reserve(n); else t.v->resize(n); });
        if (too_large) {
            if (o == OK) sim::fail("not-refused", "v%d accepted a size of %zu", s, n);
            sim::count("reach.resize_refused"); check_refusal_kept_memory("a size");
            return;
        }
        if (o == THREW) unexpected(reserve ? "reserving room in a vector" : "resizing a vector");
        if (o == FAULTED) { sim::count("reach.resize_failed"); return; }
        if (reserve) {
            if (capacity(s) < n) sim::fail("wrong-capacity", "v%d has capacity %zu after reserve(%zu)", s, capacity(s), n);
            if (capacity(s) < before) sim::fail("wrong-capacity", "reserve(%zu) reduced the capacity of v%d from %zu to %zu", n, s, before, capacity(s));
            return;
        }
        if (n <= t.m.size()) { t.m.shrink(n); return; }
        while (t.m.size() < n) {
            size_t i = t.m.size();
            std::vector<uint64_t> may(1, 0);
            if (i < t.m.left.size()) may.insert(may.end(), t.m.left[i].begin(), t.m.left[i].end());
            t.m.push(0);
            adopt(s, i, may, "resize");
        }
    }
    void clear(int s)
    {
        sim::event("v%d.clear", s);
        faults.maybe();
        Outcome o = attempt("clear", [&] { slot[s].v->clear(); });
        if (o == THREW) unexpected("clearing a vector");
        if (o == OK) slot[s].m.shrink(0);
    }
    void callback(int s)
    {
        Slot& t = slot[s];
        if (!t.m.size()) return;
        size_t i = sim::choose(t.m.size()), n = 1 + sim::choose(t.m.size() - i);
        int k = int(sim::choose(M::NM + 1)) - 1;
        uint64_t tok = fresh(n);
        sim::event("v%d.callback(write %zu..%zu member %d) tok %llu", s, i, i + n, k, (unsigned long long)tok);
        int fail = sim::chance(1, 8) ? int(s + 1) : 0, code = 0;
        VecWrite<C> f = { i, n, k, tok, fail };
        faults.maybe();
        Outcome o = attempt("callback", [&] { try { t.v->callback(f); } catch (const UserFailure& e) { code = e.code; } });
        if (o == THREW) unexpected("writing by callback");
        if (o == OK && code != fail) sim::fail("lost-error", "the error of the user's functor did not reach the caller");
        for (size_t j = 0; j < n; ++j) {
            typename M::Elem now = t.m.e[i + j];
            for (int q = 0; q < M::NM; ++q) if (k < 0 || k == q) now.t[q] = tok + j;
            if (o == OK) t.m.e[i + j] = now; else adopt_members(s, i + j, now, "callback");
        }
    }
    void create_refused()
    {
        size_t n = max_line<C>() < 1000 ? max_line<C>() + 1 + sim::choose(3) : size_t(1) << 40;
        sim::event("vector(%zu) refused?", n);
        void *mem = sim::heap_alloc(sizeof(Vec));
        Outcome o = attempt("construct vector", [&] { Vec *v = new (mem) Vec(n); v->~Vec(); });
        sim::heap_free(mem);
        if (o == OK) sim::fail("not-refused", "vector of unsupported size %zu was created", n);
    }
    void step()
    {
        size_t op = sim::weighted(w, OPS);
        int a = pick_alive(), b;
        if (a < 0) { create(pick_dead(), -1); return; }
        switch (op) {
        case 0: if ((b = pick_dead()) >= 0) create(b, -1); break;
        case 1: if ((b = pick_dead()) >= 0) create(b, a); break;
        case 2: destroy(a); break;
        case 3: assign(a, pick_alive()); break;
        case 4: swap(a, pick_alive()); break;
        case 5: set(a); break;
        case 6: get(a); break;
        case 7: { size_t n = sim::choose(2) ? 1 : 1 + sim::choose(scale() ? 300 : 20); while (n-- && slot[a].v) push(a); break; }
        case 8: pop(a); break;
        case 9: resize(a, false); break;
        case 10: resize(a, true); break;
        case 11: clear(a); break;
        case 12: callback(a); break;
        case 13: if (refusals) create_refused(); break;
        }
    }
    void check_all(const char *when, bool content)
    {
        for (int i = 0; i < SLOTS; ++i) if (slot[i].v) { check_shape(i, when); if (content) check_content(i, when); }
    }
    void default_weights()
    {
        static const unsigned base[OPS] = { 5, 4, 3, 5, 3, 6, 4, 12, 6, 6, 5, 3, 5, 2 };
        for (int i = 0; i < OPS; ++i) w[i] = base[i] * (sim::chance(1, 6) ? 0 : sim::chance(1, 6) ? 4 : 1);
        w[7] = w[7] ? w[7] : base[7];
    }
    void run(size_t steps)
    {
        create(0, -1);
        for (size_t i = 0; i < steps; ++i) {
            step();
            check_all("operation", sim::chance(1, 2) || i + 1 == steps);
        }
        check_all("history", true);
        finish();
    }
    void finish()
    {
        for (int i = 0; i < SLOTS; ++i) if (slot[i].v) destroy(i);
        sim::check_no_probes("all vectors destroyed");
        sim::check_no_leaks("all vectors destroyed");
    }
};

// ---------------------------------------------------------------- fixed capacity arrays
template<typename C> struct AnyArray
{
    SeqModel<C> m;
    int cap;
    AnyArray() : cap(0) {}
    virtual ~AnyArray() {}
};
template<typename C, int N1, int N2, int N3> class ArrayMachine
{
public:
    typedef SeqModel<C> M;
    static const int SLOTS = 6;      // two per capacity
    static const int OPS = 14;
    struct Slot { void *a; int cap; M m; Slot() : a(0), cap(0) {} } slot[SLOTS];
    uint64_t next_tok;
    Faults faults;
    bool refusals;
    unsigned w[OPS];
    template<int N> struct Arr { typedef LibFlatArray::soa_array<C, N> type; };

    ArrayMachine() : next_tok(1), refusals(true) { for (int i = 0; i < SLOTS; ++i) slot[i].cap = i / 2 == 0 ? N1 : i / 2 == 1 ? N2 : N3; }
    uint64_t fresh(size_t n = 1) { uint64_t t = next_tok; next_tok += n; return t; }
    int pick_alive() { int a[SLOTS], n = 0; for (int i = 0; i < SLOTS; ++i) if (slot[i].a) a[n++] = i; return n ? a[sim::choose(n)] : -1; }
    int pick_dead() { int a[SLOTS], n = 0; for (int i = 0; i < SLOTS; ++i) if (!slot[i].a) a[n++] = i; return n ? a[sim::choose(n)] : -1; }
    void unexpected(const char *op) { sim::fail("unexpected-error", "%s failed although nothing went wrong", op); }

    // calls f with the array of slot s
    template<typename F> void on(int s, const F& f)
    {
        switch (s / 2) {
        case 0: f(*static_cast<typename Arr<N1>::type*>(slot[s].a)); break;
        case 1: f(*static_cast<typename Arr<N2>::type*>(slot[s].a)); break;
        default: f(*static_cast<typename Arr<N3>::type*>(slot[s].a)); break;
        }
    }
    template<typename T> static const T& constant(T& t) { return t; }

    void check_shape(int s, const char *when)
    {
        size_t n = 0, c = 0, b = 0;
        on(s, [&](auto& a) { sim::LibOp op("size"); n = constant(a).size(); c = constant(a).capacity(); b = constant(a).byte_size(); });
        if (n != slot[s].m.size()) sim::fail("wrong-size", "after %s a%d has size %zu, expected %zu", when, s, n, slot[s].m.size());
        if (c != size_t(slot[s].cap)) sim::fail("wrong-capacity", "after %s a%d has capacity %zu, expected %d", when, s, c, slot[s].cap);
        if (b != n * LibFlatArray::aggregated_member_size<C>::VALUE) sim::fail("wrong-size", "after %s a%d of size %zu has byte size %zu", when, s, n, b);
    }
    void check_content(int s, const char *when)
    {
        M& m = slot[s].m;
        size_t route = sim::choose(3);
        on(s, [&](auto& a) {
            if (route == 0) {
                for (size_t i = 0; i < m.size(); ++i) {
                    bool ok;
                    { sim::LibOp op("operator[]"); C c = constant(a)[int(i)]; sim::Outside o; ok = eq_cell(c, m.e[i].t); }
                    if (!ok) sim::fail("wrong-content", "after %s element %zu of %zu in a%d differs from the model", when, i, m.size(), s);
                }
            } else {
                size_t i = 0;
                sim::LibOp op("iterate");
                auto e = a.end();
                for (auto it = a.begin(); it != e; ++it, ++i) {
                    if (i >= m.size()) sim::fail("wrong-size", "after %s iterating a%d does not stop after %zu elements", when, s, m.size());
                    bool ok = true;
                    if (route == 1) { C c = it; sim::Outside o; ok = eq_cell(c, m.e[i].t); }
                    else for (int k = 0; k < M::NM; ++k) ok = ok && eq_acc<C>(it, k, m.e[i].t[k]);
                    if (!ok) sim::fail("wrong-content", "after %s element %zu of %zu in a%d differs from the model", when, i, m.size(), s);
                }
                if (i != m.size()) sim::fail("wrong-size", "after %s iterating a%d stops after %zu of %zu elements", when, s, i, m.size());
            }
        });
    }
    void adopt(int s, size_t i, const std::vector<uint64_t>& may, const char *when)
    {
        M& m = slot[s].m;
        on(s, [&](auto& a) {
            sim::LibOp op("at");
            C c = constant(a).at(i);
            sim::Outside o;
            for (int k = 0; k < M::NM; ++k) {
                bool ok = false;
                for (size_t j = 0; j < may.size() && !ok; ++j) if (eq_member(c, k, may[j])) { m.e[i].t[k] = may[j]; ok = true; }
                if (!ok) sim::fail("wrong-content", "after %s member %d of element %zu of a%d holds a value it never had", when, k, i, s);
            }
        });
    }
    void adopt_members(int s, size_t i, const typename M::Elem& now, const char *when)
    {
        M& m = slot[s].m;
        on(s, [&](auto& a) {
            sim::LibOp op("at");
            C c = constant(a).at(i);
            sim::Outside o;
            for (int k = 0; k < M::NM; ++k) {
                if (eq_member(c, k, m.e[i].t[k])) continue;
                if (eq_member(c, k, now.t[k])) { m.e[i].t[k] = now.t[k]; continue; }
                sim::fail("wrong-content", "after failed %s element %zu of a%d holds neither the old nor the new value", when, i, s);
            }
        });
    }
    // elements written by an operation that failed half way
    void partly(int s, size_t at, const std::vector<typename M::Elem>& now, const char *when)
    {
        M& m = slot[s].m;
        check_shape(s, when);
        for (size_t i = 0; i < now.size(); ++i) {
            if (at + i < m.size()) adopt_members(s, at + i, now[i], when);
            else m.remember(at + i, now[i]);
        }
    }
    template<int N> void make(int s, int kind, size_t n, const C& c, int from, Outcome& o)
    {
        typedef typename Arr<N>::type A;
        Slot& t = slot[s];
        void *mem = sim::heap_alloc(sizeof(A));
        o = attempt("construct array", [&] {
            switch (kind) {
            case 0: t.a = new (mem) A(); break;
            case 1: t.a = new (mem) A(n); break;
            case 2: t.a = new (mem) A(n, c); break;
            case 3: on(from, [&](auto& f) { t.a = new (mem) A(f); }); break;
            default: on(from, [&](auto& f) { t.a = new (mem) A(constant(f)); }); break;
            }
        });
        if (o != OK) { t.a = 0; sim::heap_free(mem); }
    }
    void create(int s, int from)
    {
        Slot& t = slot[s];
        int kind = from >= 0 ? 3 + int(sim::choose(2)) : int(sim::choose(3));
        size_t n = kind == 0 ? 0 : sim::range(0, t.cap);
        bool refuse = false;
        if (kind >= 3) refuse = slot[from].m.size() > size_t(t.cap);
        else if (kind > 0 && refusals && sim::chance(1, 10)) { static const size_t huge[] = { ~size_t(0), size_t(1) << 32, size_t(1) << 31, size_t(1) << 63 }; n = sim::choose(2) ? t.cap + 1 + sim::choose(4) : sim::pick(huge); refuse = true; }
        uint64_t tok = fresh();
        if (refuse && !refusals) return;
        if (kind >= 3) sim::event("a%d<%d> = copy of a%d", s, t.cap, from); else sim::event("a%d<%d> = array%d(%zu) tok %llu", s, t.cap, kind, n, (unsigned long long)tok);
        C c = make_cell<C>(tok);
        if (!refuse) faults.maybe();
        Outcome o = OK;
        switch (s / 2) {
        case 0: make<N1>(s, kind, n, c, from, o); break;
        case 1: make<N2>(s, kind, n, c, from, o); break;
        default: make<N3>(s, kind, n, c, from, o); break;
        }
        if (refuse) { if (o == OK) sim::fail("not-refused", "array of capacity %d was created with too many elements", t.cap); sim::count("reach.create_refused"); check_refusal_kept_memory("create"); return; }
        if (o == THREW) unexpected("creating an array");
        if (o == FAULTED) { sim::count("reach.create_failed"); return; }
        t.m = M();
        if (kind >= 3) t.m.e = slot[from].m.e;
        else for (size_t i = 0; i < n; ++i) t.m.push(kind == 2 ? tok : 0);
        if (kind >= 3) leftovers_from(t.m, slot[from].m);
    }
    // copying need not, but may copy elements beyond the size
    void leftovers_from(M& t, const M& f)
    {
        for (size_t i = t.size(); i < f.left.size(); ++i) for (size_t j = 0; j < f.left[i].size(); ++j) t.remember(i, M::make(f.left[i][j]));
    }
    void destroy(int s)
    {
        sim::event("destroy a%d", s);
        Outcome o = attempt("destroy array", [&] { on(s, [&](auto& a) { typedef typename std::remove_reference<decltype(a)>::type A; a.~A(); }); });
        if (o != OK) unexpected("destroying an array");
        sim::heap_free(slot[s].a);
        slot[s].a = 0;
        slot[s].m = M();
    }
    void assign(int s, int from)
    {
        bool refuse = slot[from].m.size() > size_t(slot[s].cap);
        if (refuse && !refusals) return;
        bool con = sim::choose(2) != 0;
        sim::event("a%d = %sa%d", s, con ? "const " : "", from);
        if (!refuse) faults.maybe();
        Outcome o = attempt("assign array", [&] { on(s, [&](auto& a) { on(from, [&](auto& b) { if (con) a = constant(b); else a = b; }); }); });
        if (refuse) { if (o == OK) sim::fail("not-refused", "assigning %zu elements to an array of capacity %d was accepted", slot[from].m.size(), slot[s].cap); sim::count("reach.assign_refused"); check_refusal_kept_memory("assign"); return; }
        if (o == THREW) unexpected("assigning an array");
        if (o == FAULTED) { sim::count("reach.assign_failed"); partly(s, 0, slot[from].m.e, "failed assignment"); return; }
        if (s == from) return;
        slot[s].m.shrink(slot[from].m.size());
        slot[s].m.e = slot[from].m.e;
        leftovers_from(slot[s].m, slot[from].m);
    }
    void swap(int a)
    {
        int b = a ^ 1;
        if (!slot[b].a) return;
        if (sim::chance(1, 8)) b = a;
        sim::event("swap a%d a%d", a, b);
        Unlimited plenty;
        Outcome o = attempt("swap arrays", [&] {
            on(a, [&](auto& x) { typedef typename std::remove_reference<decltype(x)>::type A; using std::swap; swap(x, *static_cast<A*>(slot[b].a)); });
        });
        if (o != OK) unexpected("swapping arrays");
        if (a == b) return;
        // leftovers may or may not be swapped
        M x = slot[a].m, y = slot[b].m;
        slot[a].m.shrink(0); slot[b].m.shrink(0);
        M lx = slot[a].m, ly = slot[b].m;
        slot[a].m.e = y.e; slot[b].m.e = x.e;
        leftovers_from(slot[a].m, ly); leftovers_from(slot[b].m, lx);
    }
    void write(int s)
    {
        M& m = slot[s].m;
        if (!m.size()) return;
        size_t i = sim::choose(m.size());
        size_t how = sim::choose(5);
        int k = how == 4 ? int(sim::choose(M::NM)) : -1;
        uint64_t tok = fresh();
        if (how == 3) i = m.size() - 1;
        sim::event("a%d.write%zu(%zu) member %d tok %llu", s, how, i, k, (unsigned long long)tok);
        C c = make_cell<C>(tok);
        faults.maybe();
        Outcome o = attempt("write element", [&] { on(s, [&](auto& a) {
            switch (how) {
            case 0: a[int(i)] = c; break;
            case 1: a.at(i) << c; break;
            case 2: { auto it = a.begin(); it += long(i); it << c; break; }
            case 3: a.back() = c; break;
            default: { auto x = a.at(int(i)); put_acc<C>(x, k, tok); }
            }
        }); });
        if (o == THREW) unexpected("writing an element");
        typename M::Elem now = m.e[i];
        for (int q = 0; q < M::NM; ++q) if (k < 0 || k == q) now.t[q] = tok;
        if (o == OK) m.e[i] = now; else { sim::count("reach.write_failed"); adopt_members(s, i, now, "write"); }
    }
    void read(int s)
    {
        M& m = slot[s].m;
        if (!m.size()) return;
        size_t i = sim::choose(m.size()), how = sim::choose(4);
        if (how == 3) i = m.size() - 1;
        sim::event("a%d.read%zu(%zu)", s, how, i);
        bool ok = true;
        faults.maybe();
        Outcome o = attempt("read element", [&] { on(s, [&](auto& a) {
            if (how == 0) { C c = a[int(i)]; sim::Outside out; ok = eq_cell(c, m.e[i].t); }
            else if (how == 1) { C c; constant(a).at(i) >> c; sim::Outside out; ok = eq_cell(c, m.e[i].t); }
            else if (how == 2) { C c = constant(a).at(int(i)); sim::Outside out; ok = eq_cell(c, m.e[i].t); }
            else { C c; a.back() >> c; sim::Outside out; ok = eq_cell(c, m.e[i].t); }
        }); });
        if (o == THREW) unexpected("reading an element");
        if (o == OK && !ok) sim::fail("wrong-content", "reading element %zu of a%d (route %zu) returned a wrong value", i, s, how);
    }
    void push(int s)
    {
        M& m = slot[s].m;
        bool refuse = m.size() == size_t(slot[s].cap);
        if (refuse && !refusals) return;
        uint64_t tok = fresh();
        bool shift = sim::choose(2) != 0;
        sim::event("a%d.%s tok %llu%s", s, shift ? "<<" : "push_back", (unsigned long long)tok, refuse ? " refused?" : "");
        C c = make_cell<C>(tok);
        if (!refuse) faults.maybe();
        Outcome o = attempt("append", [&] { on(s, [&](auto& a) { if (shift) a << c; else a.push_back(c); }); });
        if (refuse) { if (o == OK) sim::fail("not-refused", "appending to the full array a%d was accepted", s); sim::count("reach.push_refused"); check_refusal_kept_memory("push"); return; }
        if (o == THREW) unexpected("appending");
        if (o == OK) m.push(tok); else { sim::count("reach.push_failed"); m.remember(m.size(), M::make(tok)); }
    }
    void pop(int s)
    {
        M& m = slot[s].m;
        bool refuse = m.size() == 0;
        if (refuse && !refusals) return;
        sim::event("a%d.pop_back%s", s, refuse ? " refused?" : "");
        if (!refuse) faults.maybe();
        Outcome o = attempt("pop_back", [&] { on(s, [&](auto& a) { a.pop_back(); }); });
        if (refuse) { if (o == OK) sim::fail("not-refused", "popping from the empty array a%d was accepted", s); sim::count("reach.pop_refused"); check_refusal_kept_memory("pop"); return; }
        if (o == THREW) unexpected("popping");
        if (o == OK) m.pop(); else { check_shape(s, "failed pop_back"); adopt_members(s, m.size() - 1, M::make(0), "pop_back"); }
    }
    void clear(int s)
    {
        sim::event("a%d.clear", s);
        if (attempt("clear", [&] { on(s, [&](auto& a) { a.clear(); }); }) != OK) unexpected("clearing");
        slot[s].m.shrink(0);
    }
    void load(int s, int from)
    {
        M &m = slot[s].m, &f = slot[from].m;
        if (!f.size() && sim::chance(3, 4)) return;
        size_t src = f.size() ? sim::choose(f.size()) : 0, n = f.size() ? 1 + sim::choose(f.size() - src) : 0;
        bool with_offset = sim::choose(2) != 0;
        size_t off = with_offset ? sim::range(0, slot[s].cap) : m.size();
        if (with_offset && refusals && sim::chance(1, 12)) { static const size_t huge[] = { ~size_t(0), size_t(1) << 63, ~size_t(0) - 3, size_t(1) << 32 }; off = sim::pick(huge); }
        bool refuse = off > size_t(slot[s].cap) || n > size_t(slot[s].cap) - off;
        if (refuse && !refusals) return;
        if (s == from && !refuse && off < src + n && src < off + n) return;
        sim::event("a%d.load(a%d at %zu, %zu%s%s)%s", s, from, src, n, with_offset ? ", offset " : "", with_offset ? std::to_string(off).c_str() : "", refuse ? " refused?" : "");
        std::vector<typename M::Elem> now(f.e.begin() + src, f.e.begin() + src + n);
        if (!refuse) faults.maybe();
        Outcome o = attempt("load", [&] { on(s, [&](auto& a) { on(from, [&](auto& b) {
            auto acc = b.at(src);
            if (with_offset) a.load(acc, n, off); else a.load(acc, n);
        }); }); });
        if (refuse) { if (o == OK) sim::fail("not-refused", "loading %zu elements at %zu into a%d of capacity %d was accepted", n, off, s, slot[s].cap); sim::count("reach.load_refused"); check_refusal_kept_memory("load"); return; }
        if (o == THREW) unexpected("loading");
        if (o == FAULTED) { sim::count("reach.load_failed"); partly(s, off, now, "failed load"); return; }
        size_t before = m.size();
        while (m.size() < off + n) {
            size_t i = m.size();
            std::vector<uint64_t> may(1, 0);
            if (i < m.left.size()) may.insert(may.end(), m.left[i].begin(), m.left[i].end());
            m.push(0);
            if (i < off) { sim::count("reach.load_gap"); adopt(s, i, may, "load behind the end"); }
        }
        (void)before;
        for (size_t i = 0; i < n; ++i) m.e[off + i] = now[i];
    }
    void step()
    {
        size_t op = sim::weighted(w, OPS);
        int a = pick_alive(), b;
        if (a < 0) { create(pick_dead(), -1); return; }
        switch (op) {
        case 0: if ((b = pick_dead()) >= 0) create(b, -1); break;
        case 1: if ((b = pick_dead()) >= 0) create(b, a); break;
        case 2: destroy(a); break;
        case 3: assign(a, pick_alive()); break;
        case 4: swap(a); break;
        case 5: write(a); break;
        case 6: read(a); break;
        case 7: { size_t n = sim::choose(2) ? 1 : 1 + sim::choose(slot[a].cap + 1); while (n--) push(a); break; }
        case 8: pop(a); break;
        case 9: clear(a); break;
        case 10: load(a, pick_alive()); break;
        }
    }
    void check_all(const char *when, bool content)
    {
        for (int i = 0; i < SLOTS; ++i) if (slot[i].a) { check_shape(i, when); if (content) check_content(i, when); }
    }
    void default_weights()
    {
        static const unsigned base[OPS] = { 6, 6, 3, 6, 4, 6, 3, 8, 5, 2, 8 };
        for (int i = 0; i < OPS; ++i) w[i] = base[i] * (sim::chance(1, 6) ? 0 : sim::chance(1, 6) ? 4 : 1);
        w[0] = base[0];
        w[7] = w[7] ? w[7] : base[7];
    }
    void run(size_t steps)
    {
        create(pick_dead(), -1);
        for (size_t i = 0; i < steps; ++i) {
            step();
            check_all("operation", sim::chance(1, 2) || i + 1 == steps);
        }
        check_all("history", true);
        finish();
    }
    void finish()
    {
        for (int i = 0; i < SLOTS; ++i) if (slot[i].a) destroy(i);
        sim::check_no_probes("all arrays destroyed");
        sim::check_no_leaks("all arrays destroyed");
    }
};

template<typename MACHINE> void run_sequence_history(const char *what, const char *cell, bool alloc, bool member, unsigned max_steps)
{
    MACHINE *m = new MACHINE();
    m->default_weights();
    sim::event("%s history, cell type %s", what, cell);
    if (sim::chance(2, 3)) {
        m->faults.alloc = alloc;
        m->faults.ctor = m->faults.copy = member;
        m->faults.den = unsigned(sim::range(2, 8));
    }
    if (alloc && sim::chance(1, 8)) { operation_memory() = sim::range(4, 400) * 1024; sim::event("memory limited"); sim::count("fault.memory_limited_run"); }
    sim::mark_nontrivial();
    m->run(sim::range(3, scale() == 2 ? 6 : max_steps));
    delete m;
}
template<typename C> void run_vector_history(bool alloc, bool member, unsigned max_steps)
{ run_sequence_history<VectorMachine<C> >("vector", Traits<C>::name(), alloc, member, max_steps); }
template<typename C, int N1, int N2, int N3> void run_array_history(bool alloc, bool member, unsigned max_steps)
{ run_sequence_history<ArrayMachine<C, N1, N2, N3> >("array", Traits<C>::name(), alloc, member, max_steps); }
#endif
