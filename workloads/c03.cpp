// C03: vectorised sweeps by several threads equal the sequential scalar update
#include "../engine/sim.h"
#include <libflatarray/flat_array.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <vector>
#include <type_traits>

#define CUSTOM public LibFlatArray::api_traits::has_custom_sizes
struct SwA { struct API : CUSTOM { LIBFLATARRAY_CUSTOM_SIZES((64)(96)(320), (5), (4)) }; double u; float f; int i; SwA() : u(0), f(0), i(0) {} };
struct SwB { struct API : CUSTOM { LIBFLATARRAY_CUSTOM_SIZES((40)(104), (1)(7), (1)) }; char c; float f; double u; int i; SwB() : c(0), f(0), u(0), i(0) {} };

LIBFLATARRAY_REGISTER_SOA(SwA, ((double)(u))((float)(f))((int)(i)))
LIBFLATARRAY_REGISTER_SOA(SwB, ((char)(c))((float)(f))((double)(u))((int)(i)))

template<typename C> struct Info;
template<> struct Info<SwA> { enum { ALIGNED = 1, MAXX = 96, MAXY = 5, MAXZ = 4 }; static const char *name() { return "SwA"; } };
template<> struct Info<SwB> { enum { ALIGNED = 0, MAXX = 104, MAXY = 7, MAXZ = 1 }; static const char *name() { return "SwB"; } };

template<typename T> struct Mem;
template<> struct Mem<double> { template<typename A> static auto& of(A&& a) { return a.u(); } template<typename C> static double& in(C& c) { return c.u; } static const char *name() { return "double"; } };
template<> struct Mem<float>  { template<typename A> static auto& of(A&& a) { return a.f(); } template<typename C> static float&  in(C& c) { return c.f; } static const char *name() { return "float"; } };
template<> struct Mem<int>    { template<typename A> static auto& of(A&& a) { return a.i(); } template<typename C> static int&    in(C& c) { return c.i; } static const char *name() { return "int"; } };

// ---------------------------------------------------------------- the update, packed and scalar
template<typename T> struct Calc
{
    enum { KINDS = 10 };
    template<typename V> static void vec(int k, V& r, const V& c, const V& w, const V& e, const V& n, const V& s, T f, size_t& hits)
    {
        using LibFlatArray::sqrt;
        switch (k) {
        case 5: { r = V(f - c); r *= V(f * w); r += V(f + e); V q = V(n); divide_by(q, s); r -= q; break; }   // scalar operands, compound division
        case 6: { V q = V(w * w + e * e); r = V(sqrt(V(n * n))); r += V(sqrt(q)); over_root(r, c, q); break; }
        case 7: { typename V::mask_type m = (w < e); r = LibFlatArray::blend(V(c - s), n, m); hits += LibFlatArray::count_mask<T, V::ARITY>(m);
                  typename V::mask_type m2 = (c >= n); for (int i = 0; i < int(V::ARITY); ++i) if (LibFlatArray::get(m2, i)) hits += 1000; 
                  for (int i = 0; i < int(V::ARITY); ++i) if (LibFlatArray::get(s, i) > T(1)) hits += 1000000; break; }
        case 8: { V d, v; moderate(d, n); moderate(v, c); V q = V(v / d), p = v; p /= d; r = w; close(r, q, d, v, s); close(r, p, d, v, e); break; }   // approximate division
        case 9: { V d, v; moderate(d, s); moderate(v, w); V dd = V(d * d); d = V(sqrt(dd)); V q = V(v / sqrt(dd)), p = v; p /= sqrt(dd); r = c; close(r, q, d, v, n); close(r, p, d, v, e); break; }
        case 0: r = V(w + e); r += n; r += s; r *= V(f); break;
        case 1: r = V(c * V(f)); r -= V(w * e); r = V(r + n - s); break;
        case 2: r = V(c); divide(r, n); divide(r, V(w - e)); r *= s; break;
        case 3: { r = V(c - w); typename V::mask_type m = (w < n); V z(T(0)); if (LibFlatArray::any(z)) hits += 1000000000; z.blend(m, V(T(2))); if (LibFlatArray::any(z)) r.blend(m, V(e * V(f)));
                  typename V::mask_type none = (c < c); if (LibFlatArray::any(none)) hits += 1000000000;
                  typename V::mask_type m2 = (s >= c); if (LibFlatArray::any(m2)) { r.blend(m2, n); } break; }
        default: { V q = V(w * w + e * e); r = V(q.sqrt()); r -= s; r += V(c); typename V::mask_type m = (n == s); r.blend(m, c);
                   typename V::mask_type m2 = (w > e); r.blend(m2, q); typename V::mask_type m3 = (c <= s); if (LibFlatArray::any(m3)) r.blend(m3, n); break; }
        }
    }
    static T ref(int k, T c, T w, T e, T n, T s, T f, size_t& hits)
    {
        volatile T r, q;
        switch (k) {
        case 5: { volatile T p = f * w, o = f + e; r = f - c; r = r * p; r = r + o; q = exact() ? n / s : n - s; r = r - q; break; }
        case 6: { volatile T a = w * w, b = e * e, p = n * n; q = a + b; r = std::sqrt(T(p)); r = r + std::sqrt(T(q));
                  if (exact()) { volatile T root = std::sqrt(T(q)); p = c / root; r = r - p; a = r; r = a / root; } break; }
        case 7: r = c - s; if (w < e) { r = n; ++hits; } if (c >= n) hits += 1000; if (s > T(1)) hits += 1000000; break;
        case 8: r = e; break;
        case 9: r = e; break;
        case 0: r = w + e; r = r + n; r = r + s; r = r * f; break;
        case 1: r = c * f; q = w * e; r = r - q; r = r + n; r = r - s; break;
        case 2: q = w - e; r = exact() ? c / n : c - n; r = exact() ? r / q : r - q; r = r * s; break;
        case 3: r = c - w; if (w < n) r = e * f; if (s >= c) r = n; break;
        default: { volatile T a = w * w, b = e * e; q = a + b; r = std::sqrt(T(q)); r = r - s; r = r + c; if (n == s) r = c; if (w > e) r = q; if (c <= s) r = n; break; }
        }
        return r;
    }
    // single precision division is approximate by design on AVX and above
    static bool exact() { return sizeof(T) == 8; }
    // single precision quotients are approximations: operands of moderate size, and the quotient only decides whether a value is taken
    template<typename V> static void moderate(V& d, const V& n)
    {
        V sq = V(n * n);
        d = V(T(1.5)); typename V::mask_type big = (sq > V(T(1e-6))); d.blend(big, n); typename V::mask_type huge = (sq > V(T(1e12))); d.blend(huge, V(T(-2.25)));
    }
    template<typename V> static void close(V& r, const V& q, const V& d, const V& v, const V& yes)
    {
        V err = V(q * d - v), tol = V(v * v * V(T(1e-6)));
        err *= err;
        typename V::mask_type ok = (err < tol); r.blend(ok, yes);
    }
    template<typename V> static void divide_by(V& r, const V& n) { if (exact()) r /= n; else r -= n; }
    template<typename V> static void over_root(V& r, const V& c, const V& q) { if (exact()) { using LibFlatArray::sqrt; r -= V(c / sqrt(q)); r /= sqrt(q); } }
    template<typename V> static void divide(V& r, const V& n) { if (exact()) r = V(r / n); else r -= n; }
    static T value(uint64_t h)
    {
        switch (h & 63) {
        case 0: return T(0);
        case 1: return -T(0);
        case 2: return std::numeric_limits<T>::infinity();
        case 3: return -std::numeric_limits<T>::infinity();
        case 4: return std::numeric_limits<T>::quiet_NaN();
        case 5: return std::numeric_limits<T>::denorm_min() * T(h >> 50);
        case 6: return std::numeric_limits<T>::max();
        case 7: case 8: return T(1);
        default: return (h & 192) == 0 ? T(int64_t(h >> 20) % 5 - 2) : T(int64_t(h >> 20) % 100003 - 50000) / T(64);   // ties are frequent
        }
    }
    static bool same(T a, T b) { return (a != a && b != b) || std::memcmp(&a, &b, sizeof(T)) == 0; }
};
template<> struct Calc<int>
{
    enum { KINDS = 7 };
    template<typename V> static void vec(int k, V& r, const V& c, const V& w, const V& e, const V& n, const V& s, int f, size_t& hits)
    {
        using LibFlatArray::sqrt;
        switch (k) {
        case 0: r = V(w + e); r += n; r += s; r *= V(f); break;
        case 1: r = V(c * V(f)); r -= V(w * e); r = V(r + n - s); break;
        case 2: r = V(c - w); r *= V(e + n); r += s; break;
        // magnitudes below 2^24, see the property
        case 3: { r = V(c * n); r /= V(f); V q = V(w * e); q /= V(s * s + 1); r += q; break; }
        case 4: { r = V((f * c) / V(5)); r -= V(V(w * n) / V(e * e + V(3))); r += V(V(f) - s); break; }
        case 5: {
            V b = V(w * w + e * e + V(1)), v = V(n * s), q = V(v / sqrt(b)), p = v; p /= sqrt(b);
            int lb[V::ARITY], lv[V::ARITY], lq[V::ARITY], lp[V::ARITY];
            b.store(lb); v.store(lv); q.store(lq); p.store(lp);
            for (int i = 0; i < int(V::ARITY); ++i) { hits += near_quotient(lq[i], lv[i], lb[i]); hits += near_quotient(lp[i], lv[i], lb[i]); }
            r = V(c - w); break;
        }
        default: { V q = V(w * w + e * e); r = V(q.sqrt()); r += V(sqrt(V(n * n + s * s))); r -= c; break; }
        }
    }
    // either the real quotient, approximately, or the quotient by the truncated root
    static bool near_quotient(int q, int v, int b)
    {
        double root = std::sqrt(double(b)), t = v / root;
        return std::fabs(q - t) <= 1 + std::fabs(t) * 1e-3 || q == v / int(root);
    }
    static int ref(int k, int c, int w, int e, int n, int s, int f, size_t& hits)
    {
        switch (k) {
        case 0: return (w + e + n + s) * f;
        case 1: return c * f - w * e + n - s;
        case 2: return (c - w) * (e + n) + s;
        case 3: return c * n / f + w * e / (s * s + 1);
        case 4: return f * c / 5 - w * n / (e * e + 3) + (f - s);
        case 5: hits += 2; return c - w;
        default: return int(std::sqrt(double(w * w + e * e))) + int(std::sqrt(double(n * n + s * s))) - c;
        }
    }
    static int value(uint64_t h) { return (h & 3) == 0 ? int((h >> 20) % 5) - 2 : int((h >> 20) % 2001) - 1000; }      // small enough to never overflow within one step
    static bool same(int a, int b) { return a == b; }
};
inline int small_again(int v) { return v % 1000; }

// ---------------------------------------------------------------- one segment of one row
struct Seg { size_t y, z, b, e; };
struct Job
{
    Seg seg; int cargo, arity, style, load, store, kind; bool streaming; int gather; int mirror; int odd; long base; mutable size_t hits;
};
// where a gathered value comes from, as an offset from the start of the row
inline long gathered(const Job& j, long x, long width, long dim_x)
{
    switch (j.gather) {
    case 0: return x;
    case 1: return width - 1 - x;
    case 2: return (x * 7 + 3) % width;
    case 3: return x / 3;
    default: return (j.seg.y ? -dim_x : 0) + x * 2 % width;
    }
}
inline long scattered(const Job& j, long x)
{
    if (!j.mirror || j.streaming || j.store != 4) return x;
    if (j.mirror == 1) return long(j.seg.b + j.seg.e) - 1 - x;
    return long(j.seg.b) + (x - long(j.seg.b)) * 3 / 4;                  // some targets repeat: the last one stays
}
// neighbours available in a grid of the given shape
struct Shape { bool y, z; size_t width; };

template<typename V, typename T, bool STREAM> struct Store
{
    static void put(T *p, V& r, int how, T *row, size_t x, bool aligned, const Job *job = 0)
    {
        switch (how) {
        case 0: p << r; break;
        case 1: r.store(p); break;
        case 2: if (aligned) r.store_aligned(p); else r.store(p); break;
        case 3: if (aligned) r.store_nt(p); else p << r; break;
        default: {
            alignas(64) int room[V::ARITY + 1];
            int *o = room + (job ? job->odd : 0);          // lists of offsets are not aligned
            for (size_t j = 0; j < V::ARITY; ++j) o[j] = int(job ? scattered(*job, long(x + j)) : long(x + j));
            r.scatter(row, o);
        }
        }
    }
};
template<typename V, typename T> struct Store<V, T, true>
{
    static void put(T *p, V& r, int how, T*, size_t, bool, const Job* = 0) { if (how == 0) p << r; else if (how == 1) r.store(p); else r.store_aligned(p); }
};

template<typename T, bool STREAM> struct Kernel
{
    template<typename V, size_t... I> static V listed(const T *p, std::index_sequence<I...>) { return V(std::initializer_list<T>{ p[I]... }); }
    template<typename V, typename A1, typename A2>
    static void cell(A1& a, A2& b, size_t x, const Job& j, Shape sh, T f)
    {
        using LibFlatArray::coord;
        bool aligned = A1::DIM_X % 32 == 0 && x % V::ARITY == 0;
        V c, w(&Mem<T>::of(a[coord<-1, 0, 0>()])), e(&Mem<T>::of(a[coord<1, 0, 0>()])), n, s, r;
        T *row = &Mem<T>::of(b) - x;
        const T *src = &Mem<T>::of(a);
        switch (j.load) {
        case 0: c = V(src); break;
        case 1: c.load(src); break;
        case 2: if (aligned && Info<SwA>::ALIGNED) c.load_aligned(src); else c.load(src); break;
        case 4: c = listed<V>(src, std::make_index_sequence<V::ARITY>()); break;
        default: {
            alignas(64) int room[V::ARITY + 1];
            int *o = room + j.odd;
            for (size_t q = 0; q < V::ARITY; ++q) o[q] = int(gathered(j, long(x + q), long(sh.width), long(A1::DIM_X)));
            c.gather(src - x, o);
        }
        }
        if (sh.y) {
            n = V(&Mem<T>::of(a[coord<0, -1, 0>()]));
            if (sh.z) s = V(&Mem<T>::of(a[coord<1, 1, -1>()]));
            else s = V(&Mem<T>::of(a[coord<-1, 1, 0>()]));
        } else {
            n = V(&Mem<T>::of(a[coord<-1, 0, 0>()]));
            s = V(&Mem<T>::of(a[coord<1, 0, 0>()]));
        }
        if (sh.z) w = V(&Mem<T>::of(a[coord<0, 0, 1>()]));
        Calc<T>::template vec<V>(j.kind, r, c, w, e, n, s, f, j.hits);
        Store<V, T, STREAM>::put(&Mem<T>::of(b), r, j.store, row, x, aligned && Info<SwA>::ALIGNED, &j);
    }
    // style 0: counter by reference, accessors moved along
    template<typename V, typename N, typename A1, typename A2>
    static void moved(N& x, N end, A1& a, A2& b, const Job& j, Shape sh, T f)
    {
        a.index() = A1::gen_index(long(x) - j.base, long(j.seg.y), long(j.seg.z));
        b.index() = A2::gen_index(long(x) - j.base, long(j.seg.y), long(j.seg.z));
        for (; x < end; x += N(V::ARITY)) { cell<V>(a, b, size_t(long(x) - j.base), j, sh, f); a += long(V::ARITY); b += long(V::ARITY); }
    }
    template<typename V> static void plain(int& x, int end, std::function<void(int, int, bool)>& f) { for (; x < end; x += int(V::ARITY)) f(x, int(V::ARITY), V::ARITY == 1); }

    template<size_t ARITY, typename A1, typename A2>
    static void run(A1& a, A2& b, const Job& j, Shape sh, T f)
    {
        typedef typename std::conditional<STREAM, LibFlatArray::streaming_short_vec<T, ARITY>, LibFlatArray::short_vec<T, ARITY> >::type V;
        switch (j.style) {
        case 0: {
            size_t x = j.seg.b, end = j.seg.e;
            size_t more = end % 5, less = end - more;
            if (j.load == 3) { size_t n = end - x; LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, size_t, x, x + n, moved, a, b, j, sh, f); }
            else if (j.load & 1) { LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, size_t, x, more + less, moved, a, b, j, sh, f); }
            else { LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, size_t, x, end, moved, a, b, j, sh, f); }
            if (x != std::max(j.seg.b, j.seg.e)) sim::fail("peeler", "counter ended at %zu, range was [%zu, %zu), arity %zu", x, j.seg.b, j.seg.e, ARITY);
            break;
        }
        case 1: {
            // the counter may start anywhere, e.g. count from the middle of the row
            int x = int(long(j.seg.b) + j.base), begin = x;
            int far = int(long(j.seg.e) + j.base), none = 0;
            LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, int, x, far ? far : none, moved, a, b, j, sh, f);
            if (x != far) sim::fail("peeler", "counter ended at %d, range was [%d, %d), arity %zu", x, begin, far, ARITY);
            break;
        }
        case 2: {
            if (j.base) {
                long x = long(j.seg.b) + j.base, begin = x;
                int end = int(long(j.seg.e) + j.base);
                LibFlatArray::loop_peeler<V>(&x, end, [&](auto tag, long *i, int stop) {
                    typedef decltype(tag) W;
                    for (; *i < stop; *i += long(W::ARITY)) {
                        a.index() = A1::gen_index(*i - j.base, long(j.seg.y), long(j.seg.z));
                        b.index() = A2::gen_index(*i - j.base, long(j.seg.y), long(j.seg.z));
                        cell<W>(a, b, size_t(*i - j.base), j, sh, f);
                    }
                });
                if (x != end) sim::fail("peeler", "counter ended at %ld, range was [%ld, %d), arity %zu", x, begin, end, ARITY);
                break;
            }
            unsigned x = unsigned(j.seg.b);
            long end = long(j.seg.e);
            LibFlatArray::loop_peeler<V>(&x, end, [&](auto tag, unsigned *i, long stop) {
                typedef decltype(tag) W;
                for (; long(*i) < stop; *i += W::ARITY) {
                    a.index() = A1::gen_index(long(*i), long(j.seg.y), long(j.seg.z));
                    b.index() = A2::gen_index(long(*i), long(j.seg.y), long(j.seg.z));
                    cell<W>(a, b, *i, j, sh, f);
                }
            });
            if (x != j.seg.e) sim::fail("peeler", "counter ended at %u, range was [%zu, %zu), arity %zu", x, j.seg.b, j.seg.e, ARITY);
            break;
        }
        default: {                                        // the accessor's own index is the counter
            long row = A1::gen_index(0, long(j.seg.y), long(j.seg.z));
            a.index() = row + long(j.seg.b);
            long end = row + long(j.seg.e);
            LibFlatArray::loop_peeler<V>(&a.index(), end, [&](auto tag, long *i, long stop) {
                typedef decltype(tag) W;
                for (; *i < stop; *i += long(W::ARITY)) { b.index() = *i; cell<W>(a, b, size_t(*i - row), j, sh, f); }
            });
            if (a.index() != end) sim::fail("peeler", "index ended at %ld, range was [%ld, %ld), arity %zu", a.index(), row + long(j.seg.b), end, ARITY);
        }
        }
    }
    template<typename A1, typename A2> static void dispatch(A1& a, A2& b, const Job& j, Shape sh, T f)
    {
        switch (j.arity) {
        case 1:  run<1>(a, b, j, sh, f); break;
        case 2:  run<2>(a, b, j, sh, f); break;
        case 4:  run<4>(a, b, j, sh, f); break;
        case 8:  run<8>(a, b, j, sh, f); break;
        case 16: run<16>(a, b, j, sh, f); break;
        default: run<32>(a, b, j, sh, f); break;
        }
    }
};

template<typename T> T factor(int kind) { return T(kind == 1 ? 3 : 7) / T(4); }
template<> inline int factor<int>(int kind) { return kind == 1 ? 3 : 7; }

template<typename C, typename T> struct Sweep
{
    const std::vector<Job> *jobs; Shape sh;
    template<typename A1, typename A2> void operator()(A1& a, A2& b) const
    {
        for (size_t i = 0; i < jobs->size(); ++i) {
            const Job& j = (*jobs)[i];
            if (Info<C>::ALIGNED && j.streaming) Stream<Info<C>::ALIGNED>::go(a, b, j, sh);
            else Kernel<T, false>::dispatch(a, b, j, sh, factor<T>(j.kind));
        }
    }
    template<int OK, int DUMMY = 0> struct Stream
    {
        template<typename A1, typename A2> static void go(A1& a, A2& b, const Job& j, Shape sh) { Kernel<T, true>::dispatch(a, b, j, sh, factor<T>(j.kind)); }
    };
    template<int DUMMY> struct Stream<0, DUMMY> { template<typename A1, typename A2> static void go(A1&, A2&, const Job&, Shape) {} };
};

template<typename C> void sweep_of(int cargo, LibFlatArray::soa_grid<C> *from, LibFlatArray::soa_grid<C> *to, const std::vector<Job> *jobs, Shape sh);

// ---------------------------------------------------------------- whole simulation
#if PARTNO == 0
template<typename C> struct Bytes
{
    const size_t *d; std::vector<char> *used; const char *base;
    template<typename A> void operator()(A& a) const
    {
        sim::Outside o;
        for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) for (size_t x = 0; x < d[0]; ++x) {
            a.index() = A::gen_index(long(x), long(y), long(z));
            mark(&a.u(), 8); mark(&a.f(), 4); mark(&a.i(), 4); extra(a, static_cast<C*>(0));
        }
    }
    template<typename A> void extra(A&, SwA*) const {}
    template<typename A> void extra(A& a, SwB*) const { mark(&a.c(), 1); }
    void mark(const void *p, size_t n) const { size_t o = static_cast<const char*>(p) - base; for (size_t i = 0; i < n; ++i) if (o + i < used->size()) (*used)[o + i] = 1; }
};
template<typename C> struct World
{
    typedef LibFlatArray::soa_grid<C> Grid;
    size_t d[3];
    void *mem[2]; Grid *g[2];
    std::vector<C> m[2];
    std::vector<char> before[2], used;
    Shape sh;

    size_t at(size_t x, size_t y, size_t z) const { return (z * d[1] + y) * d[0] + x; }
    void make()
    {
        size_t dims = 1 + sim::choose(Info<C>::MAXZ > 1 ? 3 : 2);
        d[0] = Info<C>::ALIGNED && sim::chance(1, 12) ? sim::range(97, 320) : sim::range(3, Info<C>::MAXX);
        d[1] = dims > 1 ? sim::range(3, Info<C>::MAXY) : 1;
        d[2] = dims > 2 ? sim::range(3, Info<C>::MAXZ) : 1;
        sh.y = dims > 1; sh.z = dims > 2; sh.width = d[0];
        uint64_t h = sim::choose(1u << 30);
        sim::event("grids of %s (%zu,%zu,%zu) values %llu", Info<C>::name(), d[0], d[1], d[2], (unsigned long long)h);
        for (int k = 0; k < 2; ++k) {
            mem[k] = sim::heap_alloc(sizeof(Grid));
            { sim::LibOp op("construct"); g[k] = new (mem[k]) Grid(d[0], d[1], d[2]); }
            m[k].resize(d[0] * d[1] * d[2]);
            for (size_t i = 0; i < m[k].size(); ++i) {
                uint64_t q = sim::mix(h, i * 2 + k);
                m[k][i].u = Calc<double>::value(sim::mix(q, 1));
                m[k][i].f = Calc<float>::value(sim::mix(q, 2));
                m[k][i].i = Calc<int>::value(sim::mix(q, 3));
            }
            for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) { sim::LibOp op("set"); g[k]->set(0, y, z, &m[k][at(0, y, z)], d[0]); }
        }
        used.assign(g[0]->byte_size(), 0);
        for (int k = 0; k < 2; ++k) before[k].assign(g[k]->data(), g[k]->data() + g[k]->byte_size());
        const Grid *cg = g[0];
        Bytes<C> f = { d, &used, cg->data() };
        sim::LibOp op("callback");
        cg->callback(f);
    }
    template<typename T> void reference(const Job& j)
    {
        size_t hits = 0;
        for (size_t x = j.seg.b; x < j.seg.e; ++x) {
            size_t y = j.seg.y, z = j.seg.z;
            std::vector<C>& s = m[0];
            T c = Mem<T>::in(s[at(x, y, z)]);
            if (j.load == 3) c = Mem<T>::in(s[long(at(0, y, z)) + gathered(j, long(x), long(d[0]), long(d[0]))]);
            T e = Mem<T>::in(s[at(x + 1, y, z)]);
            T w = sh.z ? Mem<T>::in(s[at(x, y, z + 1)]) : Mem<T>::in(s[at(x - 1, y, z)]);
            T n = sh.y ? Mem<T>::in(s[at(x, y - 1, z)]) : Mem<T>::in(s[at(x - 1, y, z)]);
            T so = sh.z ? Mem<T>::in(s[at(x + 1, y + 1, z - 1)]) : sh.y ? Mem<T>::in(s[at(x - 1, y + 1, z)]) : Mem<T>::in(s[at(x + 1, y, z)]);
            Mem<T>::in(m[1][at(scattered(j, long(x)), y, z)]) = Calc<T>::ref(j.kind, c, w, e, n, so, factor<T>(j.kind), hits);
        }
        if (hits != j.hits) sim::fail("wrong-count", "lanes selected by masks in [%zu,%zu) of row (%zu,%zu), arity %d: %zu, scalar update selects %zu", j.seg.b, j.seg.e, j.seg.y, j.seg.z, j.arity, j.hits, hits);
    }
    void check(int k, const char *when)
    {
        const Grid *cg = g[k];
        for (size_t z = 0; z < d[2]; ++z) for (size_t y = 0; y < d[1]; ++y) {
            std::vector<C> row(d[0]);
            { sim::LibOp op("get"); cg->get(0, y, z, &row[0], d[0]); }
            for (size_t x = 0; x < d[0]; ++x) {
                C& a = row[x]; C& b = m[k][at(x, y, z)];
                if (!Calc<double>::same(a.u, b.u)) sim::fail("wrong-content", "%s: double at (%zu,%zu,%zu) is %g, scalar update gives %g", when, x, y, z, a.u, b.u);
                if (!Calc<float>::same(a.f, b.f)) sim::fail("wrong-content", "%s: float at (%zu,%zu,%zu) is %g, scalar update gives %g", when, x, y, z, a.f, b.f);
                if (a.i != b.i) sim::fail("wrong-content", "%s: int at (%zu,%zu,%zu) is %d, scalar update gives %d", when, x, y, z, a.i, b.i);
            }
        }
        const char *now = cg->data();
        for (size_t i = 0; i < used.size(); ++i) if (!used[i] && now[i] != before[k][i]) sim::fail("stray-write", "%s: byte %zu outside of all cells was modified", when, i);
    }
};

template<typename C> void sweeps()
{
    typedef LibFlatArray::soa_grid<C> Grid;
    World<C> *w = new World<C>();
    w->make();
    static const unsigned means[] = { 20, 100, 500, 3000 };
    sim::set_race_checks(true);
    unsigned mean = sim::pick(means);
    sim::set_preemption_mean(mean);
    int threads = int(sim::range(1, 4)), steps = int(sim::range(1, 3));
    sim::event("%d threads, %d steps, preemption mean %u", threads, steps, mean);
    // plan: per step and thread, a list of jobs per cargo
    typedef std::vector<std::vector<std::vector<Job> > > Plan;          // [step][thread*3+cargo]
    Plan *plan = new Plan(steps, std::vector<std::vector<Job> >(threads * 3));
    static const int arities[] = { 8, 4, 16, 2, 32, 1 };
    for (int s = 0; s < steps; ++s) {
        int cargo = int(sim::choose(3)), dominant = sim::pick(arities), style = int(sim::choose(4));
        bool uniform = sim::choose(2), streaming = sim::choose(3) == 2;
        int kind = int(sim::choose(unsigned(cargo == 2 ? int(Calc<int>::KINDS) : int(Calc<double>::KINDS))));
        for (size_t z = w->sh.z ? 1 : 0; z < (w->sh.z ? w->d[2] - 1 : 1); ++z) for (size_t y = w->sh.y ? 1 : 0; y < (w->sh.y ? w->d[1] - 1 : 1); ++y) {
            size_t x = 1, last = w->d[0] - 1;
            while (x < last) {
                size_t n = sim::choose(4) == 0 ? sim::choose(std::min<size_t>(6, last - x + 1)) : 1 + sim::choose(last - x);
                if (sim::choose(4) == 0) n = last - x;
                Job j;
                j.seg.y = y; j.seg.z = z; j.seg.b = x; j.seg.e = x + n;
                j.cargo = cargo; j.kind = kind;
                j.arity = uniform ? dominant : sim::pick(arities);
                j.style = uniform ? style : int(sim::choose(4));
                j.load = int(sim::choose(5));
                j.gather = j.load == 3 ? int(sim::choose(5)) : 0; j.hits = 0;
                j.store = int(sim::choose(5));
                j.mirror = j.store == 4 ? int(sim::choose(3)) : 0;
                j.odd = (j.store == 4 || j.load == 3) ? int(sim::choose(2)) : 0;
                j.base = (j.style == 1 || j.style == 2) && sim::choose(3) == 0 ? -32 * long(sim::choose(w->d[0] / 32 + 3)) : 0;
                j.streaming = streaming && Info<C>::ALIGNED;
                if (j.style == 3 && w->d[0] && !Info<C>::ALIGNED) j.streaming = false;
                size_t who = sim::choose(threads + (sim::choose(6) == 0 ? 1 : 0));
                if (who < size_t(threads)) {
                    (*plan)[s][who * 3 + cargo].push_back(j);
                    sim::event("step %d thread %zu: %s arity %d%s style %d load %d/%d store %d%s kind %d row (%zu,%zu) [%zu,%zu)%+ld", s, who + 1,
                        cargo == 0 ? "double" : cargo == 1 ? "float" : "int", j.arity, j.streaming ? " streaming" : "", j.style, j.load, j.gather, j.store, j.mirror == 1 ? " mirrored" : j.mirror ? " repeating" : "", kind, y, z, j.seg.b, j.seg.e, j.base);
                    sim::count(j.seg.e - j.seg.b < size_t(j.arity) ? "reach.range_shorter_than_vector" : "reach.full_vector_in_range");
                    if (n == 0) sim::count("reach.empty_range");
                    if (j.base) sim::count("reach.negative_counter");
                    if (j.streaming) sim::count("reach.streaming");
                    if (j.seg.b % j.arity) sim::count("reach.unaligned_begin");
                }
                x += n;
                if (n == 0 && sim::choose(2) == 0) ++x;
            }
        }
    }
    bool by_member = sim::choose(2);
    for (int t = 0; t < threads; ++t) {
        sim::spawn([=] {
            for (int s = 0; s < steps; ++s) {
                for (int c = 0; c < 3; ++c) {
                    const std::vector<Job>& all = (*plan)[s][t * 3 + c];
                    if (all.empty()) continue;
                    if (all.size() % 2) { sim::LibOp op("sweep"); sweep_of<C>(c, w->g[0], w->g[1], &all, w->sh); }
                    else for (size_t i = 0; i < all.size(); ++i) { std::vector<Job> one(1, all[i]); { sim::LibOp op("sweep"); sweep_of<C>(c, w->g[0], w->g[1], &one, w->sh); } all[i].hits = one[0].hits; }
                }
                sim::barrier(1, threads);
                if (t == 0) {
                    for (int q = 0; q < threads * 3; ++q) for (size_t i = 0; i < (*plan)[s][q].size(); ++i) {
                        const Job& j = (*plan)[s][q][i];
                        if (j.cargo == 0) w->template reference<double>(j); else if (j.cargo == 1) w->template reference<float>(j); else w->template reference<int>(j);
                    }
                    w->check(1, "after a sweep");
                    if (sim::choose(4) == 3) w->check(0, "after a sweep");
                    // keep integers small (signed overflow is the user's business)
                    { sim::LibOp op("swap"); if (by_member) w->g[0]->swap(*w->g[1]); else { using std::swap; swap(*w->g[0], *w->g[1]); } }
                    std::swap(w->m[0], w->m[1]);
                    std::swap(w->before[0], w->before[1]);
                    w->check(0, "after swapping");
                    if (s + 1 < steps) for (size_t z = 0; z < w->d[2]; ++z) for (size_t y = 0; y < w->d[1]; ++y) for (size_t x = 0; x < w->d[0]; ++x) {
                        C& c = w->m[0][w->at(x, y, z)];
                        if (c.i > 1000 || c.i < -1000) { c.i %= 1000; sim::LibOp op("set"); w->g[0]->set(x, y, z, c); }
                    }
                }
                sim::barrier(2, threads);
            }
        });
    }
    sim::mark_nontrivial();
    sim::join_all();
    w->check(0, "at the end");
    w->check(1, "at the end");
    for (int k = 0; k < 2; ++k) { { sim::LibOp op("destroy"); w->g[k]->~Grid(); } sim::heap_free(w->mem[k]); }
    sim::check_no_leaks("all containers destroyed");
    delete plan; delete w;
}

// particles in a vector or array, updated in place by threads owning disjoint index ranges
template<typename T> void particles(int cargo);
void particles_double(); void particles_float(); void particles_int();
void sim_run()
{
    switch (sim::choose(8)) {
    case 0: case 1: case 2: case 3: sweeps<SwA>(); break;
    case 4: case 5: sweeps<SwB>(); break;
    case 6: particles_double(); break;
    default: if (sim::choose(2)) particles_float(); else particles_int(); break;
    }
}
#define SPECIALISE(C) \
    void sweep_##C##_double(LibFlatArray::soa_grid<C> *from, LibFlatArray::soa_grid<C> *to, const std::vector<Job> *jobs, Shape sh); \
    void sweep_##C##_float(LibFlatArray::soa_grid<C> *from, LibFlatArray::soa_grid<C> *to, const std::vector<Job> *jobs, Shape sh); \
    void sweep_##C##_int(LibFlatArray::soa_grid<C> *from, LibFlatArray::soa_grid<C> *to, const std::vector<Job> *jobs, Shape sh); \
    template<> void sweep_of<C>(int cargo, LibFlatArray::soa_grid<C> *from, LibFlatArray::soa_grid<C> *to, const std::vector<Job> *jobs, Shape sh) \
    { if (cargo == 0) sweep_##C##_double(from, to, jobs, sh); else if (cargo == 1) sweep_##C##_float(from, to, jobs, sh); else sweep_##C##_int(from, to, jobs, sh); }
SPECIALISE(SwA)
SPECIALISE(SwB)
#else

// ---------------------------------------------------------------- particles
template<typename T, bool STREAM> struct Move
{
    template<size_t ARITY, typename A> static void run(A& a, long b, long e, int kind, bool aligned, int store, size_t& hits)
    {
        typedef typename std::conditional<STREAM, LibFlatArray::streaming_short_vec<T, ARITY>, LibFlatArray::short_vec<T, ARITY> >::type V;
        a.index() = b;
        LibFlatArray::loop_peeler<V>(&a.index(), e, [&](auto tag, long *i, long stop) {
            typedef decltype(tag) W;
            for (; *i < stop; a += long(W::ARITY)) {
                W c(&Mem<T>::of(a)), r;
                Calc<T>::template vec<W>(kind, r, c, c, W(T(3)), c, W(T(5)), factor<T>(kind), hits);
                Store<W, T, STREAM>::put(&Mem<T>::of(a), r, store > 3 ? 0 : store, 0, 0, aligned && *i % long(W::ARITY) == 0);
            }
        });
        if (a.index() != e) sim::fail("peeler", "index ended at %ld, range was [%ld, %ld), arity %zu", a.index(), b, e, ARITY);
    }
    template<typename A> static void dispatch(A& a, int arity, long b, long e, int kind, bool aligned, int store, size_t& hits)
    {
        switch (arity) {
        case 1:  run<1>(a, b, e, kind, aligned, store, hits); break;
        case 2:  run<2>(a, b, e, kind, aligned, store, hits); break;
        case 4:  run<4>(a, b, e, kind, aligned, store, hits); break;
        case 8:  run<8>(a, b, e, kind, aligned, store, hits); break;
        case 16: run<16>(a, b, e, kind, aligned, store, hits); break;
        default: run<32>(a, b, e, kind, aligned, store, hits); break;
        }
    }
};
template<typename T> struct MoveFunctor
{
    int arity; long b, e; int kind; bool streaming; int store; size_t *hits;
    template<typename A> void operator()(A& a) const
    {
        if (streaming) Move<T, true>::dispatch(a, arity, b, e, kind, true, store, *hits);
        else Move<T, false>::dispatch(a, arity, b, e, kind, true, store, *hits);
    }
};
struct Part { int owner; long b, e; int arity, store; size_t hits; };
template<typename T> void particles()
{
    typedef LibFlatArray::soa_vector<SwA> Vec;
    typedef LibFlatArray::soa_array<SwA, 96> Arr;
    size_t n = sim::range(1, 96);
    bool vec = sim::choose(2);
    uint64_t h = sim::choose(1u << 30);
    int threads = int(sim::range(1, 4)), kind = int(sim::choose(Calc<T>::KINDS));
    bool streaming = vec && sim::choose(3) == 2;
    std::vector<SwA> m(n);
    for (size_t i = 0; i < n; ++i) {
        uint64_t q = sim::mix(h, i);
        m[i].u = Calc<double>::value(sim::mix(q, 1)); m[i].f = Calc<float>::value(sim::mix(q, 2)); m[i].i = Calc<int>::value(sim::mix(q, 3));
    }
    void *mem = sim::heap_alloc(vec ? sizeof(Vec) : sizeof(Arr));
    Vec *v = 0; Arr *arr = 0;
    if (vec) { sim::LibOp op("construct"); v = new (mem) Vec(n); } else { sim::LibOp op("construct"); arr = new (mem) Arr(n); }
    for (size_t i = 0; i < n; ++i) { sim::LibOp op("set"); if (vec) v->set(i, m[i]); else (*arr)[int(i)] = m[i]; }
    sim::event("%zu %s particles in a%s %s, kind %d, %d threads, values %llu", n, Mem<T>::name(), vec ? " vector" : "n array", streaming ? "(streaming)" : "", kind, threads, (unsigned long long)h);
    static const int arities[] = { 8, 4, 16, 2, 32, 1 };
    std::vector<Part> *parts = new std::vector<Part>();
    for (size_t b = 0; b < n;) {
        size_t e = b + 1 + sim::choose(n - b);
        Part p = { int(sim::choose(threads + 1)), long(b), long(e), sim::pick(arities), int(sim::choose(4)), 0 };
        parts->push_back(p);
        sim::event("[%zu,%zu) arity %d store %d by %d", b, e, p.arity, p.store, p.owner + 1);
        b = e;
    }
    static const unsigned means[] = { 20, 100, 500, 3000 };
    sim::set_race_checks(true);
    sim::set_preemption_mean(sim::pick(means));
    for (int t = 0; t < threads; ++t) sim::spawn([=] {
        for (size_t i = 0; i < parts->size(); ++i) {
            Part& p = (*parts)[i];
            if (p.owner != t) continue;
            sim::LibOp op("update particles");
            if (vec) { MoveFunctor<T> f = { p.arity, p.b, p.e, kind, streaming, p.store, &p.hits }; v->callback(f); }
            else { auto a = (*arr)[0]; Move<T, false>::dispatch(a, p.arity, p.b, p.e, kind, false, p.store, p.hits); }
        }
    });
    sim::mark_nontrivial();
    sim::join_all();
    for (size_t i = 0; i < parts->size(); ++i) {
        const Part& p = (*parts)[i];
        if (p.owner >= threads) continue;
        size_t hits = 0;
        for (long x = p.b; x < p.e; ++x) { T c = Mem<T>::in(m[x]); Mem<T>::in(m[x]) = Calc<T>::ref(kind, c, c, T(3), c, T(5), factor<T>(kind), hits); }
        if (hits != p.hits) sim::fail("wrong-count", "lanes selected by masks among particles [%ld,%ld), arity %d: %zu, scalar update selects %zu", p.b, p.e, p.arity, p.hits, hits);
    }
    for (size_t i = 0; i < n; ++i) {
        SwA c;
        { sim::LibOp op("get"); if (vec) c = static_cast<const Vec*>(v)->get(i); else c = static_cast<const Arr*>(arr)->at(i); }
        if (!Calc<double>::same(c.u, m[i].u) || !Calc<float>::same(c.f, m[i].f) || c.i != m[i].i)
            sim::fail("wrong-content", "particle %zu is (%g, %g, %d), scalar update gives (%g, %g, %d)", i, c.u, c.f, c.i, m[i].u, m[i].f, m[i].i);
    }
    { sim::LibOp op("destroy"); if (vec) v->~Vec(); else arr->~Arr(); }
    sim::heap_free(mem);
    sim::check_no_leaks("all containers destroyed");
    delete parts;
}

#define SWEEP(C, T) void sweep_##C##_##T(LibFlatArray::soa_grid<C> *from, LibFlatArray::soa_grid<C> *to, const std::vector<Job> *jobs, Shape sh) \
    { Sweep<C, T> f = { jobs, sh }; from->callback(to, f); }
#if PARTNO == 1
SWEEP(SwA, double)
#elif PARTNO == 2
SWEEP(SwA, float)
#elif PARTNO == 3
SWEEP(SwA, int)
#elif PARTNO == 4
SWEEP(SwB, double)
void particles_double() { particles<double>(); }
#elif PARTNO == 5
SWEEP(SwB, float)
void particles_float() { particles<float>(); }
#elif PARTNO == 6
SWEEP(SwB, int)
void particles_int() { particles<int>(); }
#endif
#endif
