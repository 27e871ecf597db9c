// Cell types (element types) used by the workloads, with a uniform way to
// derive the value of every member from a 64-bit token (token 0: default value).
#ifndef CELLS_H
#define CELLS_H
#include <algorithm>
#include "../engine/sim.h"
#include <libflatarray/flat_array.hpp>
#include <string>
#include <vector>
#include <stdexcept>
#include <new>

// ---------------------------------------------------------------- instrumented member type
struct InjectedFailure : std::runtime_error { InjectedFailure() : std::runtime_error("injected failure of a member operation") {} };

struct Probe
{
    uint64_t v;
    const Probe *me;
    unsigned char *token;

    Probe() : v(0), me(this), token(0)
    {
        enter(sim::FAULT_MEMBER_CTOR);
        make_token(0);
        sim::probe_born(this);
    }
    explicit Probe(uint64_t v) : v(v), me(this), token(0)
    {
        make_token(v);
        sim::probe_born(this);
    }
    Probe(const Probe& o) : v(0), me(this), token(0)
    {
        o.check("copies from");
        enter(sim::FAULT_MEMBER_COPY);
        make_token(o.v);
        v = o.v;
        sim::probe_born(this);
    }
    Probe& operator=(const Probe& o)
    {
        check("assigns to");
        o.check("assigns from");
        enter(sim::FAULT_MEMBER_COPY);
        v = o.v;
        token[0] = static_cast<unsigned char>(o.v);
        return *this;
    }
    ~Probe()
    {
        check("destroys");
        sim::probe_dead(this);
        me = 0;
        v = 0xdeadbeefdeadbeefull;
        delete[] token;
        token = 0;
    }
    uint64_t get() const { check("reads"); return v; }
    bool operator==(const Probe& o) const { return get() == o.get(); }

    void check(const char *how) const
    {
        sim::probe_used(this, how);
        if (me != this) sim::fail("lifetime", "operation %s a member object which was relocated bytewise", how);
        if (token[0] != static_cast<unsigned char>(v)) sim::fail("lifetime", "resource owned by a member object was corrupted");
    }
private:
    void enter(sim::fault_kind k) { if (!sim::in_lib()) return; bool f; { sim::Outside o; f = sim::fault_point(k); } if (f) throw InjectedFailure(); }
    void make_token(uint64_t v) { token = new unsigned char[3]; token[0] = static_cast<unsigned char>(v); }
};

// ---------------------------------------------------------------- values from tokens
inline uint64_t spread(uint64_t tok, int m) { uint64_t h = sim::mix(tok * 0x9e3779b97f4a7c15ull + 7, m + 1); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; return h ^ (h >> 31); }

template<typename T> struct Value
{
    static void put(T& t, uint64_t tok, int m) { t = tok ? static_cast<T>(spread(tok, m)) : T(); }
    static bool eq(const T& t, uint64_t tok, int m) { return t == (tok ? static_cast<T>(spread(tok, m)) : T()); }
};
template<> struct Value<bool>
{
    static void put(bool& t, uint64_t tok, int m) { t = tok ? (spread(tok, m) & 1) != 0 : false; }
    static bool eq(const bool& t, uint64_t tok, int m)
    {
        unsigned char raw; __builtin_memcpy(&raw, &t, 1);
        return raw == (tok ? (spread(tok, m) & 1) : 0);
    }
};
template<> struct Value<double>
{
    static double val(uint64_t tok, int m) { return tok ? static_cast<double>(spread(tok, m) >> 12) * 0.25 + 1 : 0.0; }
    static void put(double& t, uint64_t tok, int m) { t = val(tok, m); }
    static bool eq(const double& t, uint64_t tok, int m) { return t == val(tok, m); }
};
template<> struct Value<float>
{
    static float val(uint64_t tok, int m) { return tok ? static_cast<float>((spread(tok, m) >> 42) + 1) : 0.0f; }
    static void put(float& t, uint64_t tok, int m) { t = val(tok, m); }
    static bool eq(const float& t, uint64_t tok, int m) { return t == val(tok, m); }
};
template<> struct Value<std::string>
{
    static std::string val(uint64_t tok, int m)
    {
        sim::Outside o;
        if (!tok) return std::string();
        uint64_t h = spread(tok, m);
        return std::string((h >> 8) % 40, char('a' + h % 26)) + std::to_string(h);
    }
    // assign a temporary built outside: the copy itself is done by the caller's scope
    static void put(std::string& t, uint64_t tok, int m) { const std::string v = val(tok, m); t = v; }
    static bool eq(const std::string& t, uint64_t tok, int m) { sim::Outside o; return t == val(tok, m); }
};
template<> struct Value<std::vector<int> >
{
    static std::vector<int> val(uint64_t tok, int m)
    {
        sim::Outside o;
        std::vector<int> r;
        if (!tok) return r;
        uint64_t h = spread(tok, m);
        for (size_t i = 0; i < 1 + h % 6; ++i) r.push_back(static_cast<int>(spread(h, static_cast<int>(i))));
        return r;
    }
    static void put(std::vector<int>& t, uint64_t tok, int m) { const std::vector<int> v = val(tok, m); t = v; }
    static bool eq(const std::vector<int>& t, uint64_t tok, int m) { sim::Outside o; return t == val(tok, m); }
};
template<> struct Value<Probe>
{
    static void put(Probe& t, uint64_t tok, int m) { Probe p(tok ? (spread(tok, m) | 1) : 0); t = p; }
    static bool eq(const Probe& t, uint64_t tok, int m) { return t.get() == (tok ? (spread(tok, m) | 1) : 0); }
};
struct Triple { short x; double y; char z; Triple() : x(0), y(0), z(0) {} };
template<> struct Value<Triple>
{
    static void put(Triple& t, uint64_t tok, int m) { Value<short>::put(t.x, tok, m + 100); Value<double>::put(t.y, tok, m + 200); Value<char>::put(t.z, tok, m + 300); }
    static bool eq(const Triple& t, uint64_t tok, int m) { return Value<short>::eq(t.x, tok, m + 100) && Value<double>::eq(t.y, tok, m + 200) && Value<char>::eq(t.z, tok, m + 300); }
};
enum Colour : unsigned short { COLOUR_NONE };
// plain data whose default is not zero
struct Preset { int a; short b; Preset() : a(7), b(-3) {} };
template<> struct Value<Preset>
{
    static void put(Preset& t, uint64_t tok, int m) { t.a = tok ? int(spread(tok, m + 100)) : 7; t.b = tok ? short(spread(tok, m + 200)) : short(-3); }
    static bool eq(const Preset& t, uint64_t tok, int m) { return t.a == (tok ? int(spread(tok, m + 100)) : 7) && t.b == (tok ? short(spread(tok, m + 200)) : short(-3)); }
};
// nothing to destroy, but must not be copied bytewise; the default is not zero
struct Anchor
{
    uint64_t v; const Anchor *me;
    Anchor() : v(41), me(this) {}
    explicit Anchor(uint64_t v) : v(v), me(this) {}
    Anchor(const Anchor& o) : v(o.get()), me(this) {}
    Anchor& operator=(const Anchor& o) { check("assigns to"); v = o.get(); return *this; }
    uint64_t get() const { check("reads"); return v; }
    void check(const char *how) const { if (me != this) sim::fail("lifetime", "operation %s a member object which was not constructed or relocated bytewise", how); }
};
template<> struct Value<Anchor>
{
    static void put(Anchor& t, uint64_t tok, int m) { Anchor a(tok ? spread(tok, m) : 41); t = a; }
    static bool eq(const Anchor& t, uint64_t tok, int m) { return t.get() == (tok ? spread(tok, m) : 41); }
};
// the default (null) is not represented by zeros
typedef short Triple::*Where;
template<> struct Value<Where>
{
    static Where val(uint64_t tok, int m) { return tok && (spread(tok, m) & 1) ? &Triple::x : Where(0); }
    static void put(Where& t, uint64_t tok, int m) { t = val(tok, m); }
    static bool eq(const Where& t, uint64_t tok, int m) { return t == val(tok, m); }
};
struct PutTok { uint64_t tok; int m; template<typename T> void operator()(T& t) const { Value<T>::put(t, tok, m); } };
struct EqTok { uint64_t tok; int m; bool *r; template<typename T> void operator()(const T& t) const { *r = Value<T>::eq(t, tok, m); } };
struct HashVal
{
    uint64_t *r;
    template<typename T> void operator()(const T& t) const { *r = sim::hash_bytes(&t, sizeof(t)); }
    void operator()(const std::string& t) const { *r = sim::hash_bytes(t.data(), t.size()); }
    void operator()(const std::vector<int>& t) const { *r = sim::hash_bytes(t.data(), t.size() * sizeof(int)); }
    void operator()(const Probe& t) const { *r = t.get(); }
    void operator()(const Anchor& t) const { *r = t.get(); }
    void operator()(const Preset& t) const { *r = sim::mix(uint64_t(uint32_t(t.a)), uint64_t(uint16_t(t.b))); }
    void operator()(const Triple& t) const { uint64_t a, b, c; HashVal x = { &a }, y = { &b }, z = { &c }; x(t.x); y(t.y); z(t.z); *r = sim::mix(sim::mix(a, b), c); }
};

// ---------------------------------------------------------------- cell types
// S(...): list of supported sizes, used by the generators of dimensions only
struct Table { int n[3]; size_t s[3][16]; bool uniform; int max_dim; bool zero_ok; };

// 1. no API: default size tables for 1D, 2D and 3D
struct CellDef { double d; char c; int arr[3]; float f; CellDef() : d(0), c(0), f(0) { arr[0] = arr[1] = arr[2] = 0; } };
// 2. custom tables per dimension
struct CellCus
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((3)(8)(16)(40), (1)(2)(6), (1)(4)) };
    char c; double d; short arr[2]; int i; float f; bool b;
    CellCus() : c(0), d(0), i(0), f(0), b(false) { arr[0] = arr[1] = 0; }
};
// 3. uniform cubes
struct Cell3U
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((2)(5)(8)(12)) };
    int i; double arr[2]; char c;
    Cell3U() : i(0), c(0) { arr[0] = arr[1] = 0; }
};
// 4. uniform squares
struct Cell2U
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((4)(7)(16)(24)) };
    float f; short s; long arr[4];
    Cell2U() : f(0), s(0) { arr[0] = arr[1] = arr[2] = arr[3] = 0; }
};
// 5. lines
struct Cell1U
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((5)(8)(16)(33)(64)(80)) };
    double d; int i; char arr[5];
    Cell1U() : d(0), i(0) { for (int k = 0; k < 5; ++k) arr[k] = 0; }
};
// 6. callbacks on two grids of different size
struct CellAsy
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes, public LibFlatArray::api_traits::has_asymmetric_dual_callback
    { LIBFLATARRAY_CUSTOM_SIZES((4)(8), (2)(5), (1)(3)) };
    int i; char c; double d;
    CellAsy() : i(0), c(0), d(0) {}
};
// 7. members owning memory
struct CellHvy
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((3)(8)(16)(40), (1)(2)(6), (1)(4)) };
    std::string s; int i; std::vector<int> arr[2];
    CellHvy() : i(0) {}
};
// 8. members with a tracked life time
struct CellPrb
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((3)(8)(16)(40), (1)(2)(6), (1)(4)) };
    Probe p; int i; Probe arr[3]; double d;
    CellPrb() : i(0), d(0) {}
};
// 9. same, default size tables
struct CellPrd { char c; Probe p; Probe arr[2]; CellPrd() : c(0) {} };

// 10. plain data without any c-tor: only value-initialisation yields defined values
struct CellRaw
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((3)(8)(16)(40), (1)(2)(6), (1)(4)) };
    double d; int arr[3]; bool b; char c; short s[2];
};
// 11. members which fill the cell completely
struct CellPak
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((3)(40)(130), (1)(6)(33), (2)(19)) };
    double a; double b;
    CellPak() : a(0), b(0) {}
};
// 12. many members, nested structures, long arrays
struct CellWid
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((2)(7)(16)(33), (1)(3)(5), (1)(2)(3)) };
    char c1; Triple t; Colour e; long l; char text[19]; unsigned short u; float m[9]; signed char c2; double d; bool b; Triple ts[2]; long long q; int i; Preset pre; float f;
    CellWid() : c1(0), e(COLOUR_NONE), l(0), u(0), c2(0), d(0), b(false), q(0), i(0), f(0)
    { for (int k = 0; k < 19; ++k) text[k] = 0; for (int k = 0; k < 9; ++k) m[k] = 0; }
};
// 13. members with unusual defaults and copies
struct CellOdd
{
    struct API : public LibFlatArray::api_traits::has_custom_sizes { LIBFLATARRAY_CUSTOM_SIZES((3)(8)(16)(40), (1)(2)(6), (1)(4)) };
    Anchor a; Preset p; Where w; Anchor arr[2]; Preset ps[3]; Where ws[2]; char c; short one[1]; Anchor anchor[1];
    CellOdd() : w(0), c(0) { ws[0] = ws[1] = 0; one[0] = 0; }
};
LIBFLATARRAY_REGISTER_SOA(CellOdd, ((Anchor)(a))((Preset)(p))((Where)(w))((Anchor)(arr)(2))((Preset)(ps)(3))((Where)(ws)(2))((char)(c))((short)(one)(1))((Anchor)(anchor)(1)))
LIBFLATARRAY_REGISTER_SOA(CellPak, ((double)(a))((double)(b)))
LIBFLATARRAY_REGISTER_SOA(CellWid, ((char)(c1))((Triple)(t))((Colour)(e))((long)(l))((char)(text)(19))((unsigned short)(u))((float)(m)(9))((signed char)(c2))((double)(d))((bool)(b))((Triple)(ts)(2))((long long)(q))((int)(i))((Preset)(pre))((float)(f)))
LIBFLATARRAY_REGISTER_SOA(CellRaw, ((double)(d))((int)(arr)(3))((bool)(b))((char)(c))((short)(s)(2)))
LIBFLATARRAY_REGISTER_SOA(CellDef, ((double)(d))((char)(c))((int)(arr)(3))((float)(f)))
LIBFLATARRAY_REGISTER_SOA(CellCus, ((char)(c))((double)(d))((short)(arr)(2))((int)(i))((float)(f))((bool)(b)))
LIBFLATARRAY_REGISTER_SOA(Cell3U, ((int)(i))((double)(arr)(2))((char)(c)))
LIBFLATARRAY_REGISTER_SOA(Cell2U, ((float)(f))((short)(s))((long)(arr)(4)))
LIBFLATARRAY_REGISTER_SOA(Cell1U, ((double)(d))((int)(i))((char)(arr)(5)))
LIBFLATARRAY_REGISTER_SOA(CellAsy, ((int)(i))((char)(c))((double)(d)))
LIBFLATARRAY_REGISTER_SOA(CellHvy, ((std::string)(s))((int)(i))((std::vector<int>)(arr)(2)))
LIBFLATARRAY_REGISTER_SOA(CellPrb, ((Probe)(p))((int)(i))((Probe)(arr)(3))((double)(d)))
LIBFLATARRAY_REGISTER_SOA(CellPrd, ((char)(c))((Probe)(p))((Probe)(arr)(2)))

template<typename C> struct Traits;

#define ON(i, member) case i: f(c.member); break;
#define ONA(i, member, k) case i: f(c.member[k]); break;
#define AC(i, member) case i: f(a.member()); break;
#define ACA(i, member, k) case i: f(a.member()[k]); break;
#define TRAITS(CELL, NMEM, IS_TRIVIAL, NAME, CELLCASES, ACCCASES, TABLE) \
template<> struct Traits<CELL> { \
    static const int NM = NMEM; static const bool TRIVIAL = IS_TRIVIAL; \
    static const char *name() { return NAME; } \
    template<typename F> static void on_cell(CELL& c, int m, const F& f) { switch (m) { CELLCASES } } \
    template<typename F> static void on_cell(const CELL& c, int m, const F& f) { switch (m) { CELLCASES } } \
    template<typename A, typename F> static void on_acc(A& a, int m, const F& f) { switch (m) { ACCCASES } } \
    static Table table() { Table t = TABLE; return t; } \
};
#define BR(...) { __VA_ARGS__ }
TRAITS(CellDef, 6, true, "default",
       ON(0, d) ON(1, c) ONA(2, arr, 0) ONA(3, arr, 1) ONA(4, arr, 2) ON(5, f),
       AC(0, d) AC(1, c) ACA(2, arr, 0) ACA(3, arr, 1) ACA(4, arr, 2) AC(5, f),
       BR({0, 0, 0}, {{0}, {0}, {0}}, false, 3, false))
TRAITS(CellRaw, 8, true, "raw",
       ON(0, d) ONA(1, arr, 0) ONA(2, arr, 1) ONA(3, arr, 2) ON(4, b) ON(5, c) ONA(6, s, 0) ONA(7, s, 1),
       AC(0, d) ACA(1, arr, 0) ACA(2, arr, 1) ACA(3, arr, 2) AC(4, b) AC(5, c) ACA(6, s, 0) ACA(7, s, 1),
       BR({4, 3, 2}, {{3, 8, 16, 40}, {1, 2, 6}, {1, 4}}, false, 3, true))
TRAITS(CellCus, 7, true, "custom",
       ON(0, c) ON(1, d) ONA(2, arr, 0) ONA(3, arr, 1) ON(4, i) ON(5, f) ON(6, b),
       AC(0, c) AC(1, d) ACA(2, arr, 0) ACA(3, arr, 1) AC(4, i) AC(5, f) AC(6, b),
       BR({4, 3, 2}, {{3, 8, 16, 40}, {1, 2, 6}, {1, 4}}, false, 3, true))
TRAITS(Cell3U, 4, true, "cube",
       ON(0, i) ONA(1, arr, 0) ONA(2, arr, 1) ON(3, c),
       AC(0, i) ACA(1, arr, 0) ACA(2, arr, 1) AC(3, c),
       BR({4, 4, 4}, {{2, 5, 8, 12}, {2, 5, 8, 12}, {2, 5, 8, 12}}, true, 3, true))
TRAITS(Cell2U, 6, true, "square",
       ON(0, f) ON(1, s) ONA(2, arr, 0) ONA(3, arr, 1) ONA(4, arr, 2) ONA(5, arr, 3),
       AC(0, f) AC(1, s) ACA(2, arr, 0) ACA(3, arr, 1) ACA(4, arr, 2) ACA(5, arr, 3),
       BR({4, 4, 1}, {{4, 7, 16, 24}, {4, 7, 16, 24}, {1}}, true, 2, false))
TRAITS(Cell1U, 7, true, "line",
       ON(0, d) ON(1, i) ONA(2, arr, 0) ONA(3, arr, 1) ONA(4, arr, 2) ONA(5, arr, 3) ONA(6, arr, 4),
       AC(0, d) AC(1, i) ACA(2, arr, 0) ACA(3, arr, 1) ACA(4, arr, 2) ACA(5, arr, 3) ACA(6, arr, 4),
       BR({6, 1, 1}, {{5, 8, 16, 33, 64, 80}, {1}, {1}}, true, 1, false))
TRAITS(CellAsy, 3, true, "asymmetric",
       ON(0, i) ON(1, c) ON(2, d), AC(0, i) AC(1, c) AC(2, d),
       BR({2, 2, 2}, {{4, 8}, {2, 5}, {1, 3}}, false, 3, true))
TRAITS(CellHvy, 4, false, "heavy",
       ON(0, s) ON(1, i) ONA(2, arr, 0) ONA(3, arr, 1),
       AC(0, s) AC(1, i) ACA(2, arr, 0) ACA(3, arr, 1),
       BR({4, 3, 2}, {{3, 8, 16, 40}, {1, 2, 6}, {1, 4}}, false, 3, true))
TRAITS(CellPrb, 6, false, "probe",
       ON(0, p) ON(1, i) ONA(2, arr, 0) ONA(3, arr, 1) ONA(4, arr, 2) ON(5, d),
       AC(0, p) AC(1, i) ACA(2, arr, 0) ACA(3, arr, 1) ACA(4, arr, 2) AC(5, d),
       BR({4, 3, 2}, {{3, 8, 16, 40}, {1, 2, 6}, {1, 4}}, false, 3, true))
TRAITS(CellPrd, 4, false, "probe-default",
       ON(0, c) ON(1, p) ONA(2, arr, 0) ONA(3, arr, 1),
       AC(0, c) AC(1, p) ACA(2, arr, 0) ACA(3, arr, 1),
       BR({0, 0, 0}, {{0}, {0}, {0}}, false, 3, false))

TRAITS(CellOdd, 13, false, "odd",
       ON(0, a) ON(1, p) ON(2, w) ONA(3, arr, 0) ONA(4, arr, 1) ONA(5, ps, 0) ONA(6, ps, 1) ONA(7, ps, 2) ONA(8, ws, 0) ONA(9, ws, 1) ON(10, c) ONA(11, one, 0) ONA(12, anchor, 0),
       AC(0, a) AC(1, p) AC(2, w) ACA(3, arr, 0) ACA(4, arr, 1) ACA(5, ps, 0) ACA(6, ps, 1) ACA(7, ps, 2) ACA(8, ws, 0) ACA(9, ws, 1) AC(10, c) ACA(11, one, 0) ACA(12, anchor, 0),
       BR({4, 3, 2}, {{3, 8, 16, 40}, {1, 2, 6}, {1, 4}}, false, 3, true))
TRAITS(CellPak, 2, true, "packed", ON(0, a) ON(1, b), AC(0, a) AC(1, b),
       BR({3, 3, 2}, {{3, 40, 130}, {1, 6, 33}, {2, 19}}, false, 3, true))
TRAITS(CellWid, 42, true, "wide",
       ON(0, c1) ON(1, t) ON(2, e) ON(3, l) ON(4, u) ON(5, c2) ON(6, d) ON(7, b) ONA(8, ts, 0) ONA(9, ts, 1) ON(10, q) ON(11, i) ON(12, f) ON(41, pre)
       default: if (m < 32) f(c.text[m - 13]); else f(c.m[m - 32]);,
       AC(0, c1) AC(1, t) AC(2, e) AC(3, l) AC(4, u) AC(5, c2) AC(6, d) AC(7, b) ACA(8, ts, 0) ACA(9, ts, 1) AC(10, q) AC(11, i) AC(12, f) AC(41, pre)
       default: if (m < 32) f(a.text()[m - 13]); else f(a.m()[m - 32]);,
       BR({4, 3, 3}, {{2, 7, 16, 33}, {1, 3, 5}, {1, 2, 3}}, false, 3, true))

// ---------------------------------------------------------------- helpers
template<typename C> void put_member(C& c, int m, uint64_t tok) { PutTok p = { tok, m }; Traits<C>::on_cell(c, m, p); }
template<typename C> bool eq_member(const C& c, int m, uint64_t tok) { bool r = false; EqTok e = { tok, m, &r }; Traits<C>::on_cell(c, m, e); return r; }
template<typename C> C make_cell(uint64_t tok) { C c; for (int m = 0; m < Traits<C>::NM; ++m) put_member(c, m, tok); return c; }
template<typename C> bool eq_cell(const C& c, const uint64_t *toks)
{
    for (int m = 0; m < Traits<C>::NM; ++m) if (!eq_member(c, m, toks[m])) return false;
    return true;
}
template<typename C, typename A> void put_acc(A& a, int m, uint64_t tok) { PutTok p = { tok, m }; Traits<C>::on_acc(a, m, p); }
template<typename C, typename A> bool eq_acc(A& a, int m, uint64_t tok) { bool r = false; EqTok e = { tok, m, &r }; Traits<C>::on_acc(a, m, e); return r; }
template<typename C> uint64_t hash_cell(const C& c)
{
    uint64_t h = 0;
    for (int m = 0; m < Traits<C>::NM; ++m) { uint64_t r = 0; HashVal v = { &r }; Traits<C>::on_cell(c, m, v); h = sim::mix(h, r); }
    return h;
}

inline uint64_t near_size(const size_t *s, int n, size_t cap)
{
    // a dimension around one of the table's boundaries, or anything below
    size_t k = sim::choose(n);
    size_t lim = s[k];
    size_t d;
    switch (sim::choose(3)) {
    case 0: d = sim::range(1, lim); break;
    case 1: d = lim; break;
    default: d = k + 1 < static_cast<size_t>(n) ? lim + 1 : (lim > 1 ? lim - 1 : 1); break;
    }
    if (d > cap) d = cap;
    return d;
}

// most runs use small containers, some medium ones (about 1000 cells), few large ones (up to 70000 cells)
inline int& scale() { static int s = 0; return s; }
inline void pick_scale(unsigned medium = 14, unsigned large = 150)
{
    if (sim::chance(1, large)) { scale() = 2; sim::set_step_limit(1500000000); sim::count("reach.large_run"); }
    else if (sim::chance(1, medium)) { scale() = 1; sim::count("reach.medium_run"); }
}
// grids with few cells, but extents which need several GiB
inline bool& giant() { static bool g = false; return g; }
inline void pick_giant()
{
    giant() = sim::allow_giants(true);
    if (!giant()) return;
    sim::set_step_limit(400000000);
    sim::count("reach.giant_run");
}
// cells owning memory stay below the large scale
template<typename C> int scale_for() { return Traits<C>::TRIVIAL ? scale() : std::min(scale(), 1); }
inline size_t scaled_line(int scale)
{
    static const size_t e1[] = { 64, 65, 127, 128, 129, 193, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1200 };
    static const size_t e2[] = { 2047, 2048, 2049, 4095, 4096, 4097, 5000, 10000, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
    if (scale == 2) return sim::pick(e2);
    return sim::choose(2) ? sim::pick(e1) : sim::range(41, 1200);
}

// dimensions the type supports; never (0,0,0)
template<typename C> void supported_dims(size_t d[3], size_t max_cells = 300)
{
    Table t = Traits<C>::table();
    int scale = scale_for<C>();
    if (t.n[0] == 0) {
        static const size_t edge[] = { 1, 2, 5, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193 };
        int kind = static_cast<int>(sim::choose(8));
        d[0] = d[1] = d[2] = 1;
        if (giant() && sim::choose(3)) {
            static const size_t g3[] = { 264, 265, 512, 513, 520, 521, 700, 1031, 1032 }, g2[] = { 4129, 8224, 8225, 10000, 16417, 32800 };
            for (int k = 0; k < 3; ++k) d[k] = sim::range(2, 3);
            if (!Traits<C>::TRIVIAL || sim::choose(6)) d[sim::choose(3)] = sim::pick(g3); else { d[2] = 1; d[sim::choose(2)] = sim::pick(g2); }
            return;
        }
        if (scale) {
            static const size_t s2[] = { 16, 31, 33, 40, 64, 65, 100, 129, 200, 256, 257, 300 }, s3[] = { 8, 16, 31, 32, 33, 40 };
            bool large = scale == 2;
            if (kind <= 3) d[0] = scaled_line(scale);
            else if (kind <= 6) { d[0] = large ? sim::pick(s2) : sim::range(10, 40); d[1] = large ? sim::pick(s2) : sim::range(8, 36); }
            else { for (int k = 0; k < 3; ++k) d[k] = large ? sim::pick(s3) : sim::range(5, 12); }
        } else if (kind <= 3) { d[0] = sim::choose(2) ? sim::pick(edge) : sim::range(1, 40); }
        else if (kind <= 6) {
            static const size_t e2[] = { 2, 3, 7, 31, 32, 33 };
            d[0] = sim::choose(2) ? sim::pick(e2) : sim::range(1, 12);
            d[1] = sim::choose(2) ? sim::pick(e2) : sim::range(2, 9);
        } else { d[0] = sim::range(1, 8); d[1] = sim::range(2, 5); d[2] = sim::range(2, 5); }
    } else {
        for (int k = 0; k < 3; ++k) d[k] = k < t.max_dim ? near_size(t.s[k], t.n[k], ~size_t(0)) : 1;
        if (t.zero_ok && sim::chance(1, 16)) d[sim::choose(3)] = 0;
    }
    if (scale == 1 && max_cells < 1500) max_cells = 1500;
    if (scale == 2 && max_cells < 70000) max_cells = 70000;
    while (d[0] * d[1] * d[2] > max_cells) {
        // shrink the largest dimension but one
        int l = d[2] > 1 ? 2 : (d[1] > 2 ? 1 : 0);
        size_t lo = (t.n[0] == 0 && l > 0) ? 2 : 1;
        size_t n = d[l] / 2;
        if (n < lo) n = lo;
        if (n == d[l]) { d[0] /= 2; } else d[l] = n;
    }
    if (d[0] == 0 && d[1] == 0 && d[2] == 0) d[0] = 1;
}

// largest number of elements in one line
template<typename C> size_t max_line() { Table t = Traits<C>::table(); return t.n[0] ? t.s[0][t.n[0] - 1] : 1000000; }

// dimensions the type does not support
template<typename C> void unsupported_dims(size_t d[3])
{
    Table t = Traits<C>::table();
    supported_dims<C>(d);
    for (int k = 0; k < 3; ++k) if (d[k] == 0) d[k] = 1;
    static const size_t huge[] = { 1073741857, size_t(1) << 40, ~size_t(0), ~size_t(0) / 2 + 1, size_t(1) << 63, 4294967296ull + 3 };
    if (t.n[0] == 0) {
        switch (sim::choose(5)) {
        case 0: d[0] = 1073741857; d[1] = d[2] = 1; break;
        case 1: d[1] = 1; d[2] = sim::range(2, 9); break;
        case 2: d[1] = sim::pick(huge); d[2] = 1; break;
        case 3: d[0] = sim::range(1, 8); d[1] = sim::range(2, 8); d[2] = 1033; break;
        default: d[0] = sim::pick(huge); break;
        }
        return;
    }
    int k = static_cast<int>(sim::choose(3));
    size_t lim = k < t.max_dim ? t.s[k][t.n[k] - 1] : 1;
    d[k] = sim::chance(1, 3) ? sim::pick(huge) : lim + 1 + sim::choose(3);
}
#endif
