// A01: ce::atomic over the real std::atomic, one thread, every supported type
#include "kit.h"
#ifdef KIT_MSVC_ATOMIC
#define CE_USER_ATOMIC_INCLUDE "msvc_atomic.h"
static constexpr bool msvc = true;
#else
static constexpr bool msvc = false;
#endif
#include "ce/atomic.h"
using namespace kit;

struct pair32 { int a, b; };
struct pair64 { long long a, b; };
struct byte3 { signed char a, b, c; };
#define OPS(P) \
inline bool operator==(P x, P y) { return x.a == y.a && x.b == y.b; } \
inline bool operator!=(P x, P y) { return !(x == y); } \
inline P operator+(P x, P y) { return P{ decltype(x.a)(x.a + y.a), decltype(x.a)(x.b + y.b) }; } \
inline P operator-(P x) { return P{ decltype(x.a)(-x.a), decltype(x.a)(-x.b) }; } \
inline P operator-(P x, P y) { return P{ decltype(x.a)(x.a - y.a), decltype(x.a)(x.b - y.b) }; } \
inline P& operator+=(P& x, P y) { x.a += y.a; x.b += y.b; return x; } \
inline P& operator-=(P& x, P y) { x.a -= y.a; x.b -= y.b; return x; }
OPS(pair32)
OPS(pair64)
inline bool operator==(byte3 x, byte3 y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
enum color { red, green, blue = 77 };
enum class hue : unsigned char { a, b, c = 200 };
// all bits matter to its arithmetic, but it is not a built in type
struct money { long long cents; };
inline bool operator==(money x, money y) { return x.cents == y.cents; }
inline bool operator!=(money x, money y) { return !(x == y); }
inline money operator+(money x, money y) { return { x.cents + y.cents }; }
inline money operator-(money x) { return { -x.cents }; }
inline money operator-(money x, money y) { return { x.cents - y.cents }; }
inline money& operator+=(money& x, money y) { x.cents += y.cents; return x; }
inline money& operator-=(money& x, money y) { x.cents -= y.cents; return x; }

static char base[1 << 16];

enum Arith { NONE, SUM, BITS };

template<class T> struct io_int
{
    static constexpr Arith ar = BITS;
    using D = T;
    static T get(toks const& t, size_t k) { return T(I(t[k])); }
    static D delta(toks const& t, size_t k) { return get(t, k); }
    static constexpr int n = 1;
    static Json put(T v) { Json j; if (T(-1) < T(0)) j.i64((long long)v); else j.u64((unsigned long long)v); return j; }
    static Json putd(D v) { return put(v); }
    static void type(Json& j) { j.q("int").i(sizeof(T) * 8).b(T(-1) < T(0)); }
};
template<> unsigned long long io_int<unsigned long long>::get(toks const& t, size_t k) { return U(t[k]); }
template<> unsigned long io_int<unsigned long>::get(toks const& t, size_t k) { return U(t[k]); }
template<class T, int S> struct io_real
{
    static constexpr Arith ar = SUM;
    using D = T;
    static T get(toks const& t, size_t k) { return T(I(t[k])) / S; }
    static D delta(toks const& t, size_t k) { return get(t, k); }
    static constexpr int n = 1;
    static Json put(T v) { Json j; T w = v * S; if (w != T((long long)w)) j.q("fraction"); else j.i64((long long)w); return j; }
    static Json putd(D v) { return put(v); }
    static void type(Json& j) { j.q("exact").i(0).b(true); }
};
template<class T> struct io_ptr
{
    static constexpr Arith ar = SUM;
    using D = ptrdiff_t;
    static T* get(toks const& t, size_t k) { return (T*)(base + (1 << 15)) + I(t[k]); }
    static D delta(toks const& t, size_t k) { return I(t[k]); }
    static constexpr int n = 1;
    static Json put(T* v) { Json j; if (!v) return j.q("null"); ptrdiff_t d = (char*)v - (base + (1 << 15)); if (d % (ptrdiff_t)sizeof(T)) j.q("unaligned"); else j.i64(d / (ptrdiff_t)sizeof(T)); return j; }
    static Json putd(D v) { Json j; j.i64(v); return j; }
    static void type(Json& j) { j.q("exact").i(0).b(true); }
};
template<class T> struct io_pair
{
    static constexpr Arith ar = SUM;
    using D = T;
    static T get(toks const& t, size_t k) { return T{ decltype(T::a)(I(t[k])), decltype(T::a)(I(t[k + 1])) }; }
    static D delta(toks const& t, size_t k) { return get(t, k); }
    static constexpr int n = 2;
    static Json put(T v) { Json j; j.i64(v.a).i64(v.b); return j; }
    static Json putd(D v) { return put(v); }
    static void type(Json& j) { j.q("exact").i(0).b(true); }
};
struct io_money
{
    static constexpr Arith ar = SUM;
    using D = money;
    static money get(toks const& t, size_t k) { return { I(t[k]) }; }
    static D delta(toks const& t, size_t k) { return get(t, k); }
    static constexpr int n = 1;
    static Json put(money v) { Json j; j.i64(v.cents); return j; }
    static Json putd(D v) { return put(v); }
    static void type(Json& j) { j.q("exact").i(0).b(true); }
};
struct io_byte3
{
    static constexpr Arith ar = NONE;
    using D = byte3;
    static byte3 get(toks const& t, size_t k) { return byte3{ (signed char)I(t[k]), (signed char)I(t[k + 1]), (signed char)I(t[k + 2]) }; }
    static D delta(toks const& t, size_t k) { return get(t, k); }
    static constexpr int n = 3;
    static Json put(byte3 v) { Json j; j.i64(v.a).i64(v.b).i64(v.c); return j; }
    static Json putd(D v) { return put(v); }
    static void type(Json& j) { j.q("exact").i(0).b(true); }
};
template<class T> struct io_enum
{
    static constexpr Arith ar = NONE;
    using D = T;
    static T get(toks const& t, size_t k) { return T(I(t[k])); }
    static D delta(toks const& t, size_t k) { return get(t, k); }
    static constexpr int n = 1;
    static Json put(T v) { Json j; j.i64((long long)v); return j; }
    static Json putd(D v) { return put(v); }
    static void type(Json& j) { j.q("exact").i(0).b(true); }
};

template<class T, class IO> struct S : Session
{
    ce::atomic<T>* a = nullptr;
    alignas(64) char room[64 + 2 * sizeof(ce::atomic<T>)];
    S() { Json j; j.q("type"); IO::type(j); ev(j); }
    // neighbours of the object, which nothing may touch
    void fresh() { memset(room, 0x5a, sizeof room); }
    void near()
    {
        size_t o = 64;
        for (size_t k = 0; k < sizeof room; ++k) if ((k < o || k >= o + sizeof(ce::atomic<T>)) && room[k] != 0x5a) { fprintf(stderr, "wrote beside the atomic\n"); _exit(77); }
    }
    void op(toks const& t) override
    {
        Json j;
        str const& o = t[0];
        if (o == "new") { fresh(); T v = IO::get(t, 1); a = new (room + 64) ce::atomic<T>(v); j.q("new").arr(IO::put(v)).arr(IO::put(ce::atomic_load(*a))); near(); ev(j); return; }
        if (o == "zero") { fresh(); a = new (room + 64) ce::atomic<T>; T v{}; j.q("new").arr(IO::put(v)).arr(IO::put(ce::atomic_load(*a))); near(); ev(j); return; }
        if (!a) bad(o);
        ce::atomic<T>& A = *a;
        if constexpr (!msvc || sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8) if (o == "cas")
        {
            T e = IO::get(t, 1), d = IO::get(t, 1 + IO::n);
            j.q(o).arr(IO::put(e)).arr(IO::put(d));
            bool ok = ce::atomic_compare_exchange(A, e, d);
            j.b(ok).arr(IO::put(e)).arr(IO::put(ce::atomic_load(A)));
            near();
            return ev(j);
        }
        j.q(o);
        if (o == "load") { T v = ce::atomic_load(A); j.raw("[]").arr(IO::put(v)); }
        else if (o == "store") { T v = IO::get(t, 1); ce::atomic_store(A, v); j.arr(IO::put(v)).raw("[]"); }
        else if (o == "exch") { T v = IO::get(t, 1); T r = ce::atomic_exchange(A, v); j.arr(IO::put(v)).arr(IO::put(r)); }
        else if (!arith(o, t, j)) bad(o);
        j.arr(IO::put(ce::atomic_load(A)));
        near();
        ev(j);
    }
    bool arith(str const& o, toks const& t, Json& j)
    {
        if constexpr (IO::ar >= SUM)
        {
            auto d = IO::delta(t, 1);
            if (o == "add") { T r = ce::atomic_fetch_add(*a, d); j.arr(IO::putd(d)).arr(IO::put(r)); return true; }
            if (o == "sub") { T r = ce::atomic_fetch_sub(*a, d); j.arr(IO::putd(d)).arr(IO::put(r)); return true; }
#ifndef KIT_MSVC_ATOMIC
            if constexpr (IO::ar == BITS)
            {
                if (o == "xor") { T r = ce::atomic_fetch_xor(*a, d); j.arr(IO::putd(d)).arr(IO::put(r)); return true; }
                if (o == "and") { T r = ce::atomic_fetch_and(*a, d); j.arr(IO::putd(d)).arr(IO::put(r)); return true; }
                if (o == "or") { T r = ce::atomic_fetch_or(*a, d); j.arr(IO::putd(d)).arr(IO::put(r)); return true; }
            }
#endif
        }
        return false;
    }
};

Session* make(toks const& p)
{
    str const& t = p[0];
#define X(N, T, ...) if (t == N) return new S<T, __VA_ARGS__>;
    X("i8", signed char, io_int<signed char>)
    X("u8", unsigned char, io_int<unsigned char>)
    X("c8", char, io_int<char>)
    X("i16", short, io_int<short>)
    X("u16", unsigned short, io_int<unsigned short>)
    X("i32", int, io_int<int>)
    X("u32", unsigned, io_int<unsigned>)
    X("l64", long, io_int<long>)
    X("ul64", unsigned long, io_int<unsigned long>)
    X("i64", long long, io_int<long long>)
    X("u64", unsigned long long, io_int<unsigned long long>)
    X("w32", wchar_t, io_int<wchar_t>)
    X("f32", float, io_real<float, 4>)
    X("f64", double, io_real<double, 1024>)
    X("pc", char*, io_ptr<char>)
    X("pi", int*, io_ptr<int>)
    X("pp", pair64*, io_ptr<pair64>)
    X("cpi", int const*, io_ptr<int const>)
    X("pair", pair32, io_pair<pair32>)
#ifndef KIT_MSVC_ATOMIC
    X("wide", pair64, io_pair<pair64>)
#endif
    X("money", money, io_money)
    X("byte3", byte3, io_byte3)
    X("bool", bool, io_enum<bool>)
    X("color", color, io_enum<color>)
    X("hue", hue, io_enum<hue>)
    bad(t);
    return nullptr;
}
int main() { return run(make); }
