// A02: ce/atomic.h on the memory machine of weak.h: every interleaving, every admissible read
#include "kit.h"
#include "weak.h"
#include "ce/atomic.h"
using namespace kit;

struct pair32 { int a, b; };
inline bool operator==(pair32 x, pair32 y) { return x.a == y.a && x.b == y.b; }
inline pair32 operator+(pair32 x, pair32 y) { return { x.a + y.a, x.b + y.b }; }
inline bool operator!=(pair32 x, pair32 y) { return !(x == y); }
inline pair32 operator-(pair32 x) { return { -x.a, -x.b }; }
inline pair32 operator-(pair32 x, pair32 y) { return { x.a - y.a, x.b - y.b }; }
inline pair32& operator+=(pair32& x, pair32 y) { x.a += y.a; x.b += y.b; return x; }
inline pair32& operator-=(pair32& x, pair32 y) { x.a -= y.a; x.b -= y.b; return x; }
struct pair64 { long long a, b; };
inline bool operator==(pair64 x, pair64 y) { return x.a == y.a && x.b == y.b; }
inline pair64 operator+(pair64 x, pair64 y) { return { x.a + y.a, x.b + y.b }; }
inline bool operator!=(pair64 x, pair64 y) { return !(x == y); }
inline pair64 operator-(pair64 x) { return { -x.a, -x.b }; }
inline pair64 operator-(pair64 x, pair64 y) { return { x.a - y.a, x.b - y.b }; }
inline pair64& operator+=(pair64& x, pair64 y) { x.a += y.a; x.b += y.b; return x; }
inline pair64& operator-=(pair64& x, pair64 y) { x.a -= y.a; x.b -= y.b; return x; }

static short base[4096];

// numbers and values: mk(n) is the value that stands for n, un() its inverse (-99999 when the value stands for nothing)
template<class T> struct as { static T mk(int n) { return T(n); } static int un(T v) { return int(v); } static T d(int n) { return T(n); } };
template<> struct as<float> { static float mk(int n) { return n * .5f; } static int un(float v) { return int(v * 2); } static float d(int n) { return n * .5f; } };
template<> struct as<double> { static double mk(int n) { return n * .25; } static int un(double v) { return int(v * 4); } static double d(int n) { return n * .25; } };
template<> struct as<short*> { static short* mk(int n) { return base + 2048 + n; } static int un(short* v) { return int(v - base) - 2048; } static ptrdiff_t d(int n) { return n; } };
template<> struct as<pair32> { static pair32 mk(int n) { return { n, -3 * n }; } static int un(pair32 v) { return v.b == -3 * v.a ? v.a : -99999; } static pair32 d(int n) { return mk(n); } };
template<> struct as<pair64> { static pair64 mk(int n) { return { n, -3 * n }; } static int un(pair64 v) { return v.b == -3 * v.a ? int(v.a) : -99999; } static pair64 d(int n) { return mk(n); } };
enum color { red };

struct Op { str o; int l, x, y; };

template<class T> struct S : Session
{
    std::vector<std::vector<Op>> prog{ 1 };
    std::vector<int> init;
    static constexpr bool bits = std::is_integral<T>::value && !std::is_same<T, bool>::value;
    static constexpr bool sums = !std::is_enum<T>::value && !std::is_same<T, bool>::value;
    ce::atomic<T>* cell[2];
    alignas(64) char room[2][64];
    int plain[2];
    int res[4][8], nres[4];

    int one(Op const& o, int last)
    {
        if (o.o == "pw" || o.o == "pr" || o.o == "prif")
        {
            if (o.o == "prif" && last != o.x) return -9;
            int v = o.x;
            if (o.o == "pw") { wm::write(&plain[o.l - 1], sizeof(int), &v, std::memory_order_relaxed); return 0; }
            wm::read(&plain[o.l - 1], sizeof(int), &v, std::memory_order_relaxed);
            return v;
        }
        ce::atomic<T>& a = *cell[o.l - 1];
        using A = as<T>;
        if (o.o == "load") return A::un(ce::atomic_load(a));
        if (o.o == "store") { ce::atomic_store(a, A::mk(o.x)); return 0; }
        if (o.o == "exch") return A::un(ce::atomic_exchange(a, A::mk(o.x)));
        if (o.o == "cas") { T e = A::mk(o.x); bool k = ce::atomic_compare_exchange(a, e, A::mk(o.y)); return 1000 * k + A::un(e); }
        if constexpr (sums)
        {
            if (o.o == "add") return A::un(ce::atomic_fetch_add(a, A::d(o.x)));
            if (o.o == "sub") return A::un(ce::atomic_fetch_sub(a, A::d(o.x)));
        }
        if constexpr (bits)
        {
            if (o.o == "xor") return A::un(ce::atomic_fetch_xor(a, A::d(o.x)));
            if (o.o == "and") return A::un(ce::atomic_fetch_and(a, A::d(o.x)));
            if (o.o == "or") return A::un(ce::atomic_fetch_or(a, A::d(o.x)));
        }
        bad(o.o);
        return 0;
    }
    std::map<str, int> out;
    long runs = 0, cuts = 0;
    bool once()
    {
        ++runs;
        bool ok = wm::execute(int(prog.size()),
            [&] {
                for (int k = 0; k < 2; ++k)
                {
                    cell[k] = new (room[k]) ce::atomic<T>(as<T>::mk(init[k]));
                    wm::loc_of(room[k], sizeof(T));
                    plain[k] = 0;
                    nres[k] = nres[k + 2] = 0;
                }
                for (int k = 0; k < 2; ++k) { wm::loc_of(&plain[k], sizeof(int)); wm::L.back().plain = true; }
            },
            [&](int t) {
                int last = 0;
                for (Op const& o : prog[t])
                {
                    wm::yield();
                    last = one(o, last);
                    res[t][nres[t]++] = last;
                }
            });
        if (!ok) { ++cuts; return false; }
        Json j, rs, fin;
        for (size_t t = 0; t < prog.size(); ++t) { Json r; for (int k = 0; k < nres[t]; ++k) r.i(res[t][k]); rs.arr(r); }
        for (int k = 0; k < 2; ++k) fin.i(as<T>::un(ce::atomic_load(*cell[k])));
        j.q("out").arr(rs).arr(fin);
        ++out[j.s];
        return true;
    }
    void op(toks const& t) override
    {
        if (t[0] == "init") { init = { (int)I(t[1]), (int)I(t[2]) }; return; }
        if (t[0] == "t") { prog.push_back({}); return; }
        // "go <executions> <random executions> <how many executions to log>"
        if (t[0] == "go")
        {
            Json j, p, in;
            for (auto const& q : prog)
            {
                Json th;
                for (Op const& o : q) { Json x; x.q(o.o).i(o.l); x.i(o.x); x.i(o.y); th.arr(x); }
                p.arr(th);
            }
            in.i(init[0]).i(init[1]);
            j.q("prog").arr(p).arr(in);
            ev(j);
            long cap = I(t[1]), rnd = I(t[2]), nlog = I(t[3]);
            bool all = true;
            for (int mode = 0; mode < 3; ++mode)
            {
                wm::raw_mode = wm::Raw(mode);
                wm::random_walk = false;
                wm::path.clear();
                long n = 0;
                // the last executions of a full walk are as odd as the first are plain: log both ends of the random ones
                do once(); while (++n < cap && wm::next_path());
                if (n >= cap)
                {
                    all = false;
                    wm::random_walk = true;
                    wm::rng.seed(unsigned(mode + 17 * prog.size()));
                    for (long k = 0; k < rnd; ++k) once();
                }
            }
            wm::random_walk = true;
            wm::raw_mode = wm::LATEST;
            wm::rng.seed(unsigned(I(t[4])));
            wm::logging = true;
            for (long k = 0; k < nlog; ++k)
                if (once())
                {
                    Json m;
                    m.q("mem").raw("[" + wm::logtext + "]");
                    ev(m);
                }
            wm::logging = false;
            for (auto& o : out) ev(Json{}.raw(o.first));
            ev(Json{}.q("done").i((int)out.size()).i(runs).i(cuts).b(all));
            return;
        }
        Op o{ t[0], (int)I(t[1]), t.size() > 2 ? (int)I(t[2]) : 0, t.size() > 3 ? (int)I(t[3]) : 0 };
        prog.back().push_back(o);
    }
};

Session* make(toks const& p)
{
    str const& t = p[0];
#define X(N, ...) if (t == N) return new S<__VA_ARGS__>;
    X("i8", signed char) X("u8", unsigned char) X("i16", short) X("u16", unsigned short) X("i32", int) X("u32", unsigned) X("i64", long long) X("u64", unsigned long)
    X("f32", float) X("f64", double) X("ptr", short*) X("pair", pair32) X("wide", pair64) X("bool", bool) X("color", color)
    bad(t);
    return nullptr;
}
int main() { return run(make); }
