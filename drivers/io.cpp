#include "kit.h"
#include <map>
#include <ce/io.h>
using namespace kit;

static std::map<void const*, size_t> caps;
static uint64_t rng;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

// contents, read straight from the object
template<class T> str tree(T const& v) { Json j; j.bytes(&v, sizeof v); return j.s; }
template<class T, size_t N> str tree(T const (&v)[N]);
template<class T, size_t N> str tree(ce::bulk<N, T> const& v);
template<class T, class...K> str tree(ce::vec<1, T, K...> const& v);
template<class T, class...K> str tree(ce::vec<2, T, K...> const& v);
template<class T, class...K> str tree(ce::vec<3, T, K...> const& v);
template<class T, class...K> str tree(ce::vec<4, T, K...> const& v);
static str join(std::vector<str> const& l) { Json j; for (auto& x : l) j.raw(x); return "[" + j.s + "]"; }
#ifdef GEN
#define GEN_TYPES
#include "io_gen.h"
#undef GEN_TYPES
#endif
template<class T, size_t N> str tree(T const (&v)[N]) { std::vector<str> l; for (auto& x : v) l.push_back(tree(x)); return join(l); }
template<class T, size_t N> str tree(ce::bulk<N, T> const& v)
{
    caps[&v.size] = N;
    std::vector<str> l;
    for (size_t k = 0; k < N; ++k) l.push_back(tree(v.data[k]));
    return join({ std::to_string(v.size), join(l) });
}
template<class T, class...K> str tree(ce::vec<1, T, K...> const& v) { return join({ tree(v.x) }); }
template<class T, class...K> str tree(ce::vec<2, T, K...> const& v) { return join({ tree(v.x), tree(v.y) }); }
template<class T, class...K> str tree(ce::vec<3, T, K...> const& v) { return join({ tree(v.x), tree(v.y), tree(v.z) }); }
template<class T, class...K> str tree(ce::vec<4, T, K...> const& v) { return join({ tree(v.x), tree(v.y), tree(v.z), tree(v.w) }); }

struct Visitor : ce::io<Visitor>
{
    bool store;
    Json l;
    explicit Visitor(bool s) : store(s) { }
    void enter_class() { Json j; j.q("ec"); l.arr(j); }
    void leave_class() { Json j; j.q("lc"); l.arr(j); }
    void enter_array(size_t& n, bool var)
    {
        if (store && var) n = caps.count(&n) ? rnd() % (caps[&n] + 1) : 0;
        Json j; j.q("ea").i((long long)n).b(var); l.arr(j);
    }
    void leave_array(size_t& n, bool var) { Json j; j.q("la").i((long long)n).b(var); l.arr(j); }
    void name(char const* n) { Json j; j.q("n").bytes(n, strlen(n)); l.arr(j); }
    template<class T> void atom(T& v)
    {
        auto* p = reinterpret_cast<unsigned char*>(&v);
        if (store) for (size_t k = 0; k < sizeof v; ++k) p[k] = (unsigned char)rnd() & (sizeof(T) == 1 && std::is_same<T, bool>::value ? 1 : 255);
        if (l.s.size() > 1u << 28) { fprintf(stderr, "a visit that does not end\n"); _exit(77); }
        Json j; j.q("a").bytes(p, sizeof v); l.arr(j);
    }
};
template<class T> void run_type(char const* type, int rounds, char const* top)
{
    struct Hold { T v; };
    auto* hold = new Hold();
    T* v = &hold->v;
    { Json j; j.q("bind").raw(type).raw(tree(*v)); ev(j); }
    for (int k = 0; k < rounds; ++k)
    {
        if (k) { Visitor r(true); r.item(*v); Json j; j.q("read").raw("[" + r.l.s + "]").raw(tree(*v)); ev(j); }
        Visitor w(false);
        if (k % 2) w.item(top, *v); else w.item(*v);
        Json j; j.q("write").bytes(top, k % 2 ? strlen(top) : 0).raw("[" + w.l.s + "]"); ev(j);
    }
    delete hold;
}
#ifdef NO_NAMES
template<size_t N> void names(str const& t, int) { bad(t); }
#else
template<size_t N, size_t COUNT> void names(str const& text)
{
    char s[N];
    memcpy(s, text.c_str(), N);
    auto* n = new ce::names_t<int(N), int(COUNT)>(s);
    Json l;
    for (size_t k = 0; k < COUNT; ++k)
    {
        char const* p = n->names[k];
        if (p < n->text || p >= n->text + N) { l.q("outside"); continue; }
        size_t m = strnlen(p, n->text + N - p);
        if (p + m == n->text + N) l.q("not terminated"); else l.bytes(p, m);
    }
    delete n;
    Json j; j.q("names").i(COUNT).bytes(text.data(), text.size()).arr(l); ev(j);
}
template<size_t N> void names(str const& t, int count)
{
    switch (count) { case 1: names<N, 1>(t); break; case 2: names<N, 2>(t); break; case 3: names<N, 3>(t); break; case 4: names<N, 4>(t); break; case 5: names<N, 5>(t); break; case 12: names<N, 12>(t); break; case 40: names<N, 40>(t); break; default: names<N, 6>(t); }
}
#endif
static void generated(int n, int rounds);
struct S : Session
{
    void op(toks const& t) override
    {
        if (t[0] == "gen") { rng = 88172645463325252ull + U(t[2]) * 7919; for (int k = 0; k < 8; ++k) rnd(); generated(int(I(t[1])), int(I(t[3]))); }
        else if (t[0] == "names")
        {
            str b = unhex(t[2]);
            int c = int(I(t[1]));
            switch (b.size() + 1)
            {
#define R(N) case N: names<N>(b, c); break;
                R(2) R(3) R(4) R(5) R(6) R(7) R(8) R(9) R(10) R(12) R(14) R(16) R(20) R(28) R(40) R(64) R(100) R(200) R(300) R(700)
                default: bad(t[2]);
            }
        }
        else bad(t[0]);
    }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
#ifdef GEN
#define GEN_RUN
#include "io_gen.h"
#else
static void generated(int, int) {}
#endif
