#include "kit.h"
#include <map>
#include <new>
#include <ce/ce.h>
using namespace kit;

static Json life;                                   // life-cycle events of the current operation
static std::map<void const*, long> known;           // address -> slot
static long temp = 0;
static long slot_of(void const* p)
{
    auto i = known.find(p);
    if (i != known.end()) return i->second;
    return known[p] = -1000 - ++temp;               // a temporary
}
static void note(char const* w, void const* a, void const* b = nullptr)
{
    Json j;
    j.q(w).i(slot_of(a)).i(b ? slot_of(b) : 0);
    life.arr(j);
}

struct Track
{
    int v;
    Track() : v(-7) { note("c", this); }
    Track(int x) : v(x) { note("c", this); }
    Track(Track const& o) : v(o.v) { note("C", this, &o); }
    Track& operator=(Track const& o) { v = o.v; note("a", this, &o); return *this; }
    ~Track() { note("d", this); v = -99; }
    operator int() const { return v; }
};
struct TrackND // no default constructor
{
    int v;
    explicit TrackND(int x) : v(x) { note("c", this); }
    TrackND(TrackND const& o) : v(o.v) { note("C", this, &o); }
    TrackND& operator=(TrackND const& o) { v = o.v; note("a", this, &o); return *this; }
    ~TrackND() { note("d", this); v = -99; }
    operator int() const { return v; }
};
struct Pod
{
    int v; int pad[2];
    operator int() const { return v; }
};

template<class T> T mk(int v) { return T{ v }; }
template<class T> constexpr bool grows = true;
template<> constexpr bool grows<TrackND> = false;

static size_t SZ(str const& s) { auto v = U(s); return v == 2147483647 ? ~size_t(0) : v; }

template<size_t N, class T> struct BulkS : Session
{
    using B = ce::bulk<N, T>;
    struct Box { alignas(B) unsigned char raw[sizeof(B)]; };
    std::vector<Box> mem;
    bool tracked;
    B& b(size_t k) { return *reinterpret_cast<B*>(mem[k - 1].raw); }
    BulkS(int n, bool tr) : mem(n), tracked(tr)
    {
        known.clear(); temp = 0; life = Json{};
        for (int k = 1; k <= n; ++k)
        {
            memset(mem[k - 1].raw, 0xcc, sizeof(B));
            new (mem[k - 1].raw) B();
            for (size_t j = 0; j < N; ++j) known[(void*)&b(k).data[j]] = 1000 * k + j;
        }
    }
    static int at(B& x, B const& cx, size_t j) { return int(j % 2 ? x[j] : cx[j]); }
    Json some()
    {
        Json r;
        for (size_t k = 1; k <= mem.size(); ++k)
        {
            B& x = b(k);
            size_t n = x.size > N + 1 ? N + 1 : x.size;
            Json l;
            for (size_t j : { size_t(0), size_t(1), size_t(255), size_t(256), size_t(32767), size_t(32768), n - 2, n - 1, n / 2, n / 3, size_t(65534), size_t(65535), size_t(65536), size_t(65537) })
                if (j < n) { Json p; p.i(j).i(at(x, x, j)); l.arr(p); }
            Json o;
            o.s = "{\"at\":[" + l.s + "],\"n\":" + std::to_string(long(x.end() - x.begin())) + ",\"cap\":" + std::to_string(long(B::capacity())) + ",\"room\":" + std::to_string(long(x.room())) + ",\"back\":" + std::to_string(n > 0 && n <= N ? int(x.back()) : 0) + "}";
            r.raw(o.s);
        }
        return r;
    }
    Json obs()
    {
        Json r;
        for (size_t k = 1; k <= mem.size(); ++k)
        {
            B& x = b(k);
            B const& cx = x;
            Json v, it, sp;
            size_t n = x.size > N + 1 ? N + 1 : x.size;
            for (size_t j = 0; j < n; ++j) v.i(int(j % 2 ? x[j] : cx[j]));
            size_t c = 0;
            if (k % 2) { for (auto& y : x) { if (c++ > N) break; it.i(int(y)); } }
            else for (auto& y : cx) { if (c++ > N) break; it.i(int(y)); }
            if (k % 2) { auto q = make_span(x); for (size_t j = 0; j < q.size && j <= N; ++j) sp.i(int(q.data[j])); }
            else { auto q = make_span(cx); for (auto& y : q) sp.i(int(y)); }
            Json o;
            o.s = "{\"v\":[" + v.s + "],\"it\":[" + it.s + "],\"sp\":[" + sp.s + "],\"cap\":" + std::to_string(long(B::capacity())) + ",\"room\":" + std::to_string(long(x.room())) +
                ",\"back\":" + std::to_string(n > 0 && n <= N ? int(k % 2 ? x.back() : cx.back()) : 0) + "}";
            r.raw(o.s);
        }
        return r;
    }
    void op(toks const& t) override
    {
        life = Json{};
        Json j;
        j.q(t[0]);
        size_t k = I(t[1]);
        j.i(k);
        B& x = b(k);
        if (t[0] == "append")
        {
            int v = int(I(t[2]));
            bool r;
            if (v % 2) r = x.append(v);
            else { T tmp = mk<T>(v); r = x.append(tmp); }
            j.i(v).b(r);
        }
        else if (t[0] == "dup") { size_t i = SZ(t[2]); if (i >= x.size) return; j.i(i).b(x.append(x[i])); }
        else if (t[0] == "appendn" || t[0] == "resize")
        {
            if constexpr (grows<T>)
            {
                size_t n = SZ(t[2]), before = x.size;
                bool r = t[0] == "resize" ? x.resize(n) : n == 1 ? x.append_n() : x.append_n(n);
                Json vals;
                for (size_t i = before; i < x.size && i < N; ++i)
                {
                    if (!tracked) x[i] = mk<T>(N > 100 ? int(i * 7 % 1000) : -3); // contents of trivial growth are unspecified
                    vals.i(int(x[i]));
                }
                j.raw(t[2]).b(r).arr(vals);
            }
            else return;
        }
        else if (t[0] == "remove") { bool r = I(t[2]) % 2 ? x.template remove_at<false>(SZ(t[2])) : x.remove_at(SZ(t[2])); j.raw(t[2]).b(r); }
        else if (t[0] == "removeo") { bool r = x.template remove_at<true>(SZ(t[2])); j.raw(t[2]).b(r); }
        else if (t[0] == "see") { }
        else if (t[0] == "fill") { j.raw(t[2]); for (int v = 0; v < I(t[2]); ++v) { if (v % 2) x.append(v); else { T tmp = mk<T>(v); x.append(tmp); } } }
        else if (t[0] == "clear") x.clear();
        else if (t[0] == "set") { size_t i = SZ(t[2]); if (i >= x.size) return; { T tmp = mk<T>(int(I(t[3]))); x[i] = tmp; } j.raw(t[2]).raw(t[3]); }
        else if (t[0] == "assign") { size_t m = I(t[2]); x = b(m); j.i(m); }
        else if (t[0] == "copy")
        {
            size_t m = I(t[2]);
            if (m == k) return;
            x.~B();
            memset((void*)&x, 0xcc, sizeof(B));
            new ((void*)&x) B(b(m));
            j.i(m);
        }
        else bad(t[0]);
        Json l = life;
        j.arr(N > 1000 && t[0] != "see" ? some() : obs()).arr(l);
        ev(j);
    }
    void end() override
    {
        life = Json{};
        for (size_t k = 1; k <= mem.size(); ++k) b(k).~B();
        Json j;
        j.q("end").arr(life);
        ev(j);
    }
};

template<class T> Session* mkN(toks const& p, bool tr)
{
    int n = int(I(p[2]));
    switch (I(p[1]))
    {
    case 1: return new BulkS<1, T>(n, tr);
    case 2: return new BulkS<2, T>(n, tr);
    case 3: return new BulkS<3, T>(n, tr);
    case 7: return new BulkS<7, T>(n, tr);
    case 300: return new BulkS<300, T>(n, tr);
    case 66000: if constexpr (sizeof(T) == sizeof(int)) return new BulkS<66000, T>(n, tr);
    }
    bad(p[1]);
    return nullptr;
}
// S kind cap lists
Session* make(toks const& p)
{
    switch (I(p[0]))
    {
    case 0: return mkN<int>(p, false);
    case 1: return mkN<Pod>(p, false);
    case 10: return mkN<Track>(p, true);
    case 11: return mkN<TrackND>(p, true);
    }
    bad(p[0]);
    return nullptr;
}
int main() { return run(make); }
