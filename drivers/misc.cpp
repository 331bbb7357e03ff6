// priority queue, bitset, span, dictionary
#include "kit.h"
#include <ce/ce.h>
#include <ce/dictionary.h>
using namespace kit;

//---- priority queue
struct Item { int k, t; friend bool operator<(Item const& a, Item const& b) { return a.k < b.k; }
    friend bool operator>(Item const& a, Item const& b) { return a.k > b.k; }
    friend bool operator<=(Item const& a, Item const& b) { return a.k <= b.k; }
    friend bool operator>=(Item const& a, Item const& b) { return a.k >= b.k; } };
template<size_t N> struct PqS : Session
{
    struct { uint64_t g0; ce::min_priority_queue<N, Item> q; uint64_t g1; } m;
    int tag = 0;
    PqS() { memset((void*)&m, 0x5a, sizeof m); m.q.size = 0; }
    static Json it(Item x) { Json j; j.i(x.k).i(x.t); return j; }
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        auto& q = m.q;
        if (t[0] == "enqueue") { Item x{ int(I(t[1])), ++tag }; bool r = q.enqueue(x); j.arr(it(x)).b(r); }
        else if (t[0] == "many") // count, start, step, modulus
        {
            Json xs, oks;
            for (long n = 0; n < I(t[1]); ++n) { Item x{ int((I(t[2]) + n * I(t[3])) % I(t[4])), ++tag }; xs.arr(it(x)); oks.b(q.enqueue(x)); }
            j.arr(xs).arr(oks);
        }
        else if (t[0] == "dequeue") { if (q.empty()) return; j.arr(it(q.dequeue())); }
        else bad(t[0]);
        Json d;
        auto& c = *new ce::min_priority_queue<N, Item>(q);
        for (size_t n = 0; !c.empty() && n <= N; ++n) d.arr(it(c.dequeue()));
        delete &c;
        if (m.g0 != 0x5a5a5a5a5a5a5a5a || m.g1 != 0x5a5a5a5a5a5a5a5a) d.i(-1);
        j.raw("{\"empty\":" + str(q.empty() ? "true" : "false") + ",\"head\":[" + (q.empty() ? "0,0" : it(q.head()).s) + "],\"drained\":[" + d.s + "]}");
        ev(j);
    }
};
// the check fails, once: the hook does not come back
template<class F> void fails(F f)
{
    jmp_buf jump;
    error_count = 0;
    expect_error = true;
    error_jump = &jump;
    if (!setjmp(jump)) f();
    error_jump = nullptr;
    expect_error = false;
}
//---- bitset
template<size_t N> struct BitS : Session
{
    struct { uint64_t g0; ce::bitset<N> b; unsigned char g1[9]; } m;
    BitS() { memset((void*)&m, 0x5a, sizeof m); }
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        auto& b = m.b;
        if (t[0] == "bit") { size_t i = U(t[1]); bool v = I(t[2]); if (v) b.set(i); else b.reset(i); j.i(i).b(v); }
        else if (t[0] == "setv") { size_t i = U(t[1]); bool v = I(t[2]); b.set(i, v); j.i(i).b(v); }
        else if (t[0] == "all") { bool v = I(t[1]); if (v) b.set(); else b.reset(); j.b(v); }
        else if (t[0] == "outside")
        {
            // an index that is none: the check fails before anything is touched (the hook does not return)
            size_t i = U(t[1]);
            auto const& c = b;
            Json l;
            auto refused = [&](int how)
            {
                fails([&] { if (how == 0) b.set(i); else if (how == 1) b.reset(i); else if (how == 2) b.set(i, true); else if (how == 3) b.set(i, false); else { volatile bool v = c[i]; (void)v; } });
                return error_count;
            };
            for (int how = 0; how < 5; ++how) l.i(refused(how));
            Json x; x.s = std::to_string(i);
            j.q(x.s).arr(l);
        }
        else bad(t[0]);
        Json on;
        for (size_t i = 0; i < N; ++i) if (b[i]) on.i(i);
        bool g = m.g0 == 0x5a5a5a5a5a5a5a5a;
        for (auto c : m.g1) g = g && c == 0x5a;
        j.raw("{\"size\":" + std::to_string(b.get_size()) + ",\"guard\":" + (g ? "true" : "false") + ",\"on\":[" + on.s + "]}");
        ev(j);
    }
};
//---- span
template<class T> struct SpanS : Session
{
    T data[4000];
    ce::span<T> s;
    SpanS(size_t n) { for (int i = 0; i < 4000; ++i) data[i] = T(i - 8); s = { n, data + 8 }; }
    void op(toks const& t) override
    {
        size_t n = U(t[1]);
        long shown = long(n);
        if (n >= 2147483640) { n = ~size_t(0) - (2147483647 - n); shown = 2147483647; }
        else if (n >= 2147483600) { n = (size_t(1) << 32) + (n - 2147483600); shown = 2147483647; }
        if (t[0] == "skip") s = skip(s, n); else if (t[0] == "trim") s = trim(s, n); else bad(t[0]);
        ce::span<T> const& c = s;
        Json j, l, k, e;
        // the items met on the way from begin to end, seen as they are and as const
        auto b = s.begin();
        auto cb = c.begin();
        long m = s.end() - b, cm = c.end() - cb;
        if (b >= data && m >= 0 && m < 60 && b + m < data + 4000) for (auto& x : s) { l.i(long(x)); }
        if (cb >= data && cm >= 0 && cm < 60 && cb + cm < data + 4000) for (auto& x : c) { k.i(long(x)); }
        e.i(b - (data + 8)).i(m).i(cb - (data + 8)).i(cm);
        j.q(t[0]).i(shown).i(s.data - (data + 8)).i(s.size > 1000000 ? -1 : long(s.size)).arr(l).arr(k).arr(e);
        ev(j);
    }
};
//---- dictionary
#include <set>
static std::set<void const*> alive;
static int wrong = 0;
struct Tracked
{
    long v;
    Tracked() : v(0) { born(); }
    explicit Tracked(long v) : v(v) { born(); }
    Tracked(Tracked const& o) : v(o.v) { used(&o); born(); }
    Tracked& operator=(Tracked const& o) { used(this); used(&o); v = o.v; return *this; }
    ~Tracked() { wrong += !alive.erase(this); v = -77; }
    void born() { wrong += !alive.insert(this).second; }
    static void used(void const* p) { wrong += !alive.count(p); }
    explicit operator long() const { used(this); return v; }
};
template<class T> constexpr bool tracked = false;
template<> constexpr bool tracked<Tracked> = true;
template<class K> K key(long v) { return K(v); }
template<int N, class T, class K> struct DictS : Session
{
    ce::dictionary<N, T, K>* d;
    std::vector<long> keys;
    DictS(toks const& p)
    {
        alive.clear(); wrong = 0;
        d = ::new (malloc(sizeof *d)) ce::dictionary<N, T, K>{};
        for (size_t k = 2; k < p.size(); ++k) keys.push_back(I(p[k]));
    }
    ~DictS() { free(d); }
    Json obs()
    {
        Json r;
        auto const& c = *d;
        for (auto k : keys)
        {
            Json x;
            x.i(k);
            auto f = d->find(key<K>(k));
            x.i(long(f));
            if (f != ce::dictionary<N, T, K>::ptr_t::nil) x.i(long((*d)[f])).i(long(c[f])).i(long((*d)[key<K>(k)])).i(long(c[key<K>(k)]));
            r.arr(x);
        }
        return r;
    }
    void pre(std::vector<long> k, int n, int h, size_t& pos, Json& l)
    {
        if (n >= h) return;
        pre(k, 2 * n, h, pos, l);
#ifndef NO_TREE
        d->names[n] = key<K>(k[pos]);
        d->data[n] = T(k[pos] % 50 + 7);
        Json e;
        e.i(k[pos]).i(n).i(long(d->data[n]));
        l.arr(e);
#endif
        ++pos;
        pre(k, 2 * n + 1, h, pos, l);
    }
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        if (t[0] == "bind") { auto r = d->bind(key<K>(I(t[1])), T(I(t[2]))); j.i(I(t[1])).i(I(t[2])).i(long(r)); }
        else if (t[0] == "find") { auto r = d->find(key<K>(I(t[1]))); j.i(I(t[1])).i(long(r)); }
        else if (t[0] == "put") { if (long(d->find(key<K>(I(t[1])))) == 0) return; (*d)[key<K>(I(t[1]))] = T(I(t[2])); j.i(I(t[1])).i(I(t[2])); }
        else if (t[0] == "pre") // keys in descending order
        {
            std::vector<long> k;
            for (size_t n = 1; n < t.size(); ++n) k.push_back(I(t[n]));
            Json l;
            size_t pos = 0;
#ifdef NO_TREE
            bad(t[0]);
#else
            d->heap = d->size = k.size() + 1;
#endif
            pre(k, 1, int(k.size()) + 1, pos, l);
            j.arr(l);
        }
        else if (t[0] == "fill")
        {
            Json l;
            for (long k = I(t[1]); k <= I(t[2]); ++k) l.i(long(d->bind(key<K>(k), T(k * 7 % 1000))));
            j.i(I(t[1])).i(I(t[2])).arr(l);
        }
        else if (t[0] == "miss")
        {
            // access through the name, both ways
            auto const& c = *d;
            Json l;
            fails([&] { (void)&(*d)[key<K>(I(t[1]))]; }); l.i(error_count);
            fails([&] { (void)&c[key<K>(I(t[1]))]; }); l.i(error_count);
            j.i(I(t[1])).arr(l);
        }
        else if (t[0] == "missp")
        {
            auto const& c = *d;
            auto p = typename ce::dictionary<N, T, K>::ptr_t(I(t[1]));
            Json l;
            fails([&] { (void)&(*d)[p]; }); l.i(error_count);
            fails([&] { (void)&c[p]; }); l.i(error_count);
            j.i(I(t[1])).arr(l);
        }
        else bad(t[0]);
        expect_error = false;
        j.arr(obs());
        ev(j);
        if (tracked<T>) { Json l; l.q("life").i(long(alive.size())).i(wrong); ev(l); }
    }
};
enum class Ek : unsigned short { };
Session* make(toks const& p)
{
    auto& k = p[0];
    int n = int(I(p[1]));
    if (k == "pq") switch (n) { case 1: return new PqS<1>; case 2: return new PqS<2>; case 5: return new PqS<5>; case 8: return new PqS<8>; case 33: return new PqS<33>; case 300: return new PqS<300>; case 66000: return new PqS<66000>; }
    if (k == "bitset") switch (n) { case 1: return new BitS<1>; case 7: return new BitS<7>; case 8: return new BitS<8>; case 9: return new BitS<9>; case 16: return new BitS<16>; case 65: return new BitS<65>; case 300: return new BitS<300>; case 66003: return new BitS<66003>; }
    if (k == "span") return new SpanS<int>(n);
    if (k == "spanc") return new SpanS<short>(n);
    if (k == "dict") switch (n) { case 1: return new DictS<1, int, int>(p); case 2: return new DictS<2, int, int>(p); case 4: return new DictS<4, long, int>(p); case 5: return new DictS<5, int, Ek>(p); case 16: return new DictS<16, long, long>(p); case 40: return new DictS<40, int, int>(p); case 300: return new DictS<300, short, int>(p); case 6: return new DictS<6, Tracked, int>(p); case 9: return new DictS<9, Tracked, short>(p); case 66000: return new DictS<66000, short, int>(p); }
    bad(k);
    return nullptr;
}
int main() { return run(make); }
