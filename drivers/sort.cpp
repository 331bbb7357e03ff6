#include "kit.h"
#include <ce/sort.h>
using namespace kit;
struct Item { int k, t; friend bool operator<(Item const& a, Item const& b) { return a.k < b.k; }
    friend bool operator>(Item const& a, Item const& b) { return a.k > b.k; }
    friend bool operator<=(Item const& a, Item const& b) { return a.k <= b.k; }
    friend bool operator>=(Item const& a, Item const& b) { return a.k >= b.k; } };
// McIlroy's adversary: an order is made up while the algorithm runs so that it learns as little as possible
static std::vector<int> val;
static int solid, candidate;
static const int gas = 0x7fffffff;
struct Foe
{
    int at;
    static int cmp(Foe const& a, Foe const& b)
    {
        int x = a.at, y = b.at;
        if (x != y && val[x] == gas && val[y] == gas) val[x == candidate ? x : y] = solid++;
        if (val[x] == gas) candidate = x; else if (val[y] == gas) candidate = y;
        return val[x] < val[y] ? -1 : val[x] > val[y];
    }
    friend bool operator<(Foe const& a, Foe const& b) { return cmp(a, b) < 0; }
    friend bool operator>(Foe const& a, Foe const& b) { return cmp(a, b) > 0; }
    friend bool operator<=(Foe const& a, Foe const& b) { return cmp(a, b) <= 0; }
    friend bool operator>=(Foe const& a, Foe const& b) { return cmp(a, b) >= 0; }
};
struct S : Session
{
    std::vector<Item> a;
    template<class T> void sort(T* b, T* e, str const& how)
    {
        if (how == "ins") ce::insertion_sort(b, e);
        else if (how == "def") ce::intro_sort(b, e);
        else if (how == "1") ce::intro_sort<1>(b, e);
        else if (how == "2") ce::intro_sort<2>(b, e);
        else if (how == "3") ce::intro_sort<3>(b, e);
        else if (how == "8") ce::intro_sort<8>(b, e);
        else bad(how);
    }
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        if (t[0] == "load")
        {
            a.clear();
            for (size_t n = 1; n < t.size(); ++n) a.push_back({ int(I(t[n])), int(n) });
            j.arr(out());
        }
        else if (t[0] == "fill" || t[0] == "steps")   // t[1] items: (n * t[2] + t[3]) % t[4], or n / t[2] + t[3]
        {
            a.clear();
            for (long long n = 0; n < I(t[1]); ++n) a.push_back({ int(t[0] == "fill" ? (n * I(t[2]) + I(t[3])) % I(t[4]) : n / I(t[2]) + I(t[3])), int(n) + 1 });
            j = Json{};
            j.q("load").arr(out());
        }
        else if (t[0] == "worst")   // t[1] items in the worst order for algorithm t[2]
        {
            size_t n = size_t(I(t[1]));
            val.assign(n, gas); solid = candidate = 0;
            std::vector<Foe> f(n);
            for (size_t k = 0; k < n; ++k) f[k].at = int(k);
            sort(f.data(), f.data() + n, t[2]);
            a.clear();
            for (size_t k = 0; k < n; ++k) a.push_back({ val[k] == gas ? int(n) : val[k], int(k) + 1 });
            j = Json{};
            j.q("load").arr(out());
        }
        else if (t[0] == "sort")
        {
            // exact-size heap block (ASan sees both ends), and once more between live neighbours
            size_t n = a.size();
            std::vector<Item> g(n + 4, Item{ 1, -5 });
            for (size_t k = 0; k < n; ++k) g[k + 2] = a[k];
            sort(g.data() + 2, g.data() + 2 + n, t[1]);
            bool ok = g[0].t == -5 && g[1].t == -5 && g[n + 2].t == -5 && g[n + 3].t == -5;
            Item* h = (Item*)malloc(n * sizeof(Item) + !n);
            for (size_t k = 0; k < n; ++k) h[k] = a[k];
            sort(h, h + n, t[1]);
            for (size_t k = 0; k < n; ++k) { ok = ok && h[k].k == g[k + 2].k; a[k] = h[k]; }
            free(h);
            j.q(t[1]).arr(out()).b(ok);
        }
        else if (t[0] == "sortk")
        {
            size_t n = a.size();
            std::vector<int> g(n + 4, -77);
            for (size_t k = 0; k < n; ++k) g[k + 2] = a[k].k;
            sort(g.data() + 2, g.data() + 2 + n, t[1]);
            bool ok = g[0] == -77 && g[1] == -77 && g[n + 2] == -77 && g[n + 3] == -77;
            Json l;
            for (size_t k = 0; k < n; ++k) { l.i(g[k + 2]); a[k] = { g[k + 2], int(k) + 1 }; }
            j.q(t[1]).arr(l).b(ok);
        }
        else if (t[0] == "lower" || t[0] == "upper")
        {
            int k = int(I(t[1]));
            size_t n = a.size();
            Item* h = (Item*)malloc(n * sizeof(Item) + !n);
            for (size_t x = 0; x < n; ++x) h[x] = a[x];
            Item key{ k, -1 };
            long r = (t[0] == "lower" ? ce::lower_bound<Item>(h, h + n, key) : ce::upper_bound<Item>(h, h + n, key)) - h;
            free(h);
            j.i(k).i(r);
        }
        else bad(t[0]);
        ev(j);
    }
    Json out() { Json l; for (auto& x : a) { Json p; p.i(x.k).i(x.t); l.arr(p); } return l; }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
