// C01 - C05: ce/cdt.h
#include "kit.h"
#include "ce/cdt.h"
#include <map>
using namespace kit;

#ifdef VIEWS
#define ASKED(P) asked.push_back(P);
#define FORGET seen.clear(), order.clear();
#else
#define ASKED(P)
#define FORGET
#endif
template<size_t Q, size_t N> struct S : Session
{
    ce::cdt<Q, N>& m;
    S() : m(*(ce::cdt<Q, N>*)malloc(sizeof(ce::cdt<Q, N>)))
    {
        memset((void*)&m, 0x5a, sizeof m);
        m.reset();
        Json j;
        ev(j.q("reset").raw(mesh()));
    }
    ~S() { free((void*)&m); }
    static int side(int n) { return n == 0 ? 0 : n < 24 || n % 4 == 3 ? -1 : 3 * (n / 4 - 6) + n % 4 + 1; }
#ifdef VIEWS
    // without the fields: through the public iterators only, vertices numbered as they are first seen
    std::map<std::pair<int, int>, int> seen;
    std::vector<std::pair<int, int>> order;
    std::vector<ce::vec2<int32_t>> asked;
    int faces() const { int n = 0; auto v = m.faces(); for (auto it = v.begin(); it != v.end(); ++it) ++n; return n; }
    int vert(ce::vec2<int32_t> p)
    {
        constexpr int w = 1 << Q;
        std::pair<int, int> k{ p.x / w, p.y / w };
        auto it = seen.find(k);
        if (it != seen.end()) return it->second;
        order.push_back(k);
        return seen[k] = int(order.size());
    }
    str mesh()
    {
        Json v, f;
        if (order.empty()) for (int y : { -32768, 32767 }) for (int x : { -32768, 32767 }) { order.push_back({ x, y }); seen[{ x, y }] = int(order.size()); }
        // what was asked for comes first
        std::map<std::pair<int, int>, bool> now;
        for (auto x : m.faces()) for (auto u : x.ps) now[{ u.x / (1 << Q), u.y / (1 << Q) }] = true;
        for (auto u : asked)
        {
            std::pair<int, int> k{ (u.x >> Q) & ~1, (u.y >> Q) & ~1 };
            if (now.count(k) && !seen.count(k)) { order.push_back(k); seen[k] = int(order.size()); }
        }
        asked.clear();
        for (auto x : m.faces())
        {
            Json p;
            for (auto u : x.ps) p.i(vert(u));
            for (auto e : x.es) p.i(side(int(e)));
            for (bool c : x.cs) p.b(c);
            f.arr(p.i(x.data));
        }
        for (auto u : order) { Json p; p.i(u.first).i(u.second); v.arr(p); }
        return "[" + v.s + "],[" + f.s + "]";
    }
#else
    int faces() const { return int(2 * m.size - 6); }
    str mesh()
    {
        Json v, f;
        for (size_t k = 0; k < m.size; ++k) { Json p; p.i(m.vs[k].x).i(m.vs[k].y); v.arr(p); }
        for (int k = 6; k < 6 + faces(); ++k)
        {
            auto& x = m.fs[k];
            Json p;
            p.i(x.p0 + 1).i(x.p1 + 1).i(x.p2 + 1).i(side(x.e0)).i(side(x.e1)).i(side(x.e2)).b(x.c0).b(x.c1).b(x.c2).i(x.fi);
            f.arr(p);
        }
        return "[" + v.s + "],[" + f.s + "]";
    }
#endif
    ce::uint hint(str const& s) { long long h = I(s); return h < 0 ? ce::uint(24 + (-h) % (faces() * 4)) : ce::uint(h); }
    void op(toks const& t) override
    {
        str const& o = t[0];
        Json j;
        j.q(o);
        if (o == "point")
        {
            ce::vec2<int32_t> p{ (int)I(t[1]), (int)I(t[2]) };
            ASKED(p)
            bool ok = m.insert_point(p, hint(t[3]));
            j.i(p.x).i(p.y).b(ok).raw(mesh());
        }
        // many points and one look at the mesh: "points n seed range kind"
        else if (o == "points")
        {
            unsigned r = unsigned(I(t[2])), range = unsigned(I(t[3])), kind = unsigned(I(t[4]));
            Json ps, ok;
            for (int k = 0; k < I(t[1]); ++k)
            {
                auto rnd = [&] { r = r * 1664525u + 1013904223u; return int((r >> 8) % (2 * range)) - int(range); };
                int x = rnd(), y = rnd();
                if (kind == 1) x = x / 1024 * 1024, y = y / 1024 * 1024;
                if (kind == 2) y = x + y / 512;
                if (kind == 3) { int d = int(range) / 91 * 2; x = (k % 90 - 45) * d; y = (k / 90 - 45) * d; }
                ASKED((ce::vec2<int32_t>{ x, y }))
                bool b = m.insert_point({ x, y }, k % 3 ? hint(std::to_string(-1 - abs(rnd()))) : 0);
                Json p; p.i(x).i(y); ps.arr(p);
                ok.b(b);
            }
            j.arr(ps).arr(ok).raw(mesh());
        }
        else if (o == "edge")
        {
            ce::vec2<int32_t> p{ (int)I(t[1]), (int)I(t[2]) }, q{ (int)I(t[3]), (int)I(t[4]) };
            ASKED(p) ASKED(q)
            bool ok = m.insert_edge(p, q, hint(t[5]));
            j.i(p.x).i(p.y).i(q.x).i(q.y).b(ok).raw(mesh());
        }
        else if (o == "locate")
        {
            ce::vec2<int32_t> p{ (int)I(t[1]), (int)I(t[2]) };
            ce::uint n = m.locate(p, hint(t[3]));
            j.i(p.x).i(p.y).i(n == 0 ? 0 : n % 4 == 3 && n >= 24 && n < ce::uint(24 + faces() * 4) ? int(n / 4) - 5 : -1);
        }
        else if (o == "fill")
        {
            int f = int(I(t[1])) % faces();
            m.fill(ce::uint((f + 6) * 4 + I(t[3]) % 4), uint16_t(I(t[2])));
            j.i(f + 1).i(I(t[2])).raw(mesh());
        }
        else if (o == "views")
        {
            // the public iterators
            Json es, fs, via;
            for (auto e : m.edges()) { Json x; x.i(e.u.x).i(e.u.y).i(e.v.x).i(e.v.y).b(e.primary).b(e.constrained); es.arr(x); }
            for (auto f : m.faces())
            {
                Json x;
                for (auto p : f.ps) x.i(p.x).i(p.y);
                for (auto e : f.es) x.i(side(int(e)));
                for (bool c : f.cs) x.b(c);
                x.i(f.data);
                fs.arr(x);
            }
            for (ce::uint n = 24, z = ce::uint(24 + faces() * 4); n < z; ++n)
                if (n % 4 != 3)
                {
                    auto e = m[typename ce::cdt<Q, N>::edge_id_t(n)];
                    auto a = m.edge_vert_a(n), b = m.edge_vert_b(n), c = m.edge_vert_o(n);
                    Json x;
                    x.i(e.u.x).i(e.u.y).i(e.v.x).i(e.v.y).b(e.primary).b(e.constrained).i(a.x).i(a.y).i(b.x).i(b.y).i(c.x).i(c.y);
                    via.arr(x);
                }
            j.arr(es).arr(fs).arr(via);
        }
        else if (o == "reset") { m.reset(); FORGET j.raw(mesh()); }
        else bad(o);
        ev(j);
    }
};
Session* make(toks const& p)
{
    str k = p[0] + "/" + p[1];
    if (k == "0/8192") return new S<0, 8192>;
    if (k == "0/9") return new S<0, 9>;
    if (k == "0/40") return new S<0, 40>;
    if (k == "3/64") return new S<3, 64>;
    if (k == "6/8192") return new S<6, 8192>;
    if (k == "0/300") return new S<0, 300>;
    if (k == "6/300") return new S<6, 300>;
    if (k == "0/20000") return new S<0, 20000>;
    bad(k);
    return nullptr;
}
int main() { return run(make); }
