#include "kit.h"
#include <ce/pool.h>
using namespace kit;

template<size_t N, class T, class X> struct PoolS : Session
{
    using P = ce::pool<N, T, X>;
    using Q = typename P::queue_t;
    P p;
    std::vector<Q> qs;
    std::vector<std::pair<size_t, long>> held;
    PoolS(int nq) : qs(nq) { memset((void*)&p, 0xa5, sizeof p); p.reset(); for (auto& q : qs) q.reset(); }
    Json obs()
    {
        Json jq, je, jh, jt, jheld;
        for (size_t k = 0; k < qs.size(); ++k)
        {
            auto c = p; // drain a copy
            auto q = qs[k];
            Json l;
            size_t n = 0;
            je.b(c.is_empty(q));
            jh.i(c.is_empty(q) ? 0 : long(c.head(q)));
            jt.i(c.is_empty(q) ? 0 : long(c.tail(q)));
            long d = c.is_empty(q) ? 0 : long(c.head(q)) - 1; // of a large queue: its length and where its values stop being consecutive
            while (!c.is_empty(q) && n++ <= N + 2) { if (N < 1000) l.i(long(c.head(q))); else if (long(c.head(q)) != ++d) { d = long(c.head(q)); l.i(n); } if (!c.remove_head(q)) { l.i(-1); break; } }
            if (N < 1000) jq.arr(l); else { Json x; x.i(n).arr(l); jq.arr(x); }
        }
        auto c = p;
        size_t f = 0;
        while (c.alloc_index() != 0 && f <= 2 * N) ++f;
        for (auto& h : held) { Json x; x.i(h.first).i(long(p.data[h.first])); jheld.arr(x); }
        Json o;
        o.s = "{\"q\":[" + jq.s + "],\"e\":[" + je.s + "],\"h\":[" + jh.s + "],\"t\":[" + jt.s + "],\"cap\":" + std::to_string(P::capacity()) + ",\"free\":" + std::to_string(f) + ",\"held\":[" + jheld.s + "]}";
        return o;
    }
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        if (t[0] == "append" || t[0] == "insert")
        {
            auto& q = qs[I(t[1]) - 1];
            bool r = t[0] == "append" ? p.append_tail(q, T(I(t[2]))) : p.insert_head(q, T(I(t[2])));
            j.i(I(t[1])).i(I(t[2])).b(r);
        }
        else if (t[0] == "remove") j.i(I(t[1])).b(p.remove_head(qs[I(t[1]) - 1]));
        else if (t[0] == "alloc")
        {
            size_t n = p.alloc_index();
            if (n != 0 && n < N) { p.data[n] = T(I(t[1])); held.push_back({ n, 0 }); }
            j.i(I(t[1])).i(n);
        }
        else if (t[0] == "free")
        {
            // "free k": the k-th oldest held node (mod), or node 0 when there is none
            size_t n = 0;
            if (!held.empty()) { size_t k = size_t(I(t[1])) % held.size(); n = held[k].first; held.erase(held.begin() + k); }
            p.free_index(X(n));
            j.i(n);
        }
        else if (t[0] == "free0") { p.free_index(0); j = Json{}; j.q("free").i(0); }
        else if (t[0] == "reset") { p.reset(); for (auto& q : qs) q.reset(); held.clear(); }
        else if (t[0] == "fill")
        {
            long a = I(t[2]), n = 0;
            while (n <= long(N) + 2 && p.append_tail(qs[I(t[1]) - 1], T(a + n))) ++n;
            j.i(I(t[1])).i(a).i(n);
        }
        else if (t[0] == "drain")
        {
            auto& q = qs[I(t[1]) - 1];
            Json l;
            size_t n = 0;
            for (; !p.is_empty(q) && n++ <= N + 2;) { if (N < 1000) l.i(long(p.head(q))); if (!p.remove_head(q)) break; }
            if (N < 1000) j.i(I(t[1])).arr(l); else j.i(I(t[1])).i(long(n));
        }
        else bad(t[0]);
        j.raw(obs().s);
        ev(j);
    }
};

// S kind capacity queues
Session* make(toks const& p)
{
    int nq = int(I(p[2]));
    switch (I(p[0]))
    {
    case 0: return new PoolS<1, int, uint8_t>(nq);
    case 1: return new PoolS<2, long, uint8_t>(nq);
    case 2: return new PoolS<3, int, uint16_t>(nq);
    case 3: return new PoolS<4, int, uint16_t>(nq);
    case 4: return new PoolS<5, short, uint16_t>(nq);
    case 5: return new PoolS<9, long, uint32_t>(nq);
    case 6: return new PoolS<256, int, uint8_t>(nq);
    case 7: return new PoolS<17, double, uint16_t>(nq);
    case 8: return new PoolS<301, int, uint16_t>(nq);
    case 9: return new PoolS<70001, int, uint32_t>(nq);
    }
    bad(p[0]);
    return nullptr;
}
int main() { return run(make); }
