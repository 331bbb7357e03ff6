#include "kit.h"
#include <type_traits>
#include <ce/ce.h>
#include <thread>
using namespace kit;
namespace words
{
    struct G { uint32_t const* w; size_t k; };
    inline uint32_t read(G const& g) { return g.w[g.k]; }
    inline G step(G const& g) { return { g.w, g.k + 1 }; }
    // first word x, then a word every n accepts
    struct H { uint32_t x; uint32_t k; };
    inline uint32_t read(H const& g) { return g.k ? 0xffffffffu : g.x; }
    inline H step(H const& g) { return { g.x, g.k + 1 }; }
}
struct W : Session
{
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        if (t[0] == "wranged" || t[0] == "wunbiased")
        {
            uint32_t n = uint32_t(U(t[1]));
            Json l;
            // exact heap block: drawing past the last word is seen by the sanitizer
            size_t m = t.size() - 2;
            uint32_t* w = (uint32_t*)malloc(m * 4);
            for (size_t k = 0; k < m; ++k) { w[k] = uint32_t(U(t[k + 2])); l.u64(w[k]); }
            words::G g{ w, 0 };
            uint32_t v = t[0] == "wranged" ? ce::random::next_ranged(g, n) : ce::random::next_unbiased(g, n);
            free(w);
            j.u64(n).arr(l).u64(v).i(g.k);
            ev(j);
        }
        else if (t[0] == "hist")
        {
            limit(0);
            std::vector<std::thread> ts;
            std::vector<Json> out(t.size() - 1);
            for (size_t q = 1; q < t.size(); ++q)
                ts.emplace_back([&, q] {
                    uint32_t n = uint32_t(U(t[q]));
                    std::vector<uint32_t> count(n);
                    uint64_t rejected = 0;
                    for (uint64_t x = 0; x < 0x100000000ull; ++x)
                    {
                        words::H g{ uint32_t(x), 0 };
                        uint32_t v = ce::random::next_unbiased(g, n);
                        if (g.k != 1) ++rejected;
                        else if (v < n) ++count[v];
                    }
                    uint32_t a = ~0u, b = 0;
                    for (uint32_t c : count) { if (c < a) a = c; if (c > b) b = c; }
                    out[q - 1].q("hist").u64(n).u64(a).u64(b).u64(rejected);
                });
            for (auto& x : ts) x.join();
            for (auto& x : out) ev(x);
        }
        else bad(t[0]);
    }
};
template<class G> struct Two : Session
{
    G g{ 1, 2 };
    // the two words of the state, whatever the fields are called
    using W = typename std::conditional<sizeof(G) == 8, uint32_t, uint64_t>::type;
    void st(Json& j) { W w[2]; static_assert(sizeof w == sizeof g, "two words"); memcpy(w, &g, sizeof w); Json a; a.u64(w[0]).u64(w[1]); j.arr(a); }
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        if (t[0] == "state") { W w[2] = { W(U(t[1])), W(U(t[2])) }; memcpy((void*)&g, w, sizeof w); }
        else if (t[0] == "seed")
        {
            str b = unhex(t[1]);
            uint8_t* p = (uint8_t*)malloc(b.size() + !b.size());
            memcpy(p, b.data(), b.size());
            seed(g, b.size(), p);
            free(p);
            j.bytes(b.data(), b.size());
        }
        else if (t[0] == "seednull") { seed(g, 0, nullptr); j.bytes("", 0); j.s.replace(0, j.s.find(','), "\"seed\""); }
        else if (t[0] == "next") j.u64(next(g));
        else if (t[0] == "next32") j.u64(next32(g));
        else if (t[0] == "next64") j.u64(next64(g));
        else bad(t[0]);
        st(j);
        ev(j);
    }
};
struct P : Session
{
    ce::pcg32_64_t g{};
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        if (t[0] == "state") g = ce::pcg32_64_t(U(t[1]));
        else if (t[0] == "seed") { str b = unhex(t[1]); seed(g, b.size(), (uint8_t const*)b.data()); j.bytes(b.data(), b.size()); }
        else if (t[0] == "seednull") { seed(g, 0, nullptr); j.bytes("", 0); j.s.replace(0, j.s.find(','), "\"seed\""); }
        else if (t[0] == "seed64") { seed(g, uint64_t(U(t[1]))); j.u64(U(t[1])); }
        else if (t[0] == "next") j.u64(next(g));
        else if (t[0] == "ranged") { uint32_t n = uint32_t(U(t[1])); j.u64(n); j.u64(next_ranged(g, n)); }
        else if (t[0] == "unbiased") { uint32_t n = uint32_t(U(t[1])); j.u64(n); j.u64(next_unbiased(g, n)); }
        else bad(t[0]);
        Json a; a.u64(uint64_t(g)); j.arr(a);
        ev(j);
    }
};
Session* make(toks const& p)
{
    if (p[0] == "ss") return new Two<ce::xoroshiro64ss>;
    if (p[0] == "pp") return new Two<ce::xoroshiro128pp>;
    if (p[0] == "pcg") return new P;
    return new W;
}
int main() { return run(make); }
