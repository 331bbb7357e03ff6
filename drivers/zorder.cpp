#include "kit.h"
#include <algorithm>
#include <ce/zorder.h>
using namespace kit;
struct S : Session
{
    std::vector<uint64_t> d;
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0]);
        if (t[0] == "encode") { int32_t x = int32_t(I(t[1])), y = int32_t(I(t[2])); j.i64(x).i64(y).u64(ce::z_encode(x, y)); }
        else if (t[0] == "inside")
        {
            int32_t v[6];
            for (int k = 0; k < 6; ++k) { v[k] = int32_t(I(t[k + 1])); j.i64(v[k]); }
            j.b(ce::z_inside(ce::z_encode(v[0], v[1]), ce::z_encode(v[2], v[3]), ce::z_encode(v[4], v[5])));
        }
        else if (t[0] == "load") // pairs of coordinates, or z<code>
        {
            d.clear();
            for (size_t k = 1; k < t.size();)
                if (t[k][0] == 'z') d.push_back(U(t[k++].substr(1)));
                else { d.push_back(ce::z_encode(int32_t(I(t[k])), int32_t(I(t[k + 1])))); k += 2; }
            std::sort(d.begin(), d.end());
            Json l;
            for (auto z : d) l.u64(z);
            j.arr(l);
        }
        else if (t[0] == "grid")    // t[1] points in rows of t[2], from (t[3], t[4]), t[5] and t[6] apart
        {
            d.clear();
            for (long long k = 0; k < I(t[1]); ++k) d.push_back(ce::z_encode(int32_t(I(t[3]) + k % I(t[2]) * I(t[5])), int32_t(I(t[4]) + k / I(t[2]) * I(t[6]))));
            std::sort(d.begin(), d.end());
            Json l;
            for (auto z : d) l.u64(z);
            j = Json{};
            j.q("load").arr(l);
        }
        else if (t[0] == "query")
        {
            int32_t v[4];
            for (int k = 0; k < 4; ++k) v[k] = int32_t(I(t[k + 1]));
            uint64_t lo = ce::z_encode(v[0], v[1]), hi = ce::z_encode(v[2], v[3]);
            uint64_t* in = (uint64_t*)malloc(8 * d.size() + !d.size());
            uint64_t* out = (uint64_t*)malloc(8 * d.size() + !d.size());
            for (size_t k = 0; k < d.size(); ++k) in[k] = d[k];
            size_t n = ce::z_query(out, lo, hi, d.size(), in);
            Json l;
            for (size_t k = 0; k < n && k < d.size(); ++k) l.u64(out[k]);
            if (n > d.size()) l.u64(~0ull);
            free(in); free(out);
            j.u64(lo).u64(hi).arr(l);
        }
        else bad(t[0]);
        ev(j);
    }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
