// N02, N03: rotation, polar form and intersection of lines
#include "kit.h"
#include <ce/math.h>
using namespace kit;
using V2 = ce::vec2<int32_t>;
static Json pt(V2 const& a) { return Json{}.i64(a.x).i64(a.y); }
struct S : Session
{
    void op(toks const& t) override
    {
        Json j;
        auto n = [&](size_t k) { return int32_t(I(t[k])); };
        auto v = [&](size_t k) { return V2{ n(k), n(k + 1) }; };
        j.q(t[0].c_str());
        if (t[0] == "rot") { auto r = ce::cordic::rotate(n(1), n(2), n(3)); j.arr(pt(v(1))).i64(n(3)).arr(pt(r)); }
        else if (t[0] == "cart") { auto r = ce::to_cartesian(n(1), n(2)); j.i64(n(1)).i64(n(2)).arr(pt(r)).i64(ce::cos_2pi(n(1), n(2))).i64(ce::sin_2pi(n(1), n(2))); }
        else if (t[0] == "quarter")
        {
            Json l;
            for (int k = -4; k <= 4; ++k) { auto r = ce::cordic::rotate(n(1), n(2), int32_t(uint32_t(n(3)) + k * 0x20000000u)); l.arr(pt(r)); }
            j.arr(l);
        }
        else if (t[0] == "polar")
        {
            auto r = ce::to_polar(n(1), n(2));
            j.arr(pt(v(1))).arr(pt(r)).i64(ce::polar_mag(n(1), n(2))).i64(ce::polar_ang(n(1), n(2))).i64(ce::atan2_2pi(n(2), n(1)));
        }
        else if (t[0] == "vector") { auto r = ce::cordic::vector(n(1), n(2), n(3)); j.arr(pt(v(1))).i64(n(3)).arr(pt(r)); }
        else if (t[0] == "cross")
        {
            V2 r{ 77, 77 };
            V2 a = v(1), b = v(3), c = v(5), d = v(7);
            bool k = ce::intersect(a, b, c, d, r);
            j.arr(pt(a)).arr(pt(b)).arr(pt(c)).arr(pt(d)).b(k).arr(pt(r));
        }
        else if (t[0] == "muldiv") { auto r = ce::muldiv(v(1), n(3), n(4)); j.arr(pt(v(1))).i64(n(3)).i64(n(4)).arr(pt(r)); }
        else if (t[0] == "normal")
        {
            unsigned b[3]; float f[3];
            for (int k = 0; k < 3; ++k) b[k] = unsigned(U(t[k + 1]));
            memcpy(f, b, sizeof f);
            unsigned q[3];
            if (t.size() > 4) { struct tag; auto r = ce::normal(ce::vec3<float, tag>{ f[0], f[1], f[2] }); float g[3]{ r.x, r.y, r.z }; memcpy(q, g, sizeof g); }
            else { auto r = ce::normal(ce::vec3<float>{ f[0], f[1], f[2] }); float g[3]{ r.x, r.y, r.z }; memcpy(q, g, sizeof g); }
            Json a, c;
            for (int k = 0; k < 3; ++k) { a.u64(b[k]); c.u64(q[k]); }
            j.arr(a).arr(c);
        }
        else if (t[0] == "muldivx") { int64_t a = I(t[3]), b = I(t[4]); auto r = ce::muldiv(v(1), a, b); j = Json{}; j.q("muldiv").arr(pt(v(1))).i64(a).i64(b).arr(pt(r)); }
        else bad(t[0]);
        ev(j);
    }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
