#include "kit.h"
#include <ce/math.h>
using namespace kit;
using V2 = ce::vec2<int32_t>;
using W2 = ce::vec2<int64_t>;
template<class T, class...K> static Json pt(ce::vec2<T, K...> const& a) { return Json{}.i64(int64_t(a.x)).i64(int64_t(a.y)); }
template<class T, class...K> static Json pt(ce::vec3<T, K...> const& a) { return Json{}.i64(int64_t(a.x)).i64(int64_t(a.y)).i64(int64_t(a.z)); }
struct tag;

template<class T> static T un(str const& t) { return T(I(t)); }

// an operator, and its assigning form as an event of its own
template<class V, class T> static void vec_op(str const& op, V const& a, V const& b, T c)
{
    Json j;
    j.q("vec").q(op.c_str()).arr(pt(a));
    if (op == "+") j.arr(pt(b)).arr(pt(a + b));
    else if (op == "-") j.arr(pt(b)).arr(pt(a - b));
    else if (op == "*") j.i64(int64_t(c)).arr(pt(a * c));
    else if (op == "/") j.i64(int64_t(c)).arr(pt(a / c));
    else if (op == "==") j.arr(pt(b)).b(a == b);
    else if (op == "!=") j.arr(pt(b)).b(a != b);
    else if (op == "==s") j.i64(int64_t(c)).b(a == c);
    else if (op == "!=s") j.i64(int64_t(c)).b(a != c);
    else bad(op);
    ev(j);
    if (op == "+" || op == "-" || op == "*" || op == "/")
    {
        V q = a;
        V* s = op == "+" ? &(q += b) : op == "-" ? &(q -= b) : op == "*" ? &(q *= c) : &(q /= c);
        Json k; k.q("vec").q(op.c_str()).arr(pt(a));
        if (op == "+" || op == "-") k.arr(pt(b)); else k.i64(int64_t(c));
        if (s == &q) k.arr(pt(q)); else k.q("not the left side");
        ev(k);
    }
}
template<class T, class...K> static void vec_ops(str const& op, size_t n, toks const& t)
{
    T v[7]{};
    for (size_t k = 4; k < t.size(); ++k) v[k - 4] = un<T>(t[k]);
    if (n == 2) vec_op(op, ce::vec2<T, K...>{ v[0], v[1] }, ce::vec2<T, K...>{ v[2], v[3] }, v[2]);
    else vec_op(op, ce::vec3<T, K...>{ v[0], v[1], v[2] }, ce::vec3<T, K...>{ v[3], v[4], v[5] }, v[3]);
}
template<class T, class...K> static void products(str const& op, size_t n, toks const& t)
{
    T v[7]{};
    for (size_t k = 4; k < t.size(); ++k) v[k - 4] = un<T>(t[k]);
    Json j;
    j.q("vec").q(op.c_str());
    if (n == 1)
    {
        j.arr(Json{}.i64(int64_t(v[0]))).arr(Json{}.i64(int64_t(v[1])));
        if (op == "dot") j.i64(int64_t(ce::dotx(v[0], v[1]))); else j.i64(int64_t(ce::sqrx(v[0])));
    }
    else if (n == 2)
    {
        ce::vec2<T, K...> a{ v[0], v[1] }, b{ v[2], v[3] };
        j.arr(pt(a)).arr(pt(b));
        if (op == "dot") j.i64(int64_t(dotx(a, b))); else if (op == "sqr") j.i64(int64_t(sqrx(a))); else j.i64(int64_t(crossx(a, b)));
    }
    else
    {
        ce::vec3<T, K...> a{ v[0], v[1], v[2] }, b{ v[3], v[4], v[5] };
        j.arr(pt(a)).arr(pt(b));
        if (op == "dot") j.i64(int64_t(dotx(a, b))); else j.arr(pt(crossx(a, b)));
    }
    ev(j);
}
template<class T> static void poly(toks const& t, bool xy)
{
    size_t n = (t.size() - 4) / 2;
    auto* ps = (ce::vec2<T>*)malloc(sizeof(ce::vec2<T>) * n + !n);
    Json l;
    ce::vec2<T> p{ un<T>(t[2]), un<T>(t[3]) };
    for (size_t k = 0; k < n; ++k) { ps[k] = { un<T>(t[4 + 2 * k]), un<T>(t[5 + 2 * k]) }; l.arr(pt(ps[k])); }
    int64_t w = int64_t(xy ? ce::in_polygon_xy(int64_t(p.x), int64_t(p.y), n, ps) : ce::in_polygon(p, n, ps));
    free(ps);
    Json j; j.q("poly").arr(l).arr(pt(p)).i64(w); ev(j);
}
struct S : Session
{
    bool has = false; int64_t last = 0; int32_t root = 0;
    void op(toks const& t) override
    {
        Json j;
        j.q(t[0].c_str());
        auto n = [&](size_t k) { return int64_t(I(t[k])); };
        auto v = [&](size_t k) { return V2{ int32_t(n(k)), int32_t(n(k + 1)) }; };
        if (t[0] == "inside") { auto a = v(1), b = v(3); j.arr(pt(a)).arr(pt(b)).b(ce::inside(a, b)).b(ce::inside(b, a)); }
        else if (t[0] == "inside64") { W2 a{ n(1), n(2) }, b{ n(3), n(4) }; j = Json{}; j.q("inside").arr(pt(a)).arr(pt(b)).b(ce::inside(a, b)).b(ce::inside(b, a)); }
        else if (t[0] == "mesh") // nv verts nt tris x y interior
        {
            size_t at = 1; size_t nv = size_t(n(at++));
            std::vector<V2> vs; Json jv, jt, jr;
            for (size_t k = 0; k < nv; ++k, at += 2) { vs.push_back(v(at)); jv.arr(pt(vs.back())); }
            size_t nt = size_t(n(at++));
            V2 p = v(at + 3 * nt);
            for (size_t k = 0; k < nt; ++k, at += 3)
            {
                int x[3] = { int(n(at)), int(n(at + 1)), int(n(at + 2)) };
                auto a = vs[x[0]] - p, b = vs[x[1]] - p, c = vs[x[2]] - p;
                jt.arr(Json{}.i(x[0] + 1).i(x[1] + 1).i(x[2] + 1));
                jr.b(ce::inside(a, b) && ce::inside(b, c) && ce::inside(c, a));
            }
            j.arr(jv).arr(jt).arr(pt(p)).b(n(at + 2) != 0).arr(jr);
        }
        else if (t[0] == "near") j.arr(pt(v(1))).i64(n(3)).b(ce::in_range_rr(v(1).x, v(1).y, n(3)));
        else if (t[0] == "line" || t[0] == "edge" || t[0] == "ray" || t[0] == "segment")
        {
            auto p = v(1), d = v(4);
            auto* f = t[0] == "line" ? ce::in_range_rr_line : t[0] == "edge" ? ce::in_range_rr_edge : t[0] == "ray" ? ce::in_range_rr_ray : ce::in_range_rr_segment;
            j.arr(pt(p)).i64(n(3)).arr(pt(d)).b(f(p.x, p.y, n(3), d.x, d.y));
        }
        else if (t[0] == "hitedge" || t[0] == "hitray")
            j.arr(pt(v(1))).i64(n(3)).arr(pt(v(4))).arr(pt(v(6))).b(t[0] == "hitray" ? ce::ball_hits_ray(v(1), n(3), v(4), v(6)) : ce::ball_hits_edge(v(1), n(3), v(4), v(6)));
        else if (t[0] == "less") j.i64(n(1)).i64(n(2)).i64(n(3)).i64(n(4)).b(ce::ab_less_cd(n(1), n(2), n(3), n(4)));
        else if (t[0] == "poly") { if (t[1] == "64") poly<int64_t>(t, false); else poly<int32_t>(t, t[1] == "xy"); return; }
        else if (t[0] == "vec")
        {
            str const& op = t[1];
            size_t w = size_t(n(2));
            bool product = op == "dot" || op == "cross" || op == "sqr";
            if (t[3] == "32") product ? products<int32_t>(op, w, t) : vec_ops<int32_t>(op, w, t);
            else if (t[3] == "64") product ? products<int64_t>(op, w, t) : vec_ops<int64_t>(op, w, t);
            else if (t[3] == "tag") product ? products<int32_t, tag>(op, w, t) : vec_ops<int32_t, tag>(op, w, t);
            else product ? products<float>(op, w, t) : vec_ops<float>(op, w, t);
            return;
        }
        else if (t[0] == "isqrt")
        {
            int64_t a = n(1); int32_t r = ce::isqrt(a);
            j.i64(a).i64(r); ev(j);
            if (has) { Json k; k.q("mono").i64(last <= a ? last : a).i64(last <= a ? root : r).i64(last <= a ? a : last).i64(last <= a ? r : root); ev(k); }
            has = true; last = a; root = r;
            return;
        }
        else if (t[0] == "hypot") { auto a = v(1); j.arr(pt(a)).i64(ce::hypot(a.x, a.y)); }
        else if (t[0] == "angle") j.i64(int32_t(n(1))).i64(ce::degrees_to_angle(int32_t(n(1))));
        else bad(t[0]);
        ev(j);
    }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
