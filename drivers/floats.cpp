#include "kit.h"
#include <ce/ce.h>
using namespace kit;
using u64 = unsigned long long;
template<class T, class B> T of(u64 b) { B v = B(b); T t; memcpy(&t, &v, sizeof t); return t; }
struct Buf
{
    size_t n; char* p;
    Buf(size_t n) : n(n), p((char*)malloc(n)) { memset(p, 0x5a, n); }
    ~Buf() { free(p); }
};
template<class T, class B> void one(int w, u64 b)
{
    T v = of<T, B>(b);
    Buf t(32);
    char* e = ce::to_text(t.p, v);
    auto* s = new ce::as_string(v);
    Json j; j.q("float").i(w).u64(b).bytes(t.p, e - t.p >= 0 && e - t.p <= 32 ? e - t.p : 0).bytes(s->as, strlen(s->as));
    ev(j);
    delete s;
}
template<class T, class B> void list(int w, toks const& t)
{
    size_t n = t.size() - 2;
    T a[4];
    Json bits;
    for (size_t k = 0; k < n; ++k) { u64 b = U(t[k + 2]); bits.u64(b); a[k] = of<T, B>(b); }
    for (int vec = 0; vec < 2; ++vec)
    {
        Buf o(32 * n + 2 * n + 2);
        char* e = nullptr;
        if (vec)
            e = n == 1 ? ce::to_text(o.p, ce::vec<1, T>{ a[0] }) : n == 2 ? ce::to_text(o.p, ce::vec2<T>{ a[0], a[1] }) : n == 3 ? ce::to_text(o.p, ce::vec3<T>{ a[0], a[1], a[2] }) : ce::to_text(o.p, ce::vec4<T>{ a[0], a[1], a[2], a[3] });
        else if (n == 1) { T q[]{ a[0] }; e = ce::to_text(o.p, q); }
        else if (n == 2) { T q[]{ a[0], a[1] }; e = ce::to_text(o.p, q); }
        else if (n == 3) { T q[]{ a[0], a[1], a[2] }; e = ce::to_text(o.p, q); }
        else e = ce::to_text(o.p, a);
        Json j; j.q("list").i(w).arr(bits).bytes(o.p, e - o.p >= 0 && size_t(e - o.p) <= o.n ? e - o.p : 0);
        ev(j);
    }
    if (n == 2)
    {
        Buf o(70);
        char* e = ce::to_text(o.p, a[0], ", ", a[1]);
        auto* s = new ce::as_string(a[0], ", ", a[1]);
        Json j; j.q("row").i(w).arr(bits).bytes(o.p, e - o.p >= 0 && size_t(e - o.p) <= o.n ? e - o.p : 0).bytes(s->as, strlen(s->as));
        ev(j);
        delete s;
    }
}
struct S : Session
{
    void op(toks const& t) override
    {
        bool f = I(t[1]) == 32;
        if (t[0] == "float") return f ? one<float, unsigned>(32, U(t[2])) : one<double, u64>(64, U(t[2]));
        if (t[0] == "list") return f ? list<float, unsigned>(32, t) : list<double, u64>(64, t);
        bad(t[0]);
    }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
