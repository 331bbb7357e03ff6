#include "kit.h"
#include <type_traits>
#include <ce/ce.h>
using namespace kit;
struct M0 { int v; };
struct M1 { int v; M1() {} };
struct M2 { int v; M2(M2 const&) = default; M2() = default; };
struct M3 { char v[40]; };
enum Enum : unsigned char { E_0 };
struct S1 { char a; };
struct S16 { char a[16]; };
struct S17 { char a[17]; };
struct Guarded { int a; Guarded(Guarded const&); ~Guarded(); };
template<class T> char const* base()
{
#define N(X) if (std::is_same<T, X>::value) return #X;
    N(int) N(char) N(bool) N(float) N(double) N(Enum) N(S1) N(S16) N(S17) N(Guarded)
    return "?";
}
template<class T> void layers(Json& j)
{
    constexpr bool lref = std::is_lvalue_reference<T>::value, rref = std::is_rvalue_reference<T>::value;
    using U = std::remove_cv_t<T>;
    char const* k;
    if constexpr (lref || rref) { layers<std::remove_reference_t<T>>(j); k = lref ? "l" : "r"; }
    else if constexpr (std::is_pointer<T>::value) { layers<std::remove_pointer_t<T>>(j); k = "p"; }
    else k = base<U>();
    Json l; l.q(k).b(std::is_const<T>::value).b(std::is_volatile<T>::value);
    j.arr(l);
}
template<class...Ts> struct list {};
template<class T> void put(Json& j) { Json l; layers<T>(l); j.arr(l); }
template<class...Ts> void puts(Json& j) { Json l; (void)l; (put<Ts>(l), ...); j.arr(l); }
template<class T> void transforms()
{
#define X(NAME) { Json j; j.q("type").q(#NAME); put<T>(j); put<ce::NAME##_t<T>>(j); ev(j); }
    X(identity) X(remove_reference) X(remove_const) X(remove_volatile) X(remove_cv) X(remove_cvref) X(remove_pointer) X(best_pass_by_value)
#define Y(NAME, V) { Json j; j.q("is").q(NAME); put<T>(j); j.b(V); ev(j); }
    Y("ptr", ce::is_ptr<T>::value) Y("enum", ce::is_enum<T>::value)
}
template<size_t N, class...Ts> void select() { Json j; j.q("select").i(N); puts<Ts...>(j); put<ce::select_t<N, Ts...>>(j); ev(j); }
template<class...Ts> void lists()
{
    { Json j; j.q("same"); puts<Ts...>(j); j.b(ce::are_same_v<Ts...>); ev(j); }
    if constexpr (sizeof...(Ts) == 2) { Json j; j.q("same"); puts<Ts...>(j); j.b(ce::is_same_v<Ts...>); ev(j); }
    { Json j; j.q("has"); puts<Ts...>(j); j.b(ce::has_v<Ts...>); ev(j); }
    Json j; j.q("types"); puts<Ts...>(j); j.i(ce::types<Ts...>::count);
    if constexpr (sizeof...(Ts) > 0) { put<ce::car_t<Ts...>>(j); j.i(ce::cdr_t<Ts...>::count); }
    ev(j);
    if constexpr (sizeof...(Ts) > 1)
    {
        { Json j; j.q("cond").b(true); puts<Ts...>(j); put<ce::cond_t<true, Ts...>>(j); ev(j); }
        { Json j; j.q("cond").b(false); puts<Ts...>(j); put<ce::cond_t<false, Ts...>>(j); ev(j); }
    }
}
template<class T, T...Is> void seq(size_t n, ce::items<T, Is...>) { Json j, l; T const a[sizeof...(Is) + 1]{ Is... }; for (size_t k = 0; k < sizeof...(Is); ++k) l.i((long long)a[k]); j.q("sequence").i(n).arr(l).i(ce::items<T, Is...>::count); ev(j); }
template<size_t N> void sequences()
{
    seq(N, ce::sequence_t<size_t, N>{});
    if constexpr (N < 256) seq(N, ce::sequence_t<unsigned char, N>{});
    seq(N, ce::sequence_t<int, N>{});
}
template<class T, T...Is> void items()
{
    Json j, l, r; (void)l; (l.i((long long)Is), ...);
    if constexpr (sizeof...(Is) > 0) for (auto v : ce::items_v<T, Is...>) r.i((long long)v);
    j.q("items").arr(l).i(ce::items<T, Is...>::count).arr(r); ev(j);
}
template<size_t N, class T> void field(Json& l, T const& t) { if constexpr (std::is_floating_point<decltype(ce::get<N>(t))>::value) l.i((long long)(ce::get<N>(t) * 4)); else l.i((long long)ce::get<N>(t)); }
template<size_t N, class T> void get(char const* given, T const& t)
{
    Json j, l; j.q("get").raw(given);
    field<0>(l, t);
    if constexpr (N > 1) field<1>(l, t);
    if constexpr (N > 2) field<2>(l, t);
    if constexpr (N > 3) field<3>(l, t);
    j.arr(l); ev(j);
}
void count(long long want, long long got) { Json j; j.q("count").i(want).i(got); ev(j); }
void made(char const* shape, char const* with, bool got) { Json j; j.q("made").raw(shape).raw(with).b(got); ev(j); }
void bits(std::string const& want, std::string const& got) { Json j; j.q("bits").q(want).q(got); ev(j); }
void pp(char const* want, char const* got) { Json j; j.q("pp").q(want).q(got); ev(j); }
#define STR(...) STR_(__VA_ARGS__)
#define STR_(...) #__VA_ARGS__
static void generated(int);
struct S : Session
{
    void op(toks const& t) override
    {
        if (t[0] == "gen") return generated(int(I(t[1])));
        if (t[0] == "ascii")
        {
            char c = char(I(t[1]));
            namespace A = ce::ascii;
            Json j, l; l.b(A::is_base10(c)).b(A::is_base16(c)).b(A::is_base64(c)).b(A::is_alpha(c)).b(A::is_upper(c)).b(A::is_lower(c));
            j.q("ascii").i((unsigned char)c).arr(l); ev(j);
            return;
        }
        if (t[0] == "rgba")
        {
            ce::rgba<unsigned short> p{ (unsigned short)I(t[1]), (unsigned short)I(t[2]), (unsigned short)I(t[3]), (unsigned short)I(t[4]) };
            auto& a = p();
            unsigned short const (&b)[4] = p;
            for (int k = 0; k < 4; ++k) { count(I(t[k + 1]), a[k]); count(I(t[k + 1]), b[k]); }
            return;
        }
        bad(t[0]);
    }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
#include "types_gen.h"
