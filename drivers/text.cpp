#include "kit.h"
#include <ce/ce.h>
#include <thread>
using namespace kit;
template<class T> constexpr bool is_signed_v = T(-1) < T(0);
template<class T> constexpr int longest = sizeof(T) == 1 ? (is_signed_v<T> ? 4 : 3) : sizeof(T) == 2 ? (is_signed_v<T> ? 6 : 5) : sizeof(T) == 4 ? (is_signed_v<T> ? 11 : 10) : 20;
template<class T> void one(T v)
{
    char* b = (char*)malloc(longest<T>);
    memset(b, 0x5a, longest<T>);
    char* e = ce::to_text(b, v);
    Json j;
    j.q("int").b(is_signed_v<T>).bytes(&v, sizeof v).bytes(b, e - b >= 0 && e - b <= longest<T> ? e - b : 0);
    ev(j);
    free(b);
}
struct Odo
{
    char d[24]; int n;
    Odo(unsigned long long v) { n = snprintf(d, 24, "%llu", v); }
    // on by 10^k; the number has more than k digits
    void next(int k)
    {
        int j = n - 1 - k;
        while (j >= 0 && d[j] == '9') d[j--] = '0';
        if (j >= 0) ++d[j];
        else { memmove(d + 1, d, n++); d[0] = '1'; }
    }
};
template<class T> void sweep(unsigned long long lo, unsigned long long hi, int k)
{
    limit(0);
    unsigned long long step = 1;
    for (int q = 0; q < k; ++q) step *= 10;
    unsigned long long const M = (hi - lo) / step;
    hi = lo + M * step;
    int const W = M > 1000000 ? 8 : 1;
    std::vector<std::thread> ts;
    unsigned long long badn[8]{};
    Odo first(lo), last(lo);
    for (int w = 0; w < W; ++w)
        ts.emplace_back([&, w] {
            unsigned long long a = lo + M / W * w * step, b = w == W - 1 ? hi : lo + (M / W * (w + 1) - 1) * step, wrong = 0;
            Odo o(a);
            char t[64];
            for (unsigned long long v = a;; v += step, o.next(k))
            {
                char* e = ce::to_text(t, T(v));
                if (e - t != o.n || memcmp(t, o.d, o.n)) ++wrong;
                if (is_signed_v<T> && v)
                {
                    e = ce::to_text(t, T(0 - v));
                    if (e - t != o.n + 1 || t[0] != '-' || memcmp(t + 1, o.d, o.n)) ++wrong;
                }
                if (v == b) break;
            }
            badn[w] = wrong;
            if (w == W - 1) last = o;
        });
    for (auto& t : ts) t.join();
    unsigned long long sum = 0;
    for (auto n : badn) sum += n;
    Json j;
    j.q("sweep").u64(lo).u64(hi).bytes(first.d, first.n).bytes(last.d, last.n).i(sum > 999999 ? 999999 : sum);
    ev(j);
}
// ---- composite texts: the cases are generated, with their values
static char const* parts_of;
inline void out(char const* kind, char const* parts, char const* p, size_t n) { Json j; j.q(kind).raw(parts).bytes(p, n); ev(j); }
inline void fix(std::string& parts, void const* address)
{
    auto k = parts.find("@PTR");
    if (k != std::string::npos) parts.replace(k, 4, std::to_string((unsigned long long)(size_t)address));
}
template<class...Ts> void text(std::string const& parts, size_t len, Ts const&...ts)
{
    char* b = (char*)malloc(len + !len);
    char* e = ce::to_text(b, ts...);
    out("text", parts.c_str(), b, e - b >= 0 && size_t(e - b) <= len ? e - b : 0);
    free(b);
}
template<class S> void as(std::string const& parts, S* s)
{
    out("as", parts.c_str(), s->as, strlen(s->as));
    delete s;
}
static void generated(int);
struct S : Session
{
    void op(toks const& t) override
    {
#define R(T) if (t[1] == #T) { if (t[0] == "sweep") sweep<T>(U(t[2]), U(t[3]), t.size() > 4 ? int(I(t[4])) : 0); else one<T>(is_signed_v<T> ? T(I(t[2])) : T(U(t[2]))); return; }
        using schar = signed char; using uchar = unsigned char; using ushort_ = unsigned short; using uint_ = unsigned; using ulong_ = unsigned long; using llong = long long; using ullong = unsigned long long;
        if (t[0] == "gen") { generated(int(I(t[1]))); return; }
        R(schar) R(uchar) R(short) R(ushort_) R(int) R(uint_) R(long) R(ulong_) R(llong) R(ullong)
        bad(t[1]);
    }
};
Session* make(toks const&) { return new S; }
int main() { return run(make); }
#ifdef GEN
#include "text_gen.h"
#else
static void generated(int) {}
#endif
