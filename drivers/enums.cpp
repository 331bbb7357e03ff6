#include "kit.h"
#include <type_traits>
#include <ce/nameof.h>
using namespace kit;
template<class T> str num(T v)
{
    using U = std::underlying_type_t<T>;
    return std::is_signed<U>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v);
}
template<class T> T val(str const& t) { return t[0] == '-' ? T(strtoll(t.c_str(), nullptr, 10)) : T(strtoull(t.c_str(), nullptr, 10)); }
template<class T> void run_enum(char const* spec, toks const& t)
{
    if (t[2] == "enum") { Json j; j.q("enum").raw(spec); ev(j); }
    else if (t[2] == "nameof")
    {
        Json l;
        T v = val<T>(t[3]);
        int n = int(I(t[4]));
        for (int k = 0; k < n; ++k) { char const* p = ce::nameof(T((std::underlying_type_t<T>)v + k)); l.bytes(p, strlen(p)); }
        Json j; j.q("nameof").q(t[3]).arr(l); ev(j);
    }
    else if (t[2] == "as")
    {
        str b = unhex(t[3]);
        char* p = strdup(b.c_str());
        Json j; j.q("as").bytes(b.data(), b.size()).q(t[4]).q(num(ce::as_enum<T>(p, val<T>(t[4])))); ev(j);
        Json k; k.q("as0").bytes(b.data(), b.size()).q(num(ce::as_enum<T>(p))); ev(k);
        free(p);
    }
    else bad(t[2]);
}
template<class T> void type_name(char const* path) { Json j; auto& p = ce::nameof<T>(); j.q("type").raw(path).bytes(p, strlen(p)); ev(j); }
static void generated(int n, toks const& t);
struct S : Session { void op(toks const& t) override { generated(int(I(t[1])), t); } };
Session* make(toks const&) { return new S; }
int main() { return run(make); }
#include "enum_gen.h"
